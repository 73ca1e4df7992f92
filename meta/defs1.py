"""Property definitions, part 1 (base)."""
P = []


def prop(id_, title, statement, over, text, why, files, mech, **kw):
  P.append(dict(id=id_, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[
                    dict(name=n, where=w) for n, w in mech], **kw)))


B = 'jax_cfd/base/'

prop('G01', 'Grid geometry: coordinates, steps, meshes and wave numbers',
     'A grid of any rank, cell counts and domain has step (upper - lower) / cells per axis and places element i of a field with offset o at lower + (i + o) * step; meshes, boundary positions, sampled functions and Fourier frequencies follow from that same rule with one array per axis in axis order. '
     'Offset conventions (cell centre, faces, staggered components, mean offset, control-volume faces) are the half-cell positions they name. '
     'Ambiguous or malformed constructor arguments are rejected instead of yielding a grid.',
     ['inputs', 'configurations'],
     'all cell counts, steps, domain bounds, offsets, ranks 1-3',
     'Tests construct a few grids with fixed sizes, mostly unit steps and square shapes, where step, size and axis mix-ups coincide.',
     [B + 'grids.py'],
     [('Grid', B + 'grids.py'), ('averaged_offset / control_volume_offsets', B + 'grids.py')])

prop('G02', 'Values keep their location: offsets, grids and alignment errors',
     'Every arithmetic operation on located fields acts element by element on the data and keeps the offset and grid; combining fields with different offsets or grids, or stripping/adding boundary information implicitly, is refused with an alignment error, never silently computed. '
     'Wrapping, unwrapping, flattening and rebuilding, and lifting a plain array function all return the same data, offset, grid and boundary condition they were given.',
     ['inputs', 'programs'],
     'all data, offsets, grids, ufunc expressions and containers of fields',
     'Tests check a handful of operators on equal-offset inputs; the guarantee is about every mismatched combination.',
     [B + 'grids.py'],
     [('GridArray ufunc dispatch', B + 'grids.py'), ('consistent_* / unique_*', B + 'grids.py'), ('applied / stack_gridarray', B + 'grids.py')])

prop('B01', 'Ghost cells obey the boundary condition on every side and axis',
     'Extending or shifting a field past its stored range produces, on each axis and side independently, the periodic image, the reflection that makes the face value equal the Dirichlet constant (or the constant itself for wall-aligned data), or the value that makes the one-sided difference equal the Neumann constant. '
     'Interior values are never changed, the offset always reports where the data now sits, and undefined combinations raise instead of returning values. '
     'Padding and then trimming by the same width is the identity.',
     ['inputs', 'configurations'],
     'all data, sizes, steps, boundary constants; every type per axis and side, ranks 1-3, offsets 0, 1/2, 1, both padding modes, widths up to 3',
     'Tests use fixed small arrays, mostly homogeneous or symmetric boundary values and one or two axes.',
     [B + 'boundaries.py'],
     [('ConstantBoundaryConditions._pad/_trim/shift', B + 'boundaries.py')])

prop('B02', 'Boundary restoration and derived boundary conditions',
     'Imposing a boundary condition on any array that holds the interior values yields a field on the grid whose interior is those values and whose wall values are the condition\'s constants, and imposing twice equals imposing once. '
     'Boundary values reported per axis are (lower, upper), the named constructors give the condition they name on each axis, and derived pressure and advective-flux conditions are the physically matching ones (periodic to periodic, wall to zero-gradient pressure and zero normal flux) or an explicit refusal.',
     ['inputs', 'configurations'],
     'all data and boundary constants; every boundary type combination, ranks 1-3, offsets',
     'Tests enumerate few type combinations, and lower/upper or axis swaps vanish for symmetric constants.',
     [B + 'boundaries.py'],
     [('trim_boundary / impose_bc / pad_and_impose_bc', B + 'boundaries.py'), ('get_pressure_bc / get_advection_flux_bc', B + 'boundaries.py')])

prop('D01', 'Difference operators are the stated stencils with exact identities',
     'Forward, backward and central differences, gradients, divergence, Laplacian, curls and cell-centred gradient tensors equal their textbook stencils with the step of the differentiated axis, and report the offset at which the difference lives, for every boundary condition. '
     'Consequently, for every field, the divergence of a gradient is the Laplacian, the divergence of a curl and the curl of a gradient vanish, constants have zero gradient, and linear fields have exact gradients.',
     ['inputs', 'configurations'],
     'all fields, sizes, (unequal) steps per axis, ranks 1-3, offsets and boundary types',
     'Tests compare a few analytic fields with tolerances on grids with equal steps.',
     [B + 'finite_differences.py'],
     [('forward/backward/central_difference, stencil_sum', B + 'finite_differences.py')])

prop('I01', 'Interpolation moves values only as far and as its scheme says',
     'Interpolating to the offset a field already has returns it unchanged; otherwise the result carries the target offset and boundary condition, equals the stated weights (linear weights per axis, upstream or flux-limited values in the direction of flow), and the weights sum to one so that constants are reproduced exactly. '
     'Unsupported offset combinations are refused.',
     ['inputs', 'configurations'],
     'all fields, velocities, time steps, offsets, ranks 1-3, boundary types',
     'Tests sample a few offsets with symmetric fields; weights could be wrong for any other fraction or sign of velocity.',
     [B + 'interpolation.py'],
     [('linear / upwind / lax_wendroff / apply_tvd_limiter / point_interpolation', B + 'interpolation.py')])

prop('A01', 'Advection is conservative flux form with the stated face values',
     'The advective tendency of a scalar is minus the discrete divergence of face flux = face velocity times interpolated scalar, so it sums to zero over a periodic or closed domain for every velocity and scalar, and it vanishes for a constant scalar in discretely divergence-free flow. '
     'Every named scheme (linear, upwind, limited, semi-Lagrangian, velocity self-advection) uses the face value its name promises, component by component, and the stable step limits follow the CFL formula.',
     ['inputs', 'configurations'],
     'all velocities, scalars, steps, ranks 1-3, supported boundary types',
     'Tests check conservation and convergence for a few random or smooth fields within tolerances.',
     [B + 'advection.py'],
     [('advect_general', B + 'advection.py'), ('convect_linear', B + 'advection.py')])

prop('V01', 'Diffusion: explicit operator and implicit solve invert each other',
     'Explicit diffusion is viscosity times the discrete Laplacian located with its input. '
     'The implicit solvers return a field satisfying v - dt * viscosity * Laplacian(v) = input under the input\'s own boundary condition, per component, and the stable time step is dx^2 / (viscosity * 2^rank) with no bound for zero viscosity.',
     ['inputs', 'configurations'],
     'all fields, viscosities, time steps, grids, boundary types supported',
     'Tests use homogeneous conditions and a few parameters; dropped factors or boundary terms cancel there.',
     [B + 'diffusion.py', B + 'fast_diagonalization.py'],
     [('solve_cg / solve_fast_diag', B + 'diffusion.py')])

prop('P01', 'Pressure projection removes exactly the discrete divergence',
     'The projection subtracts the discrete gradient of a potential whose discrete Laplacian, with the boundary condition matching the velocity, equals the discrete divergence of the input; therefore the result is divergence-free whenever the solve is exact and is unchanged for divergence-free input. '
     'Velocity boundary conditions, offsets and the number and order of components are preserved, and solvers that cannot handle a boundary condition refuse it.',
     ['inputs', 'configurations'],
     'all velocity fields, grids with unequal steps, ranks 2-3, periodic/wall conditions',
     'Tests check small residual divergence for a few fields and sizes; a wrong step, axis or boundary type can hide below tolerance.',
     [B + 'pressure.py', 'jax_cfd/collocated/pressure.py'],
     [('projection', B + 'pressure.py'), ('solve_cg / solve_fast_diag', B + 'pressure.py'), ('solve_fast_diag', 'jax_cfd/collocated/pressure.py')])

prop('L01', 'Matrix form of the Laplacian and diagonalized operator functions',
     'The per-axis Laplacian matrices are symmetric and act on a vector exactly as the difference stencil with the matching boundary condition, and the boundary-condition contribution equals what the stencil takes from ghost values. '
     'Diagonalized application of a scalar function (transform, pseudo-inverse) equals f of the sum of the per-axis operators, mapping the null space as documented, independently of the implementation chosen.',
     ['inputs', 'configurations'],
     'all matrix sizes, steps, offsets, boundary types, input arrays and both transform implementations',
     'Tests invert a few random systems of one size; axis order and null-space handling need structure to show.',
     [B + 'fast_diagonalization.py', B + 'array_utils.py'],
     [('transform / psuedoinverse', B + 'fast_diagonalization.py'), ('laplacian_matrix*', B + 'array_utils.py')])

prop('E01', 'Navier-Stokes steps assemble each physical term exactly once',
     'One explicit time step equals the chosen integrator applied to advection plus viscosity/density times the Laplacian plus forcing/density, with incompressibility projection applied after every stage; the implicit-diffusion variant applies advection and forcing explicitly, then projects, then solves diffusion. '
     'Omitted viscosity or forcing removes just that term, and custom components replace only the component they name, for staggered and collocated solvers alike.',
     ['inputs', 'configurations'],
     'all states, densities, viscosities, time steps, forcings, optional components on/off, ranks 2-3',
     'Tests run a few configurations with unit density; wrong scaling of one term for density != 1 or a missing term in one variant is not exercised.',
     [B + 'equations.py', 'jax_cfd/collocated/equations.py'],
     [('navier_stokes_explicit_terms / semi_implicit / implicit_diffusion', B + 'equations.py')])

prop('T01', 'Explicit Runge-Kutta steppers realise their order conditions',
     'Each named explicit stepper advances u\' = F(u) by its Runge-Kutta tableau with stage values built only from earlier stages, applies the constraint projection to every intermediate state and to the result, and meets the order conditions of its name (forward Euler 1, midpoint and Heun 2, RK4 4). '
     'Inconsistent tableaux are rejected.',
     ['inputs', 'programs'],
     'all right-hand sides, states, step sizes and tableaux',
     'Tests integrate one or two ODEs with loose tolerance; a wrong stage weight can pass, and projection placement is not observed.',
     [B + 'time_stepping.py'],
     [('navier_stokes_rk and tableaux', B + 'time_stepping.py')])
