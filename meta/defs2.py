"""Property definitions, part 2 (utilities, spectral, ml, data)."""
from .defs1 import P, prop, B

S, M, DT, C = ('jax_cfd/spectral/', 'jax_cfd/ml/', 'jax_cfd/data/',
               'jax_cfd/collocated/')

prop('T02', 'Implicit-explicit steppers realise their schemes',
     'Each implicit-explicit stepper combines the explicit terms, implicit terms and implicit solve of any equation exactly as its published scheme does (stage order, step sizes handed to the implicit solve, coefficients), meets the first or second (third) order conditions it claims, and reduces to its explicit parent when the implicit part is zero. '
     'Coefficient sets of inconsistent length are rejected.',
     ['inputs', 'programs'],
     'all splittings F and G, states, step sizes, coefficient tables',
     'Tests integrate three small ODEs with tolerances that a slightly wrong coefficient or a swapped stage can pass.',
     [S + 'time_stepping.py'],
     [('steppers and tableaux', S + 'time_stepping.py')])

prop('S01', 'Spectral equations split the PDE exactly once into two parts',
     'For each spectral equation the explicit plus implicit parts equal the Fourier transform of the stated PDE right-hand side (signs, wave-number powers, viscosity, drag, forcing and dealiasing included), and the implicit solve inverts identity minus step times the implicit part. '
     'Turning an option (dealiasing, drag, forcing) off removes exactly that effect.',
     ['inputs', 'configurations'],
     'all Fourier states, grids, viscosities, drags, step sizes, options',
     'Tests compare a few trajectories with fixed parameters; options are exercised in one setting only.',
     [S + 'equations.py'],
     [('explicit_terms / implicit_terms / implicit_solve', S + 'equations.py')])

prop('S02', 'Spectral utilities keep resolved modes and solve Biot-Savart exactly',
     'Zero-padding to a finer grid and truncating back is the identity on resolved modes with amplitudes preserved; filters are masks that keep low wave numbers unchanged and, up to the cut-off row itself, are symmetric under negated wave numbers; velocity recovered from vorticity is divergence-free, has zero mean and has the given vorticity as its curl. ',
     ['inputs', 'configurations'],
     'all spectra, grid sizes, domain lengths',
     'Tests use one or two sizes and smooth fields; parity of the size and unequal axes change the slicing.',
     [S + 'utils.py'],
     [('truncate/pad pairs, filters, vorticity_to_velocity, spectral_curl_2d', S + 'utils.py')])

prop('F01', 'Forcings are the stated fields at the location of the velocity',
     'Every forcing returns one component per velocity component, at the offset of that component and on its grid, equal to the stated formula (Kolmogorov, Taylor-Green, linear, filtered linear, sinusoidal random waves) evaluated at that location, and the sum of forcings is the component-wise sum. '
     'Invalid dimensions are refused.',
     ['inputs', 'configurations'],
     'all grids, scales, wave numbers, velocities and offsets, ranks 2-3',
     'Tests check shapes or a single parameter set, with equal offsets for all components.',
     [B + 'forcings.py', M + 'forcings.py', S + 'forcings.py'],
     [('forcing factories', B + 'forcings.py'), ('ml forcing wrappers', M + 'forcings.py')])

prop('N01', 'Initial conditions are centred, normalised and divergence-free',
     'Initial velocity fields are sampled at the requested component offsets, pass through incompressibility projection and are scaled so that the maximum speed equals the requested one; filters act per wave number as stated and random draws use independent keys per component. '
     'The number of components matches the grid rank and boundary conditions are the requested ones. The Taylor-Green reference flow is sampled at the requested offsets and decays at the rate (kx^2 + ky^2) viscosity / density.',
     ['inputs', 'configurations'],
     'all random keys, grids, maximum velocities, peak wave numbers, offsets',
     'Tests use a fixed seed and check loose statistics.',
     [B + 'initial_conditions.py', C + 'initial_conditions.py', B + 'filter_utils.py', B + 'validation_problems.py'],
     [('filtered_velocity_field', B + 'initial_conditions.py'), ('filter', B + 'filter_utils.py')])

prop('R01', 'Resampling between grids preserves what it claims to preserve',
     'Downsampling staggered velocities keeps face values that average the fine faces, thus preserving flux and discrete divergence at coarse cells; block averaging preserves means; spectral resizing keeps the amplitudes of all modes both grids resolve. '
     'Results live on the destination grid at unchanged offsets, and incompatible grids or domains are refused.',
     ['inputs', 'configurations'],
     'all fields, integer factors, grids with unequal factors, ranks',
     'Tests use one factor on square grids and particular fields.',
     [B + 'resize.py'],
     [('downsample_* / FFT resize', B + 'resize.py')])

prop('H01', 'Repeated and scanned stepping equals plain iteration',
     'Running a step function repeatedly, collecting a trajectory, or initialising with a warm-up equals literally iterating the step the stated number of times, with the stated sampling, ordering and inclusion of the initial state, for every step function and state structure. '
     'Post-processing is applied to what is stored only and never feeds back into the state.',
     ['inputs', 'programs', 'histories'],
     'all step functions, states, numbers of steps, inner steps and flags',
     'Tests iterate one or two functions for small counts with default flags.',
     [B + 'funcutils.py', M + 'model_utils.py'],
     [('repeated / trajectory / scan helpers', B + 'funcutils.py'), ('rollout helpers', M + 'model_utils.py')])

prop('U01', 'Array utilities move data without altering it',
     'Splitting, slicing, concatenating, downsampling and reshaping helpers act on the requested axis only (negative axes included), keep order and content, apply uniformly over nested structures, and pairs of inverses undo each other. '
     'The Gram-Schmidt, block and circulant helpers return the linear-algebra object they name.',
     ['inputs', 'configurations'],
     'all arrays, axes, indices, tree structures',
     'Tests use a couple of shapes and axes.',
     [B + 'array_utils.py'],
     [('split/slice/concat helpers', B + 'array_utils.py')])

prop('C01', 'Eddy-viscosity closures are symmetric, consistent and local',
     'Eddy-viscosity models compute viscosity from the magnitude of the strain rate at the location where it is used, the subgrid acceleration is the divergence of 2 * viscosity * symmetric strain (reducing to viscosity times the Laplacian for uniform viscosity in solenoidal flow), and constants, filter widths and offsets enter as stated. '
     'They return one component per velocity component at that component\'s offset.',
     ['inputs', 'configurations'],
     'all velocity fields, grids, constants, interpolators, ranks 2-3',
     'Tests check one flow or shapes only.',
     [B + 'subgrid_models.py', M + 'viscosities.py'],
     [('evm_model / smagorinsky_viscosity', B + 'subgrid_models.py')])

prop('M01', 'Learned stencils satisfy their accuracy constraints for all inputs',
     'Whatever the network outputs, the produced stencil coefficients satisfy the polynomial accuracy conditions of the requested derivative, order and discretisation at the requested offset; the patch elements are multiplied with the coefficients of their own position, on all extraction paths, fused or not, with periodic wrap. '
     'Invalid constraints, biases and steps are refused.',
     ['inputs', 'configurations'],
     'all logits and fields, stencil sizes, offsets, derivative orders, grid steps, ranks 1-3',
     'Tests evaluate a few stencils with random logits; alignment between patches and coefficients can fail for other offsets or paths.',
     [M + 'layers_util.py', M + 'layers.py', M + 'interpolations.py'],
     [('polynomial constraints', M + 'layers_util.py'), ('PolynomialConstraint / SpatialDerivative*', M + 'layers.py'), ('learned interpolation', M + 'interpolations.py')])

prop('M02', 'Convolution layers respect boundaries and translation symmetry',
     'Periodic convolution layers return outputs of the input\'s spatial size equal to the circular convolution (any kernel size, dilation, stride, tiling layout), so shifting the input shifts the output; mirror layers pad through the field\'s own boundary condition and return fields at the same offsets. '
     'Splitting into tiles and reassembling is invertible and never changes the convolution result.',
     ['inputs', 'configurations'],
     'all inputs, kernels, sizes, dilation rates, strides, tile layouts',
     'Tests try a few shapes, mostly with symmetric kernels sizes.',
     [M + 'layers.py', M + 'tiling.py', M + 'layers_util.py'],
     [('padding computation', M + 'layers.py'), ('space_to_batch / batch_to_space / halo exchange', M + 'tiling.py')])

prop('M03', 'Encoders and decoders wrap states without mixing components',
     'Encoders place component k of the input at the offset and boundary condition of component k, select the last input frame where a time axis exists, and apply scaling, shifts and auxiliary fields exactly once; decoders invert them, so decoding an encoded state returns the original components. '
     'Adapters between fields and networks (channel stacking and splitting, resampling to network offsets, flux divergence, correctors) obey the same component, offset and boundary bookkeeping, and flux corrections are discrete divergences of the network\'s fluxes.',
     ['inputs', 'configurations'],
     'all input states, numbers of components, time axes, scales',
     'Tests check shapes for one or two configurations.',
     [M + 'encoders.py', M + 'decoders.py', M + 'networks.py'],
     [('encoder factories', M + 'encoders.py'), ('decoder factories', M + 'decoders.py'), ('network adapters', M + 'networks.py')])

prop('M04', 'Learned-model components plug into the solver as their classical twins',
     'Wrappers that expose advection, diffusion, pressure, forcing and interpolation components hand every argument (grid, step, velocity, time step, physics constants) to the component they wrap, unchanged and in the right role, and models built from them advance time by exactly the configured number of inner steps. '
     'Quantities taken from the physics specification (density, viscosity, forcing) are the ones used.',
     ['inputs', 'configurations'],
     'all grids, time steps, specifications and component choices',
     'Tests run default configurations where swapped or dropped arguments coincide with defaults.',
     [M + 'equations.py', M + 'advections.py', M + 'diffusions.py', M + 'pressures.py', M + 'forcings.py', M + 'time_integrators.py', M + 'physics_specifications.py', M + 'model_builder.py'],
     [('modular equation factories', M + 'equations.py')])

prop('M05', 'Training losses and metrics weigh each element as documented',
     'Training losses, gradients steps and evaluation metrics compare prediction and target of the same time, component and location, reduce over exactly the documented axes, are zero for perfect predictions, and time-masked or weighted variants apply the weight of the matching step. ',
     ['inputs', 'configurations'],
     'all predictions, targets, masks, time steps and reductions',
     'Tests are absent or check a single case.',
     [M + 'metrics.py', M + 'train_utils.py', M + 'model_utils.py'],
     [('metrics', M + 'metrics.py'), ('loss and step functions', M + 'train_utils.py')])

prop('X01', 'Dataset conversion and evaluation keep axes, names and normalisation',
     'Converting trajectories to labelled datasets attaches each component to its own name and each axis to its own coordinate, with coordinates equal to the positions and times of the samples; vorticity, energy, spectra, correlations and other evaluation quantities equal their definitions for every field, including normalisation and domain factors. ',
     ['inputs', 'configurations'],
     'all trajectories, grids, ranks 1-3, sampling intervals',
     'Tests cover a couple of conversions; evaluation functions are largely untested.',
     [DT + 'xarray_utils.py', DT + 'evaluation.py'],
     [('construct / velocity_trajectory_to_xarray', DT + 'xarray_utils.py'), ('evaluation metrics', DT + 'evaluation.py')])

prop('Q01', 'Solver functions are pure, reproducible and traceable',
     'No library function mutates its arguments, shared defaults or module state, or depends on unseeded randomness, the clock or global order; every random key is consumed at most once and derived keys are split from the caller\'s key. '
     'Therefore the same inputs give the same outputs in any order, inside or outside compiled and vectorised execution.',
     ['programs', 'histories', 'schedules'],
     'all call sequences of every public function of the library',
     'Tests call functions in isolation; aliasing and hidden state need particular call histories to show.',
     ['jax_cfd/base', 'jax_cfd/spectral', 'jax_cfd/ml', 'jax_cfd/collocated', 'jax_cfd/data'],
     [('effect analysis over all functions', 'jax_cfd/')])

prop('W01', 'Rendered frames and movies show the data they name',
     'Converting a trajectory to images gives one image per time, in order, whose pixel in column i and row j is the colour of the value at that row and column under that frame\'s normalisation; the default range is symmetric about zero and reaches the requested quantile of the magnitudes. '
     'Resizing keeps the aspect ratio, side-by-side stitching keeps every source pixel with separators of the stated width and colour between neighbours only, and a saved movie contains all frames in order with the requested duration and loop count.',
     ['inputs', 'configurations'],
     'all trajectories, normalisations, colour maps, image sizes, separations and options',
     'Tests check the sizes of a few images and that a file appears.',
     [DT + 'visualization.py'],
     [('trajectory_to_images / horizontal_facet / save_movie', DT + 'visualization.py')])
