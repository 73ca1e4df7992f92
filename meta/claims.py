"""Claimed checks: id -> (technique, level note)."""
T = 'abstract interpretation (symbolic value numbering) of the source'
N = ('Decides each listed obligation for all numeric inputs and grid sizes at '
     'once by comparing abstract values computed from the current source with '
     'an independently written specification in normal form; exact (real) '
     'arithmetic, finite static configurations enumerated; trusts the models '
     'of numpy/jax primitives in sa/.')
CLAIMS = {}
for i in ('G01 G02 B01 B02 D01 I01 A01 V01 P01 L01 E01 T01 T02 S01 S02 F01 N01 '
          'R01 H01 U01 C01 M01 M02 M03 M04 M05 X01 W01 Q01').split():
  CLAIMS[i] = (T, N)
CLAIMS['Q01'] = (
    'alias and effect analysis, random key linearity and array taint analysis '
    'over the syntax tree',
    'Analyses every function, method and closure of the package with '
    'interprocedural effect summaries; flow-sensitive, field-sensitive for '
    'attributes of local names; function values received as arguments are '
    'taken to be pure.')
NOT_APPLICABLE = {}
NOTES = 'See DESIGN.md.'
