from . import mdp, env, algos, grids, search, learn, io, plots, pure, wellformed
ASSUMPTIONS = [
    'Python and numpy behave as modelled in sa/ (models validated against numpy by dev/selftest.py)',
    'real arithmetic: floating-point rounding is not modelled',
]
L = 'other'
RULES = {}
for m in (mdp, env, algos, grids, search, learn, io, plots, pure, wellformed):
    for n in dir(m):
        if len(n) == 3 and n[0] == 'C' and n[1:].isdigit():
            RULES[n] = (getattr(m, n), L, dict(rule=(getattr(m, n).__doc__ or '').strip()))
