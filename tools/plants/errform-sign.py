PROPERTY = 'C12'
NEEDS = 'the error form of an implicit form whose L coefficients are not exact in the chosen word-length'
BREAKS = 'the effect of the approximation of L on the output error has the wrong sign'
EDITS = [('fixif/SIF/SIF_tilde_error.py', "\tL = np.bmat([[L_tilde-S.L, L_tilde]])\n", "\tL = np.bmat([[S.L-L_tilde, L_tilde]])\n")]
DEMO = '''
import numpy as np
from fixif.SIF import SIF
from fixif.SIF.SIF_tilde_error import SIFH_to_SIFHstar
m = lambda a, b, v: np.matrix(np.full((a, b), v))
S = SIF((m(1, 1, 1.), m(1, 1, 0.5), m(1, 1, 0.7), m(1, 1, 0.25), m(1, 1, 1.), m(1, 1, 0.), m(1, 1, 0.), m(1, 1, 0.), m(1, 1, 0.)))
t, e = SIFH_to_SIFHstar(S, 4)
u = np.matrix(np.ones((1, 5)))
ue = np.matrix(np.vstack([np.ones((1, 5)), np.zeros((3, 5))]))
d = t.simulate(u) - S.simulate(u) - e.simulate(ue)
assert abs(d).max() < 1e-9, d
'''
