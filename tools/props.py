"""The list of properties: generates properties.jsonl and MANIFEST.json (run it after editing)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, observe, technique, note, level, state=None):
	d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
	         anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
	if state:
		d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
	P.append((d, technique, note, level))


FA = 'fixif/func_aux/'
L = 'fixif/LTI/'

prop('C01', 'Exact matrix arithmetic is rational arithmetic',
     'The exact sum, difference and product of two real matrices of fitting sizes (numpy or multiprecision, or multiprecision matrix objects), and the exact inverse of a unit lower-triangular matrix, equal the results of rational arithmetic with no rounding at all. This holds for every shape (also non square), every magnitude and every working precision, and neither the operands nor the working precision are modified.',
     ['inputs', 'configurations'], 'all shapes, all operand kinds, all entry values, all ambient working precisions',
     'The tests use one square shape with integer-like random values at the default precision: shape mix-ups and roundings that need wide exponents or another precision stay invisible.',
     [FA + 'mpf_matrix_fadd.py', FA + 'mpf_matrix_fsub.py', FA + 'mpf_matrix_fmul.py', FA + 'mpf_matrix_lt_inverse.py', FA + 'MPFMatrix.py'],
     [('element loops with exact=True', FA + 'mpf_matrix_f*.py, MPFMatrix.py'), ('forward substitution', FA + 'mpf_matrix_lt_inverse.py')], ['returned matrices'],
     'exhaustive enumeration of shapes x kinds x precisions x value assignments on the real code, against rational arithmetic',
     'Bounded exhaustive: every shape, operand kind, precision and value family (and every assignment of a small alphabet to small shapes). Trusts Python Fractions and the mpmath number layout.', 'exploration')

prop('C02', 'Operands that do not fit are refused, fitting ones are accepted',
     'Matrices, state spaces, transfer functions and implicit forms whose sizes or types do not fit together (exact matrix operations, conversions, system constructors, system sum / difference / series) are refused with a ValueError, never with another exception nor by returning a result. Those that fit, whatever their (rectangular, single row or column) shape, are accepted.',
     ['inputs'], 'all combinations of dimensions of all operands, and all operand types, for every operation',
     'The tests try one wrong size per operation; the accepted/refused frontier is over all dimension combinations.',
     [FA, L + 'dSS.py', L + 'dSSmp.py', L + 'dTF.py', L + 'dTFmp.py', L + 'Filter.py', 'fixif/SIF/SIF.py'],
     [('size checks', 'constructors and operators of each class')], ['raised exception', 'returned object'],
     'exhaustive enumeration of dimension and type combinations on the real code',
     'Bounded exhaustive over all dimension combinations (1..3, blocks 1..2).', 'exploration')

prop('C03', 'Number conversions are lossless, or correctly rounded to double',
     'Converting a double or integer matrix to multiprecision loses nothing and converting it back gives the same doubles; converting any multiprecision value in range to double is rounded to nearest. The integer representation (y, n) of a multiprecision number satisfies value = y*2^n exactly, a matrix written in hexadecimal reads back unchanged, and none of it depends on the working precision.',
     ['inputs', 'configurations'], 'all values (significands, exponents, signs), positions, shapes, working precisions',
     'Tests convert a few random matrices with a tolerance at the default precision.',
     [FA + 'python2mpf_matrix.py', FA + 'mpf_to_numpy.py', FA + 'mpf_get_representation.py', FA + 'mpf_matrix_get_representation.py', FA + 'MPFMatrix.py', FA + 'mpc_get_real.py', FA + 'write_matrix_hex.py'],
     [('conversion loops', FA)], ['returned matrices', 'written text'],
     'exhaustive enumeration of a boundary-value alphabet at every position of every shape and precision on the real code',
     'Bounded exhaustive over boundary significands x exponents x signs x positions x shapes x precisions, exact oracle.', 'exploration')

prop('C04', 'Polynomial products are the products of their factors',
     'The product of two (real or complex) polynomials, given by coefficient vectors of any lengths, has the coefficients of their product. The polynomial built from a list of n coefficients p_i is the product of the (z + p_i) - of all but the one of the given index when an index is given, for every index and every n >= 1 - and arguments are not modified.',
     ['inputs'], 'all coefficient vectors and root lists of every length, every omitted index',
     'Tests multiply a couple of fixed polynomials and never use the single-root or last-index cases.',
     [FA + 'mpf_poly_mult.py', FA + 'mp_poly_product.py'], [('convolution and index skipping', FA)], ['returned coefficient vector'],
     'exhaustive enumeration of coefficient and root lists on the real code, against integer polynomial arithmetic',
     'Bounded exhaustive: all coefficient vectors / root lists over small alphabets up to degree 3 (tagged up to 6).', 'exploration')

prop('C05', 'Transfer function operators are those of rational functions',
     'For any two transfer functions (whatever the lengths of their numerators and denominators, leading zeros or a leading denominator coefficient different from 1), +, - and * and unary minus give the transfer function whose impulse response is the sum, difference, convolution or opposite of theirs; with a number on either side they add, subtract or scale. The denominator of every result starts with 1, the order is that of its longest polynomial, and the operands are unchanged.',
     ['inputs', 'histories'], 'all coefficient vectors, all operator trees',
     'Tests compare a few random same-length examples; unequal lengths, numbers on the left and chains of operators are not reached.',
     [L + 'dTF.py'], [('normalisation and padding', L + 'dTF.py __init__'), ('operators', L + 'dTF.py')], ['num, den, order of the results'],
     'exhaustive enumeration of operand pairs and operator trees on the real code, against rational functions',
     'Bounded exhaustive: lengths 1..3, all pairs of a pool, all operator trees of 3 leaves over a small pool; equality of rational functions decided by cross product.', 'model_checking')

prop('C06', 'Chains of conversions between system forms keep the input/output behaviour',
     'Converting a system between transfer function and state space, in double or multiple precision, in any order and any number of times (controllable or observable form), gives a system with the same order, numbers of inputs and outputs and impulse response: exactly so from double to multiple precision and from a multiprecision transfer function to a multiprecision state space, with at least the requested number of bits for a multiprecision state space to a transfer function. The object converted and the global working precision are left as they were.',
     ['inputs', 'histories', 'configurations'], 'all systems (orders >= 1, defective or nilpotent state matrices included), all conversion sequences, all working precisions',
     'Tests do single conversions of random stable systems at one precision, never order 1 nor non-diagonalisable matrices.',
     [L + 'dTF.py', L + 'dSS.py', L + 'dTFmp.py', L + 'dSSmp.py'], [('to_dSS / to_dTF / to_dSSmp / to_dTFmp', L)], ['coefficients of the result', 'global working precision'],
     'breadth-first search over conversion sequences on the real objects, impulse responses compared in every state',
     'Bounded exhaustive: all chains of up to 4 conversions from each system of a pool (orders 1..4, all degenerate shapes) in 3 working precisions.', 'model_checking')

prop('C07', 'State-space algebra matches the input/output algebra',
     'For state spaces with fitting inputs and outputs, +, -, and * (the right one first, then the left one) give systems whose impulse responses are the sum, difference and convolution of theirs; indexing or slicing by outputs and inputs gives the selected part of the response. A change of basis T turns (A,B,C,D) into (T^-1 A T, T^-1 B, C T, D) and simplification never adds states: both leave the impulse response unchanged, as all operators leave their operands.',
     ['inputs', 'histories'], 'all systems, sizes, operator sequences, index pairs, zero patterns, changes of basis',
     'Tests only compare with random Matlab-like cases of one shape; order of series connection, multi-input slices or zero patterns need all combinations.',
     [L + 'dSS.py'], [('operators', L + 'dSS.py __add__, __sub__, __mul__, __getitem__'), ('simplify, similarity', L + 'dSS.py')], ['Markov parameters of the results'],
     'exhaustive enumeration of system pairs, operator sequences, slices and zero patterns on the real code',
     'Bounded exhaustive: all pairs over a value alphabet (order 1) and over a multi-dimensional pool, operator sequences of 3, all zero patterns up to 3 states.', 'model_checking')

prop('C08', 'Derived quantities of a state space describe its current matrices',
     'Whatever was asked or done before (in any order: Gramians, H2 norm, worst-case peak gain, DC gain, changes of basis, conversions, sub-systems), the observability and controllability Gramians of a stable state space satisfy their Lyapunov equations for its current matrices, and its H2 norm, worst-case peak gain and DC gain are those of its impulse response. Gramians that do not exist (singular Lyapunov equation) and the DC gain of a system with a pole at 1 are reported by a ValueError or LinAlgError.',
     ['histories', 'inputs'], 'all sequences of queries and transformations on one object',
     'Tests query fresh objects once; stale caches only show after a particular sequence.',
     [L + 'dSS.py'], [('lazily computed and cached quantities', L + 'dSS.py'), ('cache invalidation', L + 'dSS.py similarity')], ['returned quantities'],
     'exhaustive exploration of operation histories on one real object, invariant checked in every state',
     'Bounded exhaustive: all histories of 4 operations out of 11 on systems with n<=3. The WCPG library is a stand-in (direct summation).', 'model_checking',
     [('cached quantities', 'Gramians, norms, gains already computed', L + 'dSS.py')])

prop('C09', 'Multiprecision state spaces: exact algebra and faithful simulation',
     'The sum and difference of multiprecision state spaces (or of one with a double precision one) have exactly the sum and difference of their impulse responses. Simulating one gives, sample by sample and from the given initial state (zero by default), exactly the outputs of the recurrence; in the non-exact mode, exactly those of the recurrence where each new state is rounded to the nearest doubles. None of this depends on the working precision, nor modifies the system, the input or the initial state.',
     ['inputs', 'histories', 'configurations'], 'all systems, initial states, input sequences and working precisions',
     'Tests simulate zero-state random systems and compare with tolerance.',
     [L + 'dSSmp.py'], [('exact operators', L + 'dSSmp.py'), ('simulation loop', L + 'dSSmp.py simulate')], ['returned systems and outputs'],
     'exhaustive enumeration of input sequences x initial states x systems x precisions on the real code, against the exact recurrence',
     'Bounded exhaustive: all input sequences of 4 samples over 3 vectors, 5 initial states, systems with n<=3, 3 precisions.', 'model_checking')

exec(open(os.path.join(HERE, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'props2.py')) else None

NA = []
if os.path.exists(os.path.join(HERE, 'tools', 'na.json')):
	NA = json.load(open(os.path.join(HERE, 'tools', 'na.json')))

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
	for d, _, _, _ in P:
		assert len(d['title']) <= 80, d['title']
		f.write(json.dumps(d) + '\n')
	for x in NA:
		f.write(json.dumps(x['prop']) + '\n')
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -W ignore -c "import mc.env, fixif.LTI, fixif.SIF, fixif.Structures"',
         checks=[dict(property=d['id'], quick_cmd='./check.sh %s quick' % d['id'], thorough_cmd='./check.sh %s thorough' % d['id'],
                      technique=t, level=lv, level_note=n, evidence_file='evidence/%s.json' % d['id']) for d, t, n, lv in P],
         not_applicable=[dict(property=x['prop']['id'], reason=x['reason']) for x in NA],
         notes='No hooks in /repo: the checks drive the public classes of the working tree directly. Companion packages that are not installed (fixif.WCPG, fixif.FxP) are replaced by stand-ins (mc/stubs.py).')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
	json.dump(m, f, indent=1)
	f.write('\n')
print(len(P), 'properties,', len(NA), 'not applicable')
