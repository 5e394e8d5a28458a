SI = 'fixif/SIF/'
ST = 'fixif/Structures/'

prop('C10', 'An implicit form and its state space are the same system',
     'The implicit form J t = M x + N u, x+ = K t + P x + Q u, y = L t + R x + S u (J unit lower triangular, any number of intermediate variables, none included) and the state space it gives (AZ, BZ, CZ, DZ, dSS, exactly with to_dSSexact), the transfer function it gives when it has one input and one output, and its simulation from null states, all have the same input/output behaviour. The coefficients read back are those given, as floating-point values whatever the type they were given in, and the given matrices are not modified.',
     ['inputs', 'histories'], 'all sizes, coefficient values and input sequences',
     'Tests build forms with identity J and null K, L; the inverse of J and the products in order only matter for coupled intermediate variables.',
     [SI + 'SIF.py'], [('construction of AZ..DZ', SI + 'SIF.py _build_AZtoDZ'), ('exact conversion', SI + 'SIF.py to_dSSexact'), ('simulation', SI + 'SIF.py simulate')], ['matrices', 'simulated outputs'],
     'exhaustive exploration of input sequences x sizes x coefficient families on the real class, against exact rational execution of the implicit equations',
     'Bounded exhaustive over sizes (l<=3, n<=3, p,q<=2), 5 coefficient families, small coefficient alphabets and all input sequences of 4 samples. J unit lower triangular.', 'model_checking')

prop('C11', 'After any edits and queries an implicit form answers like a new one',
     'Whatever sequence of coefficient edits (J to S, Z, exactness masks) and queries was made on an implicit form, its coefficients, state space, Gramians, exact conversion, associated systems (Hu, Hzeta, Hepsilon, error form), inverse of J, sensitivities and simulation are those of a new implicit form built from its current coefficients. Setting one matrix, or the exactness mask of one matrix, changes that one only, and reads back as set.',
     ['histories'], 'all sequences of edits and queries',
     'Tests never edit a form after querying it: stale caches appear only for particular sequences.',
     [SI + 'SIF.py', SI + 'SIF_sensibility.py'], [('setters and cached systems', SI + 'SIF.py')], ['all public quantities after each sequence'],
     'exhaustive exploration of edit/query histories on one real object, every quantity compared with a fresh object and exact arithmetic',
     'Bounded exhaustive: all histories of 3 (thorough 4) operations out of 19, for 4 (7) sizes; all sequences of 2 (3) settings out of the 9 masks and the whole one for 7 sizes; sizes above 10. What the masks become when coefficients are edited is not decided.', 'model_checking',
     [('cached systems', 'Hu, Hepsilon, Hzeta, invJ, state space', SI + 'SIF.py')])

prop('C12', 'Systems associated to an implicit form describe its variables and errors',
     'Hu and Hzeta answer to the inputs by the intermediate variables, the states (next ones for Hu, current ones for Hzeta) and the outputs; Hepsilon and the error form answer by the effect on the outputs of errors added to each intermediate variable, next state and output. The degraded form has the approximated coefficients and the associated error form gives the difference between degraded and exact outputs, errors included; the peak gains of a form are those from each input to each intermediate variable, next state and output. The generated worst-case inputs stay in their bounds and no other inputs within them lead to a larger last output.',
     ['inputs', 'histories'], 'all sizes, coefficients, places of the error, input sequences',
     'Tests do not cover these systems at all; order of the blocks and sizes need coupled variables to be told apart.',
     [SI + 'SIF.py', SI + 'SIF_tilde_error.py'], [('associated systems', SI + 'SIF.py'), ('degraded and error forms', SI + 'SIF_tilde_error.py'), ('worst-case inputs', SI + 'SIF.py generate_inputs')], ['impulse responses', 'generated inputs'],
     'exhaustive propagation of an impulse / error at every place, exactly, step by step; all sign sequences tried for the worst-case inputs',
     'Bounded exhaustive over sizes (l<=3, n<=3, p,q<=2), 5 families, 6 time steps, all sign sequences of up to 6 samples. Fixed-point constants are a round-to-nearest stand-in.', 'model_checking')

prop('C13', 'Every structure with every option realizes the filter it is given',
     'Every realization built by any registered structure with any combination of its options (those proposed for the filter, with or without explicit options, by any factory) has the impulse response of the filter it is built from, a unit lower triangular J, and refers to that filter; the direct forms only have coefficients of its transfer function (and 0, 1, -1). A SISO filter is accepted at least by the direct forms and the state space (and by rho Direct Form II if stable, LGS and LCW if stable and of order 2 or more, which refuse an nbSum other than 1 or 2), a MIMO filter by the state space only. Random choices made inside never matter.',
     ['inputs', 'configurations'], 'all filters, structures, options and random choices',
     'Tests print realizations of random filters of order 5 to 10, so low orders, null poles, and option combinations are not compared.',
     [ST, SI + 'Realization.py', L + 'Filter.py'], [('factories', ST), ('registry and default options', ST + 'Structure.py')], ['implicit form of the realization'],
     'exhaustive enumeration of filters x structures x options x random answers on the real factories; exact step-by-step execution of the realization compared with the filter',
     'Bounded exhaustive over pools of filters of orders 1..4 and MIMO state spaces, all registered structures and options; Matlab-based LWDF and slycot-based balanced forms are not registered here.', 'model_checking')

prop('C14', 'rho Direct Form II realizes the filter for any free parameters',
     'For any values of gamma and any non-null Delta (given or not, in any form: list, array or matrix), transposed or not, as implicit form or equivalent state space, the rho Direct Form II realization has the impulse response of the filter and as many states as its order. The same holds with the l2 and relaxed l2 scalings, and with the l2 scaling the states of the transposed form have a unit l2 norm.',
     ['inputs', 'configurations'], 'all filters, gammas, Deltas and options',
     'Tests only use the default parameters.',
     [ST + 'rhoDFIIt/rhoDFIIt.py'], [('change of operator and special case Delta=1', ST + 'rhoDFIIt/rhoDFIIt.py')], ['implicit form of the realization'],
     'exhaustive enumeration of parameter assignments on the real factory; exact step-by-step execution compared with the filter',
     'Bounded exhaustive: orders 1..3 (4), gamma over 3-4 values, Delta over 3 values, all options.', 'model_checking')

prop('C15', 'The generated C code computes what the realization computes',
     'The generated C function compiles and, called once per sample, returns the outputs of the realization and leaves its next states in the state array, for any numbers of inputs, outputs, states and intermediate variables, any coefficients, and any number of instances used in turn; it writes nothing else. Running it from Python gives the outputs from null states, for the current coefficients of that realization, whatever realizations were run, edited or quantized before.',
     ['histories', 'inputs', 'configurations'], 'all realizations, input sequences and interleavings of runs and edits',
     'Tests run one random realization at a time, SISO, and never twice.',
     [SI + 'Realization_implementation.py', SI + 'templates/implementCdouble_template.c', 'fixif/SoP/SoP.py'], [('code generation', SI + 'Realization_implementation.py implementCdouble'), ('in-place update of the states', SI + 'Realization_implementation.py'), ('library loading', SI + 'Realization_implementation.py makeCdouble')], ['compiled function', 'runCdouble'],
     'exhaustive exploration of input sequences and of interleavings of instances on the compiled code, and of run/edit/quantize histories, against exact arithmetic',
     'Bounded exhaustive: sizes up to l<=3, n<=3, p,q<=2 in 4 families, all structures for orders 1..3, all histories of 4 operations on 6 pairs. One C compiler.', 'model_checking',
     [('state array', 'states of an instance', 'generated C'), ('_Cdouble', 'loaded library and its coefficients', SI + 'Realization_implementation.py')])

prop('C16', 'The text of the algorithm computes what the realization computes',
     'Executing the lines of the time-stamped algorithm one after the other (in any coefficient format precise enough, with or without surnames and comments) computes all the intermediate variables, next states and outputs of the realization, and never uses a value that is not computed yet. The LaTeX algorithm has the same assignments and declares its variables with their sizes, and the ones without time marks have the same too, apart from the marks (executed in place, they give the right next states); no line is cut inside a coefficient or a name.',
     ['inputs', 'histories'], 'all realizations, formats, names and input sequences',
     'The test compares five texts of one second-order filter with expected strings.',
     [SI + 'Realization_algorithms.py', 'fixif/SoP/SoP.py', 'fixif/SoP/VarName.py', SI + 'templates/algorithmLaTeX_template.tex'], [('lines and names', SI + 'Realization_algorithms.py _algorithmCore'), ('sum of products', 'fixif/SoP/SoP.py'), ('names', 'fixif/SoP/VarName.py')], ['returned text'],
     'interpreter of the generated text run on every input sequence, all variables compared with exact arithmetic after each step',
     'Bounded exhaustive over sizes (l<=3, n<=3, p,q<=2), 5 families, all structures and options for orders 1..4, all input sequences of 4 samples. Known finding: executed as it is written, the text without time of DFII uses states that were already replaced.', 'model_checking')

prop('C17', 'Quantizing gives an independent realization with correctly rounded coefficients',
     'Realization.quantize(w) returns a new realization of the same filter, sizes and names where each coefficient is the nearest fixed-point number on w bits (two\'s complement, sign included, with the smallest most significant bit that represents it), null coefficients staying null, and refuses anything else than a positive int. All it answers corresponds to its new coefficients; later edits, exactness masks, queries or quantizations of the one never change the other, in any order.',
     ['histories', 'inputs'], 'all coefficients, word-lengths and sequences of quantizations and edits',
     'No test quantizes a realization; sharing between copies only appears in particular sequences.',
     [SI + 'Realization.py'], [('rounding and copy', SI + 'Realization.py quantize')], ['coefficients and answers of both realizations'],
     'exhaustive exploration of quantize/edit/query histories over a set of realizations, and of coefficients x word-lengths against exact rational rounding',
     'Bounded exhaustive: sizes up to (2,3,2,2), 5 families, all structures for orders 1..3, 14 word-lengths; histories of 3 (4) operations over up to 3 realizations. Fixed-point constants are a round-to-nearest stand-in of the missing companion package.', 'model_checking',
     [('realizations', 'coefficients and masks of the realizations obtained from one another', SI + 'Realization.py')])

prop('C18', 'Fixed-point formats avoid overflows and meet the output error constraints',
     'computeNaiveMSB gives, for inputs within given bounds, the smallest MSB such that no variable (t, x, y) ever exceeds 2^MSB, and the threshold w_tilde the smallest word-length for which this MSB also represents the bound once rounded. optimalUniformWL gives the smallest common word-length for which the propagated rounding errors stay below every constraint; optimalWL gives for each variable the word-length that shares the constraints equally, and AMPL data holding the same quantities (p, np, E, eps, u, wtilde).',
     ['inputs', 'configurations'], 'all realizations, input bounds, constraints, inputs and rounding errors',
     'No test calls them (they could not run); powers of 2 and several outputs are the delicate cases.',
     [SI + 'Realization_FxP.py', SI + 'templates/xmpl.dat.template'], [('MSB, thresholds, word-lengths', SI + 'Realization_FxP.py'), ('AMPL data', SI + 'Realization_FxP.py generateAMPLParam')], ['returned formats', 'written .dat file'],
     'exhaustive enumeration of realizations x bounds x constraints; word-lengths tried one by one, all the sequences of extreme inputs and rounding errors executed exactly',
     'Bounded exhaustive: sizes up to (2,3,2,2), 5 families, all structures for stable filters of orders 1..3, 4 input bounds and 4 constraints per input/output. The worst-case peak gain is a stand-in; always-null variables are not considered.', 'model_checking')

FI = L + 'Filter.py'
prop('C19', 'Filters have one behaviour in both views, and generators give what is asked',
     'Whatever is asked first, the state space, transfer function (refused for MIMO filters), order, sizes and names of a Filter, however it was given, describe the same system. Whatever the random generator answers, the generators of random filters and systems give stable (when claimed), finite systems, with orders, sizes, types, frequencies and parities in the asked ranges and consistent names; the same seed (0 included) or name gives again the same filter, whatever was generated before.',
     ['histories', 'inputs', 'configurations'], 'all ways of giving a filter, query orders, seeds and answers of the random generator',
     'Tests draw 20 filters at random and only build them; rare answers (seed 0, null masks, repeated poles) do not show.',
     [FI, L + 'dSS.py', L + 'dTF.py', L + 'Butter.py', L + 'Elliptic.py', L + 'Gabarit.py'], [('lazily built views', FI), ('random generators', L + 'dSS.py random_dSS'), ('random generators', FI + ' random_Filter'), ('random generators', L + 'Butter.py random_Butter')], ['views of a filter', 'generated objects'],
     'stateless exploration of the real generators with a controlled random generator (every draw is a choice point); all query sequences and seed histories',
     'Bounded exhaustive: all the answers of the first 5-7 draws over alphabets of 2-6 answers, all sequences of 3 (4) queries, histories of 3 (4) generations.', 'model_checking',
     [('numpy.random', 'global state of the random generator', FI), ('_dSS, _dTF', 'views of the filter', FI)])

prop('C20', 'Filters designed from a specification fulfil it',
     'The transfer function given by Gabarit.to_dTF (any form, sampling frequency, scipy method; bands and pass gains in any order) stays in all the bands, reduced by the design margin, or is refused with a ValueError (multiband, different stop gains of a bandpass, different pass gains of a bandstop); the specification, its type, bands, maximum gain and drawings are not changed by designs or queries. Butterworth and elliptic filters are stable, have their attenuation exactly at their cut frequencies, and their ripples in their pass and stop bands.',
     ['histories', 'inputs', 'configurations'], 'all specifications, methods, margins and frequencies',
     'Tests need Matlab and Sollya, so no design is checked.',
     [L + 'Gabarit.py', L + 'Butter.py', L + 'Elliptic.py'], [('design', L + 'Gabarit.py to_dTF'), ('classification', L + 'Gabarit.py type'), ('bands', L + 'Gabarit.py Band')], ['designed transfer functions', 'bands', 'plots'],
     'exhaustive enumeration of specifications x methods x margins on the real designers, response compared with the bands; all histories of queries, designs and plots',
     'Bounded exhaustive over a pool of 324 specifications x 4 methods x 3 margins; frequency responses are evaluated on a grid of each band (a dense sampling of the response, not of the executions). Matlab and Sollya paths are not considered.', 'model_checking',
     [('bands', 'bands of the specification', L + 'Gabarit.py')])

SL = ST + 'Simulink/'
prop('C21', 'An imported Simulink diagram behaves like the diagram',
     'For every .slx diagram made of Gain, Sum (any signs, any number of ports), Delay (any length >= 1), Inport, Outport and (nested) SubSystem blocks, without algebraic loop nor Gain fed by a Gain, importSimulink gives a realization with one input per Inport and one output per Outport (in the order of their port numbers), one state per sample of delay, a unit lower triangular J, and the impulse responses of the diagram. This holds whatever the order of the blocks in the file, their identifiers and names, the ways a block reaches another one, the grouping in subsystems, and for gains given as numbers or by the dictionary of constants; a file that is not a .slx one is refused with a ValueError.',
     ['inputs', 'configurations'], 'all diagrams of the documented domain, all orders and groupings of their blocks',
     'The only test imports one diagram and prints it; merged Sums, shared blocks, several outputs and subsystems need many diagrams.',
     [SL + 'Simulink.py', SL + 'diagram.py', SL + 'blocks.py', SL + 'sif.py'], [('equations of the blocks', SL + 'diagram.py buildequations, summerge, expandeqgain'), ('subsystems', SL + 'diagram.py flattendesign'), ('matrices', SL + 'sif.py build, reorganize')], ['imported realizations'],
     'exhaustive enumeration of small diagrams (sources of every port, signs, gains, orders, groupings), written as files and imported; the realization and the diagram are executed exactly, step by step',
     'Bounded exhaustive: up to 3 Sums (chains of 5 to 7), 2 Delays (lengths up to 4), 2 inputs, 3 outputs; all groupings of 4 diagrams in one subsystem, most pairs (triples). Other blocks, libraries and vectors are not considered.', 'model_checking')

prop('C22', 'Sensitivities are the derivatives with respect to the coefficients',
     'For any implicit form or realization of a stable system (controllers excluded), the entry (i,j) of the matrix given by dTFsensitivity is the L2 norm of the derivative of the transfer function with respect to the coefficient Z[i,j], times its weight dZ[i,j], and the measure is the sum of their squares. When its poles are simple (and, for the moduli, not null), poleSensitivity gives for each pole the derivatives of the pole, or of its modulus, with respect to every coefficient, the norm of these over the poles, and as measure the sum of the squares of these norms times the weights.',
     ['inputs', 'configurations'], 'all forms, coefficients and weights',
     'No test checks them; intermediate variables, asymmetric sizes and complex poles are needed to tell the products apart.',
     [SI + 'SIF_sensibility.py', SI + 'SIF.py'], [('transfer function', SI + 'SIF_sensibility.py dTFsensitivity'), ('poles', SI + 'SIF_sensibility.py poleSensitivity'), ('projections', SI + 'SIF.py _build_M1M2N1N2')], ['sensitivity matrices and measures'],
     'exhaustive enumeration of forms x weights x coefficients: each coefficient is moved both ways and the impulse response (hundreds of steps) and poles of the moved form are compared',
     'Bounded exhaustive: sizes up to (2,3,2,2) (thorough (3,4,3,3)), 6 families, 6 kinds of weights, realizations of 13 (65) filters with all structures and options. Derivatives by differences, to 1e-4.', 'model_checking')

prop('C23', 'Displays and operation counts describe the coefficients exactly',
     'The exactness mask of an implicit form (when not given) is 0 exactly on its coefficients that are null or plus or minus a power of 2 (to about 1e-8), and its numbers of multiplications and additions (when no row of Z is null), isPnut (coefficients below the diagonal of P), TikZ picture (for each coefficient the marker of 1, -1, 0, power of 2 or other) and LaTeX tpmatrix (the value of each coefficient in the given format, zeros hidden if sparse) correspond to it, coefficient by coefficient. The text of a sum of products, wrapped or not, in any format and assignment sign, evaluates to the sum of its constants times its variables; the text of a transfer function gives its coefficients and powers.',
     ['inputs'], 'all coefficients at all places, all sizes and formats',
     'Tests only call them; wrong cells, counts or wraps appear for particular values, places or lengths.',
     [SI + 'SIF.py', 'fixif/SoP/SoP.py', L + 'dTF.py'], [('masks', SI + 'SIF.py isTrivial, _build_dZ'), ('counts', SI + 'SIF.py nbOp, isPnut'), ('drawings', SI + 'SIF.py getTiKZSparseMatrix, getZtpmatrixLaTeX'), ('sums of products', 'fixif/SoP/SoP.py toAlgoStr'), ('text', L + 'dTF.py __str__')], ['texts', 'counts', 'masks'],
     'exhaustive enumeration of values x places x sizes x masks on the real objects, the texts being parsed back and compared with the coefficients',
     'Bounded exhaustive: sizes up to (2,3,2,2), 28 values in every place, pairs of places for small sizes; sums of up to 4 products over 9 constants and long ones; transfer functions up to order 3.', 'model_checking')
prop('C24', 'Structures are found, proposed, built and named as declared',
     'Whatever structures are created, in any order, each is found by its short name (the last one created with it; an absent name is refused with a ValueError), and iterating over the realizations of a filter gives exactly one for each structure and combination of options that accepts this filter, in order. A realization is made with the options given and the first value of the others (by method, call or name), refers to the filter, and has a name with the structure, the options and the filter, or the given one. Its variables are displayed as t, x, u, y with their index from 1 (none if alone), or their surname and own index, with the time shifted as asked; a wrong number of surnames is refused.',
     ['histories', 'configurations'], 'all histories of structures, options, filters, names and shifts',
     'Tests only use the structures of the library with random filters, and never compare what is iterated with what was declared.',
     [ST + 'Structure.py', L + 'Filter.py', SI + 'Realization.py', 'fixif/SoP/VarName.py'], [('registry', ST + 'Structure.py'), ('iterations', L + 'Filter.py iterAllRealizations, ' + ST + 'Structure.py'), ('names', 'fixif/SoP/VarName.py')], ['realizations', 'names'],
     'exhaustive exploration of creation histories against a model of the registry, and of the subsets of options, filters, names, shifts and forms on the real code',
     'Bounded exhaustive: histories of 3 (4) creations over 3 names, 5 sets of options, 3 kinds of acceptance; 5 filters; up to 12 variables.', 'model_checking',
     [('registry of structures', 'created structures, by short name', ST + 'Structure.py')])

prop('C25', 'Multiprecision matrix objects compute, compare and stay apart as values',
     'The operators +, - and * of a MPFMatrix with another one, a multiprecision matrix or a numpy matrix or array give a new MPFMatrix with the exact result up to the roundings of the working precision, and refuse (ValueError) sizes or types that do not fit. equal is true if and only if all the entries are equal, almost_close if and only if each entry differs by at most the given bound, absolutely or relatively, and other sizes are refused. Neither operators nor comparisons modify operands or precision, and a MPFMatrix never changes when the matrices it comes from are modified.',
     ['inputs', 'configurations', 'histories'], 'all shapes, kinds, values, precisions, chains of operators',
     'Tests use one shape at one precision, and compare with the tested comparison itself.',
     [FA + 'MPFMatrix.py'], [('operators and comparisons', FA + 'MPFMatrix.py')], ['returned matrices', 'comparisons'],
     'exhaustive enumeration of shapes x kinds x precisions x values, of differences in every place, and exploration of chains of operators, against rational arithmetic',
     'Bounded exhaustive: dimensions 1..3 (4), precisions 2 to 1000 bits, 6 families and an alphabet, chains of 3 (4) operators.', 'model_checking')

prop('C26', 'Comparisons, texts and Bode diagrams agree with the systems',
     'Two state spaces are accepted as close if and only if they have the same numbers of inputs and outputs and their impulse responses are the same, on every sample, up to the tolerance, whatever their numbers of states and bases; two transfer functions if and only if their normalized coefficients are the same up to the tolerance (missing ones are zeros). The comparison is symmetric and modifies nothing, and the peak gain of a transfer function is the sum of the absolute values of its impulse response. The texts of a state space, implicit form, realization and gabarit give its current sizes, coefficients, bands and gains, and the Bode diagram shows the magnitude (dB) and phase (degrees) of H(exp(jw)) from wmin to pi.',
     ['inputs'], 'all pairs of systems, places and sizes of a difference; all systems displayed',
     'Tests use the comparison as their own oracle and only with equal systems: what it wrongly accepts makes the other tests blind.',
     [L + 'dSS.py', L + 'dTF.py', SI + 'SIF.py', L + 'Gabarit.py'], [('comparisons', L + 'dSS.py assert_close, ' + L + 'dTF.py assert_close'), ('peak gain', L + 'dTF.py WCPG'), ('diagram', L + 'dTF.py bode'), ('texts', 'LTI/dSS.py, SIF/SIF.py, LTI/Gabarit.py __str__')], ['AssertionError or not', 'curves', 'texts'],
     'exhaustive enumeration of pairs of systems, with an error of each side of the tolerance at every place, against exact impulse responses; every frequency and every number displayed is compared',
     'Bounded exhaustive: n<=4, p,q<=3 in 7 families, errors on each of 13 samples of each output and input, delays 0..14, alphabets of transfer functions; Bode diagrams of orders 1..4, 8 and 11.', 'model_checking')

prop('C27', 'Sollya is asked about exactly this filter and specification',
     'The polynomials of a transfer function (double or multiprecision) for Sollya have exactly its coefficients, in ascending powers; matrices are converted exactly, row by row, and back to the nearest doubles, and the peak gain and rounded simulation of a multiprecision state space use its exact coefficients (each state and output rounded to nearest). A gabarit is checked with these polynomials, the asked precision and one constraint per band - the frequencies 2F/Fs, not rounded, times pi; the amplitudes 10^(G/20) (0 at the bottom of a stop band), enlarged by the margin then rounded inwards to 53 bits - and the answer of this check is the one given, from any working directory; findMinimumMargin returns a margin accepted by it (unless 25 were refused), that exceeds what the worst issues need, or the initial margin, only by roundings and by a step 10^(1e-3+G/20)-10^(G/20) per refusal without measured issue. Without Sollya each of these is refused with an ImportError or a ValueError, every time.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'], 'all filters, matrices, bands, margins and precisions; all answers that the certified check may give, at each call; Sollya present or not',
     'Sollya is not installed where the tests run, and with it they only check designs that pass at once.',
     [L + 'Gabarit.py', L + 'dTF.py', L + 'dTFmp.py', L + 'dSSmp.py', FA + 'mpf_matrix_to_sollya.py', FA + 'sollya_matrix_to_numpy.py', FA + 'MPFMatrix.py'],
     [('polynomials', L + 'dTF.py, dTFmp.py to_Sollya'), ('constraints', L + 'Gabarit.py sollyaConstraint, check_dTF'), ('search of the margin', L + 'Gabarit.py findMinimumMargin, findMaxIssue'), ('matrices', FA + 'mpf_matrix_to_sollya.py')], ['what the procedures of Sollya receive', 'margin', 'exceptions'],
     'exhaustive exploration, on the real code, of the tree of the answers of a nondeterministic stand-in of Sollya (subsets and orders of the issues, refusals without issue), and enumeration of filters, matrices, bands and margins against exact arithmetic',
     'Bounded exhaustive: up to 11 orders, 3x3 (4x4) matrices, 12 (20) gains x 7 (11) margins x 4 (6) sampling frequencies, trees of answers with up to 3 (4) issues. Sollya itself is a stand-in that computes exactly: what gabarit.sol and wcpg.sol compute is not checked.', 'model_checking',
     [('search of the margin', 'margin and answers so far', L + 'Gabarit.py findMinimumMargin')])
