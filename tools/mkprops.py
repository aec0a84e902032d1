#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the text is reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)

T = 'emlearn/eml_trees.h'
prop('C01', 'Evaluating a decision tree follows its comparisons to exactly one leaf',
 'For every well-formed loadable tree model and every feature vector, evaluating a tree terminates and yields the leaf reached by taking the left branch exactly when the feature value is strictly below the node threshold and the right branch otherwise. The evaluation reads only nodes of the model and elements of the feature vector, and writes nothing.',
 ['inputs', 'configurations'], 'all node tables (any size and shape whose forward offsets and leaf references are in range, up to the 16-bit limits), all roots, all int16 feature vectors',
 'Tests run a handful of trained forests on a few data points: deep offsets, threshold equality, extreme feature values and 32768-leaf tables are never sampled.',
 [T], [('tree walk', T+':eml_trees_predict_tree')], [('node table', 'relative offsets for decision nodes, negative numbers for leaves', T+':EmlTreesNode')])
prop('C02', 'Forest prediction aggregates the leaves of all trees as documented',
 'For every well-formed loadable forest and input: class probabilities are the mean over all trees of the class vote (hard voting) or of the stored class proportion divided by 255 (soft voting), the predicted class is the lowest-numbered class with the largest such mean, and a regression is the mean of the leaf values. Wrong feature, class or output lengths and unsupported leaf formats give the documented error code (a NaN for the single-value regression) instead of a result, and nothing outside the output buffer is written.',
 ['inputs', 'configurations'], 'all forests (any number of trees, leaves, classes up to the limit, both voting formats and regression), all inputs and output lengths',
 'Tests compare a few trained forests with scikit-learn on a few rows; ties between classes, many trees, extreme class counts and wrong lengths are not explored.',
 [T], [('vote and proportion accumulation', T+':eml_trees_predict_proba'), ('class selection', T+':eml_trees_predict'), ('regression mean', T+':eml_trees_regress')])
PT = 'emlearn/trees.py'
prop('C03', 'Converted tree tables decide exactly like the trained trees',
 'For every trained tree ensemble, the converted forest (decision nodes, roots, leaves after merging of duplicates) sends every feature vector, in every tree, to a leaf holding exactly the content the trained tree assigns to it: the majority class, the regression value, or the quantized class proportions. Merging duplicate leaves never changes the content reached, and every node and leaf reference in the result is valid.',
 ['inputs', 'programs'], 'all tree shapes (including single-leaf trees), all numbers of trees, all feature vectors, all leaf modes and leaf bit widths',
 'Tests train forests on small datasets and compare accuracy or predictions on the training rows; unusual shapes, duplicated leaves across trees and rarely visited branches go unseen.',
 [PT], [('flattening of one tree', PT+':flatten_tree'), ('concatenation of trees', PT+':flatten_forest'), ('merging of leaves', PT+':remove_duplicate_leaves')])
prop('C04', 'Generated tree C code computes the same function as the converted forest',
 'For every converted forest and every feature vector of the chosen feature type, the generated C code (inline if/else code as well as the loadable tables together with the C library) returns the class, class probabilities or regression value which the trained forest gives for that feature vector, including feature values equal to a threshold. For integer feature types this holds for every integer feature value that fits the type, for thresholds with or without fractional part.',
 ['inputs', 'programs'], 'all feature vectors (symbolic) for each of a bounded set of forests: both inference methods, int16/int32/float features, hard/soft voting, regression',
 'Tests compare predictions on sampled data rows; values exactly at or next to a threshold are rarely in the data, and they exercise only a few forests.',
 [PT, 'emlearn/cgen.py'], [('inline code', PT+':generate_c_inlined'), ('node table', PT+':generate_c_nodes'), ('leaf table', PT+':leaves_to_bytelist'), ('literals', 'emlearn/cgen.py:constant')])
prop('C05', 'Tree conversion either fits the C table types or refuses',
 'Every node table that conversion emits has only child references that fit the 16-bit fields, with references to decision nodes strictly forward, so that decoding them as the C code does gives back the intended node or leaf; a forest that cannot be represented so is refused with an error rather than emitted. Decoding an encoded reference is the inverse of encoding it.',
 ['inputs'], 'all node indices and child references (unbounded integers)',
 'Tests only use forests with a few hundred nodes; the limits of the 16-bit range and malformed orderings are never reached.',
 [PT], [('child encoding', PT+':encode_child'), ('range check', PT+':assert_valid_child')])
prop('C06', 'Quantized leaf proportions stay close to the trained class proportions',
 'For every vector of class proportions in [0,1] and every leaf bit width from 3 to 8, each quantized byte is in 0..255, differs from 255 times the proportion by less than half a quantization level (255/(2^bits-2)) plus one, is monotone in the proportion, maps 0 to 0 and 1 to 255, and takes at most 2^bits distinct values.',
 ['inputs'], 'all real proportions in [0,1], all supported bit widths',
 'Tests check a final accuracy or a loose tolerance on predicted probabilities of one dataset.',
 [PT], [('quantization', PT+':quantize_probabilities_into_byte')])

N = 'emlearn/eml_net.h'
prop('C07', 'A dense layer computes activation(x W + b) for every output',
 'For every layer size, weight matrix, bias, supported activation and input, each output of a layer equals the activation applied to the bias plus the weighted sum of all inputs; softmax outputs are exp(z_i) divided by the sum of exp(z_j), are computed without positive exponents (so they cannot overflow), and sum to one. Unsupported activation codes and missing or too small buffers give the documented error code, and only the output elements of the layer are written.',
 ['inputs', 'configurations'], 'all layer dimensions, weights, biases, activations and finite inputs',
 'Tests compare predictions of a few trained networks on training data; single layers, odd dimensions and error paths are not exercised.',
 [N], [('matrix product and activation', N+':eml_net_forward'), ('softmax', N+':eml_net_softmax'), ('size checks', N+':eml_net_layer_forward')])
prop('C08', 'Network inference chains all layers and reports class, probabilities, values',
 'For every valid network, inference applies all layers in order, each to the complete output of the previous one; regression returns the outputs of the last layer, prediction the index of its first largest output (or, for a single output, whether it exceeds one half), and class probabilities are those outputs (for a single output p, the pair 1-p, p). Inconsistent buffer, feature or output lengths, missing pointers or too few layers give the documented error, and nothing outside the activation buffers and the output is written.',
 ['inputs', 'configurations'], 'all layer counts and sizes, weights, inputs and buffer lengths',
 'Tests use a few networks with one or two hidden layers and positive outputs only, and never the error paths.',
 [N], [('layer chaining', N+':eml_net_infer'), ('class selection', N+':eml_net_predict, eml_net_argmax'), ('probabilities', N+':eml_net_predict_proba'), ('regression', N+':eml_net_regress')])

K = 'emlearn/eml_neighbors.h'
prop('C09', 'Nearest-neighbour distances are exact integer Euclidean distances',
 'For every pair of int16 feature vectors, the distance is the integer square root (rounded down) of the sum of squared differences, with no overflow; for every non-negative argument below 2^62 the integer square root r satisfies r*r <= x < (r+1)*(r+1) and its computation terminates.',
 ['inputs'], 'all int16 vectors of all lengths up to 65535, all arguments from 0 to 2^62-1',
 'Tests only use small values; the overflow and termination behaviour for large differences depends on inputs no test has.',
 [K], [('distance', K+':eml_distance_euclidean_int16'), ('square root', K+':eml_isqrt')])
prop('C10', 'Nearest-neighbour prediction is a majority vote of k nearest stored items',
 'For every model and query, prediction computes the distance to every stored item and returns the smallest class label with the most votes among k items none of which is farther than any item left out, with labels kept attached to their items while sorting. Too short work buffers, wrong feature counts, k larger than the number of items and labels outside the supported range give an error, and only the work buffer and the result are written.',
 ['inputs', 'histories'], 'all stored data sets, queries and k (the quicksort path for 16 items and more is bounded)',
 'Tests compare accuracy on one or two datasets; ties, error paths, k equal to the number of items and adversarial orders are not covered.',
 [K, 'emlearn/eml_qsort.h'], [('distances', K+':eml_neighbors_infer'), ('sorting', K+':eml_neighbors_sort_distances'), ('voting', K+':eml_neighbors_find_nearest'), ('prediction', K+':eml_neighbors_predict')])
prop('C11', 'Adding a training item stores it and changes nothing else',
 'Adding an item to a nearest-neighbour model with free capacity appends exactly its feature values and label after the existing items, keeps every earlier item and all model parameters, and increases the item count by one; when the model is full or the feature count is wrong an error is returned and nothing changes. A model whose buffers pass the capacity check can therefore never be written outside its buffers by adding items.',
 ['inputs', 'histories'], 'all models, all sequences of additions',
 'No test in the stable suite adds items on the C side at all.',
 [K], [('append', K+':eml_neighbors_add_item'), ('capacity check', K+':eml_neighbors_check')])

A = 'emlearn/eml_array.h'
prop('C12', 'Array container operations touch exactly the addressed elements',
 'An array set up over a buffer of sufficient size gives for each in-range (column,row) a distinct element inside the buffer and no element for out-of-range coordinates; filling sets every element, the sum is the sum of all elements, copying rows and shifting rows move whole rows to the documented places and leave all other rows unchanged. Wrong dimensions, too small buffers, row counts that do not fit and unsupported shapes give the documented error without any write outside the array.',
 ['inputs', 'histories'], 'all dimensions, element sizes, shifts, start rows and contents',
 'The C unit tests for arrays are not part of the Python test run, and cover one small array.',
 [A], [('set-up', A+':eml_array_init_full'), ('addressing', A+':eml_array_data_2d'), ('rows', A+':eml_array_shift_rows, eml_array_copy_rows'), ('elementwise', A+':eml_array_fill, eml_array_sum')])
Q = 'emlearn/eml_quantizer.h'
prop('C13', 'The C quantizer scales, saturates and counts clipped values exactly',
 'Quantizing float values yields for each element the product with the scale truncated towards zero when it lies within -32767..32767 and the nearest limit otherwise, and the reported underflow and overflow counts are exactly the numbers of elements below and above the limits. The inverse yields each integer divided by the scale, mismatching lengths give an error, and only the outputs are written.',
 ['inputs'], 'all finite inputs, scales and lengths',
 'The C test for the quantizer is not part of the Python test run and checks a few values.',
 [Q], [('forward', Q+':eml_quantizer_check_forward_int16, eml_quantizer_forward_int16'), ('inverse', Q+':eml_quantizer_inverse_int16')])
I = 'emlearn/eml_iir.h'
prop('C14', 'IIR filtering realises the transfer function of every stage in order',
 'Each filter step computes y = b0 x + s1 and updates the two state values as the transposed direct form II of (b, a) does, a cascade feeds each stage with the output of the previous one using that stage\'s own coefficients and state, and no other state changes. The consistency check accepts a filter exactly when it has at least one stage, non-null arrays and 4 state and 6 coefficient values per stage.',
 ['inputs', 'histories'], 'all stage counts, coefficients, states and samples, hence all input histories',
 'Tests compare a few designed filters on one noise signal with a tolerance; single stage counts dominate.',
 [I], [('one stage', I+':eml_biquad_tdf2'), ('cascade', I+':eml_iir_filter'), ('check', I+':eml_iir_check')])
F = 'emlearn/eml_fft.h'
prop('C15', 'The FFT computes the discrete Fourier transform for power-of-two lengths',
 'For every power-of-two length with matching tables the in-place transform returns the discrete Fourier transform of any complex input, and for any other length or mismatching tables it returns a size error and leaves the data unchanged. Only the real and imaginary buffers are written.',
 ['inputs', 'configurations'], 'all inputs for lengths 1..1024 (bounded), all lengths for the error contract',
 'Tests compare one or two lengths with numpy on one signal.',
 [F], [('transform', F+':eml_fft_forward'), ('tables', F+':eml_fft_fill'), ('permutation', F+':reverse_bits')])
M = 'emlearn/eml_mixture.h'
prop('C16', 'Gaussian mixture scores equal the mixture log-density formulas',
 'For every full-covariance mixture model and input, each component score is -(d log 2pi + squared norm of (x - mean) times the precision Cholesky factor)/2 plus the log-determinant plus the log-weight, the overall score is the logarithm of the sum of the exponentials of the component scores, and component probabilities are exp(component score - overall score). Unsupported covariance types, missing pointers and empty models give an error.',
 ['inputs', 'configurations'], 'all component and feature counts, parameters and finite inputs',
 'Tests compare a few small fitted models with scikit-learn with tolerance.',
 [M], [('component scores', M+':eml_mixture_predict_log_proba'), ('log-sum-exp', M+':eml_logsumexp, eml_minmax'), ('probabilities', M+':eml_mixture_predict_proba')])
D = 'emlearn/eml_distance.h'
prop('C17', 'Outlier detection uses the squared Mahalanobis distance and its boundary',
 'For every model and input the reported distance is (x-m)^T P (x-m) for the given precision matrix, and the outlier flag is set exactly when the negated distance is below the decision boundary; a feature-count mismatch gives an error and no output, and a missing output location is allowed.',
 ['inputs', 'configurations'], 'all dimensions, means, precision matrices, boundaries and inputs',
 'Tests compare a fitted envelope on one dataset, using only the distance.',
 [D], [('distance', D+':eml_mahalanobis_distance_squared'), ('decision', D+':eml_elliptic_envelope_predict')])
B = 'emlearn/eml_bayes.h'
prop('C18', 'Naive Bayes predicts the class with the largest fixed-point log-likelihood',
 'For every model and input whose fixed-point intermediate values fit 32 bits, prediction returns the first class whose sum over all features of the fixed-point log-density (quadratic in the rounded quotient of deviation and standard deviation, minus the stored log of the standard deviation) is largest, computed without overflow. Fixed-point division returns the quotient rounded to the nearest representable value, and more classes than supported are refused rather than written past the internal buffer.',
 ['inputs', 'configurations'], 'all class and feature counts, model parameters and inputs within the fixed-point range',
 'Tests compare accuracy with scikit-learn on one synthetic dataset.',
 [B, 'emlearn/eml_fixedpoint.h'], [('class scores', B+':eml_bayes_predict, eml_bayes_logpdf'), ('division', 'emlearn/eml_fixedpoint.h:eml_q16_div')])
C = 'emlearn/eml_csv.h'
prop('C19', 'CSV reading and writing keep columns, rows and buffers intact',
 'Reading a row splits the text at each delimiter up to the end of line into consecutive null-terminated columns pointing into the caller\'s buffer, and moves on to exactly the character after the line end; a row with more columns than expected or supported, or fewer than expected, is reported as an error. Writing emits every value in order with exactly one delimiter between values and one line end, a value too long for the format buffer is an error, and neither operation accesses memory outside the given buffers.',
 ['inputs', 'histories'], 'all buffer contents, lengths, column limits and values',
 'The C test for CSV is not part of the Python test run and reads one well-formed file.',
 [C], [('splitting', C+':eml_csv_reader_read_internal'), ('row bookkeeping', C+':eml_csv_reader_read_header, eml_csv_reader_read_data'), ('writing', C+':eml_csv_writer_write_header, eml_csv_writer_write_data')])
U = 'emlearn/eml_audio.h'
prop('C20', 'Sparse filterbanks reproduce the dense filterbank',
 'Applying a sparse filterbank gives for each filter the sum over its range of input times coefficient, with coefficients consumed consecutively; for every dense filterbank matrix without all-zero rows, converting it to the sparse form and applying it (in C or in Python) equals multiplying by the dense matrix, also when a row has zeros between its nonzero coefficients.',
 ['inputs', 'configurations'], 'all filter counts, ranges, coefficients and inputs',
 'Tests use one triangular mel filterbank and one input.',
 [U, 'emlearn/signal.py'], [('C application', U+':eml_sparse_filterbank'), ('conversion', 'emlearn/signal.py:sparse_filterbank'), ('Python application', 'emlearn/signal.py:sparse_filterbank_reduce')])
V = 'emlearn/eml_vector.h'
prop('C21', 'Audio spectrum and vector helpers stay in bounds and compute their formulas',
 'The power spectrum is |x|^2/n_fft for each bin, the Mel reduction reads and writes only inside the given spectra, window application multiplies each sample by its own weight, vector assignment copies the whole source to the requested place, mean and fill are exact, and views alias the requested range. Mismatching or too small vectors give an error (with nothing written), never an access outside a vector.',
 ['inputs', 'configurations'], 'all vector lengths, contents, offsets and Mel parameters',
 'Tests use a single frame size and parameter set.',
 [U, V], [('power spectrum', U+':eml_audio_power_spectrogram'), ('Mel reduction', U+':eml_audio_melspec'), ('vectors', V+':eml_vector_set, eml_vector_set_value, eml_vector_view, eml_signal_mean, eml_signal_hann_apply')])
G = 'emlearn/cgen.py'
prop('C22', 'Model names are accepted exactly when they are usable C identifiers',
 'A model name is accepted exactly when it consists of letters, digits and underscores, does not start with a digit, and is not a reserved C word; anything else, including the empty string and names with trailing newlines or other whitespace, is refused with an error before any code is generated.',
 ['inputs'], 'all strings (unbounded length, full Unicode)',
 'Tests try a handful of names.',
 [G, 'emlearn/creserved.py'], [('check', G+':assert_valid_identifier, identifier_is_valid, identifier_is_reserved')])
prop('C23', 'Numbers written into generated C code read back as the same numbers',
 'A finite float value emitted as a float literal is a valid C floating constant that reads back as that value to within single-precision rounding relative to its magnitude (small magnitudes are not flushed to zero); integer values are emitted exactly; and array declarations contain each value once, in order, with the declared size equal to the number of values.',
 ['inputs'], 'all finite float values and all integers, all array lengths',
 'Tests print one or two constants such as 3.14.',
 [G], [('literals', G+':constant, constant_declare'), ('arrays', G+':array_declare')])
X = 'emlearn/fixedpoint.py'
prop('C24', 'Fixed-point and quantizer conversions invert within one step',
 'Converting a representable float to fixed point truncates towards zero to a multiple of the resolution and converting back differs by less than one resolution step; the scikit-learn style quantizer maps values to scaled, clipped, truncated integers inside the target type (integer types up to 32 bits), and its inverse returns every in-range value to within one quantization step.',
 ['inputs', 'configurations'], 'all representable values, all formats, all scales',
 'Tests check a few values and one dataset.',
 [X, 'emlearn/preprocessing/quantizer.py'], [('fixed point', X+':from_float, to_float'), ('quantizer', 'emlearn/preprocessing/quantizer.py:Quantizer.transform, inverse_transform, fit')])
prop('C25', 'Generated model data carry every parameter to its place in the C model',
 'For networks, mixtures, Bayes, nearest-neighbour and outlier models, the generated C code contains every parameter of the trained model at exactly the position where the C inference reads it (layer order, row-major weights, component and feature order, sizes and counts), so that the compiled model evaluates the formula of the trained model.',
 ['programs', 'configurations'], 'bounded set of model shapes, with pairwise distinct parameters, all positions',
 'Tests check predictions of fitted models, where many parameters are redundant or nearly symmetric.',
 ['emlearn/net.py', 'emlearn/mixture.py', 'emlearn/bayes.py', 'emlearn/neighbors.py', 'emlearn/distance.py'],
 [('network', 'emlearn/net.py:c_generate_net_loadable, c_generate_net_inline'), ('mixture', 'emlearn/mixture.py:generate_code, convert_to_full'), ('bayes', 'emlearn/bayes.py:generate_c'), ('neighbours', 'emlearn/neighbors.py:c_generate_neighbors'), ('outliers', 'emlearn/distance.py:generate_code')])
L = 'emlearn/eml_benchmark.h'
prop('C26', 'The benchmark generator is the Park-Miller sequence and fills every value',
 'From every valid state the pseudo-random generator moves to 48271 times the state modulo 2^31-1 without overflow, stays in the valid range, and filling a buffer writes exactly the requested number of values from the sequence started at one.',
 ['inputs', 'histories'], 'all states 1..2^31-2 and all lengths',
 'No test checks the generated values.',
 [L], [('generator', L+':eml_lcg_parkmiller'), ('fill', L+':eml_benchmark_fill')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False)+'\n')
print(len(P))
