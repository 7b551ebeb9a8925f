#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=True, reason=None, state=(), observe=(), note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim,
                  reason=reason, state=state, observe=observe, note=note))


F = 'src/features.rs'
prop('C01', 'All views of a feature vector agree',
     'Feature length, dense conversion (borrowing, consuming, into an array, into a Vec), indexing, get and unchecked get all report the same real vector for '
     'the same features, dense or sparse, however the dense array is laid out in memory. An index that is not active reads as zero, out-of-range get yields nothing. '
     'Removing an index zeroes exactly that entry, and the number of active features is the number of non-zero entries.',
     ['inputs'], 'every activation value, every subset of active indices, both representations, every memory layout of the dense array',
     'unit tests index two fixed vectors whose sparse activations are all 1.0',
     [F], [('views of Features', F)], observe=['Features::{n_features,n_active,get,uget,to_dense,into_dense,remove}', 'Index', 'From'])
prop('C02', 'Dot products, sums and additions are the textbook ones',
     'The dot product with weights or with other features equals the sum of products of the entries, matmul gives the dot product with every column, sum and fold '
     'aggregate all entries. Adding features (optionally scaled by any factor) to a weight array adds exactly that multiple of each entry and leaves other weights '
     'alone. The results do not depend on whether the features are dense or sparse nor on the memory layout of weights.',
     ['inputs'], 'all activations, weights and factors; all active subsets; contiguous, strided and reversed arrays',
     'tests use a handful of weights and unit activations', [F], [('Features::dot, matmul, sum, addto, scaled_addto', F)])
prop('C03', 'Stacking features concatenates them',
     'The stack of two feature vectors stands for the concatenation of the two vectors: its length is the sum of the lengths and every entry keeps its value and its order. '
     'It is sparse exactly when both operands are sparse, and stacking is associative.',
     ['inputs'], 'all vectors, all four combinations of representation, every memory layout, empty operands',
     'one doc test and three fixed stacks', [F], [('Features::stack', F)])
prop('C04', 'Mapping applies the function to every entry',
     'map, map_into and map_inplace yield the vector whose entries are the function of the original entries, including the entries a sparse vector leaves '
     'implicit, for every function whose value at zero is zero or at least 1e-3 in size. The three variants agree, map leaves its operand untouched, dense stays dense, and sparse stays sparse exactly when zero maps to zero.',
     ['inputs'], 'all vectors, both representations, affine functions with arbitrary coefficients, squares, cubes, absolute value, exponential',
     'tests map one unit vector', [F], [('Features::map, map_into, map_inplace', F)])
prop('C05', 'Merging combines two vectors entry by entry',
     'merge, merge_into and merge_inplace yield the vector whose entries are the operation applied to the two entries at the same index, for every operation with '
     'op(0,0)=0 and every combination of dense and sparse operands; where a sparse operand meets another length the shorter one counts as padded with zeros. '
     'The three variants agree in value and representation, and merge leaves both operands untouched.',
     ['inputs'], 'all vectors, all combinations of representations and layouts, products, differences and bilinear-affine operations with arbitrary coefficients',
     'one test merges one pair with addition', [F], [('Features::merge, merge_into, merge_inplace', F)])
prop('C06', 'User functions that panic cannot corrupt features or memory',
     'Whatever the function given to map, merge or fold does, including panicking at any call, no memory is misused: features that survive the panic can still be '
     'read, converted, changed and dropped, their indices lie within their length, and operands that were only borrowed keep their values. '
     'The same holds for operands of mismatched length.',
     ['inputs', 'fault_sequences'], 'every call at which the function panics, every pair of representations, all activations',
     'no test panics inside a closure', [F], [('replacement of the value while the closure runs', F)])
B = 'src/basis/'
prop('C08', 'Projections have the declared dimension and only in-range indices',
     'Every basis and every combinator (stack, bias, normalisers) projects every input onto a feature vector whose length is the dimension it declares, '
     'and every active index lies below that dimension. Approximators built on a basis allocate one weight row per declared feature.',
     ['inputs', 'configurations'], 'all inputs in the basis domain, all configurations within the bounds (order, dimension, partitions, tilings, centroids)',
     'tests check the dimension of four small configurations',
     [B + f for f in ('mod.rs', 'polynomial/mod.rs', 'fourier.rs', 'kernelised.rs', 'tile_coding.rs', 'uniform_grid.rs', 'stack.rs', 'normalisation.rs', 'constant.rs')] + ['src/lib.rs'],
     [('Space::dim of each basis', B)])
prop('C09', 'Enumerating one feature agrees with projecting all of them',
     'For every basis and combinator that supports it, asking for the i-th feature of an input gives the i-th entry of the projection of that input, active or not, '
     'and any index at or beyond the dimension gives an index error, never a panic or a value.',
     ['inputs', 'configurations'], 'all inputs, every index (in range, at the boundary, arbitrarily large), all configurations within the bounds',
     'no test calls ith',
     [B + f for f in ('mod.rs', 'polynomial/mod.rs', 'fourier.rs', 'kernelised.rs', 'tile_coding.rs', 'uniform_grid.rs', 'stack.rs', 'normalisation.rs', 'constant.rs')],
     [('EnumerableBasis::ith of each basis', B)])
prop('C10', 'The polynomial basis consists of every monomial up to the order exactly once',
     'A polynomial basis of order k over d inputs has one feature for each of the (k+1)^d-1 non-constant exponent tuples with entries at most k, in lexicographic order, and the '
     'feature is the product of the inputs raised to those exponents. Adding the zeroth term appends a constant 1.',
     ['inputs', 'configurations'], 'all real inputs; order and dimension within the bounds', 'doc tests evaluate one-dimensional orders 1 and 2',
     [B + 'polynomial/mod.rs', B + 'mod.rs'], [('compute_coefficients', B + 'mod.rs'), ('compute_feature', B + 'polynomial/mod.rs')])
prop('C11', 'The Chebyshev basis evaluates Chebyshev polynomials of the rescaled input',
     'Each feature of a Chebyshev basis is the product over the inputs of first-kind Chebyshev polynomials T_n (orders up to 11, defined by T_(n+1)=2x T_n - T_(n-1)) of the input rescaled '
     'linearly from its limits to [-1,1], one feature per non-constant order tuple in lexicographic order; the zeroth term appends a constant 1. Orders above 11 are refused.',
     ['inputs', 'configurations'], 'all real inputs and all limits with lower < upper; order up to 11, up to 3 inputs', 'the Chebyshev basis has no test',
     [B + 'polynomial/mod.rs', B + 'polynomial/cpfk.rs'], [('t_0..t_11', B + 'polynomial/cpfk.rs'), ('rescale!', B + 'mod.rs')])
prop('C12', 'The Fourier basis consists of the cosines of every coefficient vector',
     'A Fourier basis of order k over d inputs has one feature cos(pi * c.s) for each non-zero coefficient vector c with entries in 0..k, exactly once and in lexicographic order, '
     'where s is the input rescaled linearly from its limits to [0,1].',
     ['inputs', 'configurations'], 'all real inputs and limits; order and dimension within the bounds', 'tests evaluate unit intervals at a few points',
     [B + 'fourier.rs', B + 'mod.rs'], [('compute_feature', B + 'fourier.rs')])
prop('C14', 'A uniform grid activates exactly the cell that contains the input',
     'Projecting onto a uniform grid activates exactly one feature with activation 1: the row-major index of the cell of the equal-width partition that contains the input. '
     'Inputs outside the limits are clipped to the nearest cell, and no double, including infinities and NaN, yields an out-of-range index or a panic.',
     ['inputs', 'configurations'], 'every IEEE double; real inputs with arbitrary limits; partition counts and dimensions within the bounds',
     'tests project bin corners of a 10-cell grid over [0,10]', [B + 'uniform_grid.rs'], [('UniformGrid::hash', B + 'uniform_grid.rs')])
prop('C15', 'Tile coding maps inputs to features tile by tile',
     'With n tilings, tiling t cuts dimension i into unit-wide half-open tiles displaced by (t+2it)/n. Two inputs in the same tile of a tiling always '
     'activate the same feature for that tiling, regardless of the other tilings; with an injective hasher two inputs in different tiles of it activate different ones. '
     'This includes negative inputs and tiles around zero.',
     ['inputs', 'configurations'], 'all pairs of real inputs within the bounds, number of tilings and dimensions within the bounds, spy hashers',
     'tests only call the quantisation of the input', [B + 'tile_coding.rs'], [('bin_state, hash_state', B + 'tile_coding.rs')])
prop('C16', 'Tile coding stays within its memory for any input and hasher',
     'For every hasher and every input, including infinities, NaN and huge values, tile coding activates between one and n_tilings features, all below the memory size, all with activation 1, '
     'without panicking. The same input always gives the same features.',
     ['inputs', 'configurations'], 'every IEEE double, every value a hasher may return, tilings and memory sizes within the bounds',
     'no test projects with TileCoding', [B + 'tile_coding.rs'], [('hash_state', B + 'tile_coding.rs')])
K = B + 'kernels/'
prop('C17', 'Kernels compute their published formulas',
     'With r the Euclidean distance after dividing each dimension by its positive lengthscale (one lengthscale is shared by all dimensions), the kernels return variance times: exp(-r) for Exponential, '
     '(1+sqrt3 r)exp(-sqrt3 r) for Matern32, (1+sqrt5 r+5/3 r^2)exp(-sqrt5 r) for Matern52, exp(-r^2/2) for ExpQuad, cos r for Cosine and (1+r^2/2)^(-power) for RationalQuadratic. '
     'They are symmetric, equal the variance at zero distance, and give the same value for scalar, slice and vector arguments.',
     ['inputs', 'configurations'], 'all real points, variances and positive lengthscales; up to 3 dimensions (4 thorough)', 'tests evaluate ExpQuad at three points',
     [K + 'stationary.rs', K + 'rational_quadratic.rs'], [('stationary_kernel!', K + 'stationary.rs')])
prop('C18', 'A kernel basis evaluates the kernel at every prototype',
     'The i-th feature of a kernel basis is the i-th prototype\'s kernel between the input and its centroid. The constructors from a partitioned space place one prototype at the centre of every cell '
     'in row-major order, with unit variance and the cell widths as lengthscales, and the homogeneous constructor gives every centroid the same kernel.',
     ['inputs', 'configurations'], 'all inputs, centroids, lengthscales; prototypes, dimensions and partitions within the bounds', 'tests check two fixed networks',
     [B + 'kernelised.rs'], [('KernelBasis', B + 'kernelised.rs')])
prop('C19', 'Normalisers scale to unit norm and keep the direction',
     'Normalising a basis divides every feature by the norm of the vector: the number of active features (L0), the sum of absolute values (L1), the Euclidean norm (L2), the largest absolute value '
     '(Linf). For every non-zero projection (whose entries are zero or above 1e-6 in size, for L0) the result has unit norm, the same sparsity, the same dimension and the same direction and sign in every entry.',
     ['inputs'], 'all non-zero activation vectors within the bounds, dense and sparse', 'two quickcheck tests compare one side of an inequality',
     [B + 'normalisation.rs'], [('L0Normaliser..LinfNormaliser', B + 'normalisation.rs')])
prop('C20', 'Stacked, constant and closure bases deliver exactly what they are built from',
     'Stacking bases concatenates the projections of the same input in order, with_bias appends a constant 1, Bias and Fixed return their constants for any input, and a closure basis returns what the closure returns. '
     'An error of either stacked basis is the result of the stack.',
     ['inputs', 'configurations'], 'all inputs and constants, dense and sparse members, nesting up to three', 'tests stack two constant bases',
     [B + 'stack.rs', B + 'constant.rs', B + 'closure.rs', B + 'mod.rs'], [('Stack::project', B + 'stack.rs')])
O = 'src/optim/'
prop('C21', 'SGD and implicit SGD take the prescribed step',
     'A step of SGD with rate lr adds lr * error * features to the weights, and a step of implicit SGD with rate lr >= 0 adds lr / (1 + lr * |features|^2) times error * features. Weights of inactive features stay as they are.',
     ['inputs'], 'all weights, features, errors and rates within the bounds; dense and sparse; strided weights', 'no optimiser has a test', [O + 'sgd.rs', O + 'isgd.rs'], [('SGD, ISGD', O)])
prop('C22', 'Momentum and Nesterov follow their recurrences over any history',
     'Over every sequence of steps momentum keeps v <- m v + error * features and adds lr v to the weights; Nesterov keeps the same v and adds lr (m v + error * features). Inactive features keep coasting on their velocity.',
     ['inputs', 'histories'], 'all sequences of up to 3 steps (4 thorough) with arbitrary features, errors, rates', 'no optimiser has a test', [O + 'momentum.rs', O + 'nesterov.rs'], [('SGDMomentum, NAG', O)])
prop('C23', 'Adagrad follows its recurrence over any history',
     'Over every sequence of steps Adagrad accumulates the square of each gradient entry g = error * feature and adds lr g / (sqrt(accumulated) + 1e-7) to the weight.',
     ['inputs', 'histories'], 'all sequences of up to 3 steps with arbitrary features, errors, rates', 'no optimiser has a test', [O + 'adagrad.rs'], [('Adagrad', O + 'adagrad.rs')])
prop('C24', 'Adam and AdaMax follow the published recurrences over any history',
     'Over every sequence of steps Adam and AdaMax keep the moment estimates of the published algorithm (Kingma and Ba), with the bias correction 1 - beta^t at step t starting from t = 1, and add '
     'lr m^/(sqrt(v^) + 1e-7) and lr m^/(u + 1e-7) to every weight, active or not.',
     ['inputs', 'histories'], 'all sequences of up to 3 steps with arbitrary features, errors, rates and betas in [0,1)', 'no optimiser has a test', [O + 'adam.rs', O + 'adamax.rs'], [('Adam, AdaMax', O)])
prop('C25', 'Resetting an optimiser makes it as good as new',
     'After any history, a reset optimiser takes exactly the steps a freshly constructed one with the same parameters would take, for every optimiser, and compares equal to it; reset does not touch the weights.',
     ['inputs', 'histories'], 'all histories of up to 2 steps before and 2 after the reset', 'no optimiser has a test', [O + f for f in ('sgd.rs', 'isgd.rs', 'momentum.rs', 'nesterov.rs', 'adagrad.rs', 'adam.rs', 'adamax.rs')], [('Optimiser::reset', O)])
prop('C26', 'Optimisers do not care how features are represented',
     'For every optimiser and every history of steps, sparse features and the dense vector they stand for lead to the same weights, including histories that mix both.',
     ['inputs', 'histories'], 'all sequences of up to 2 steps (3 thorough), each dense or sparse', 'no optimiser has a test', [O + f for f in ('sgd.rs', 'isgd.rs', 'momentum.rs', 'nesterov.rs', 'adagrad.rs', 'adam.rs', 'adamax.rs')], [('match on the representation in each step_scaled', O)])
L = 'src/lib.rs'
prop('C27', 'A scalar approximator predicts with, and trains, its weights',
     'Evaluating a scalar approximator gives the inner product of the projection and the weights; it starts with zero weights. Updating takes one optimiser step on the weights with the projected features and the given error, and updating '
     'with a closure takes the same step with the error the closure computes from the features and the current prediction.',
     ['inputs', 'histories'], 'all inputs, weights, errors; several bases and optimisers', 'lib.rs has one doc example that is not run', [L], [('ScalarLFA', L)])
prop('C28', 'All ways to evaluate a vector approximator agree',
     'evaluate, iter, try_iter and evaluate_index of a vector approximator all give, for each output, the inner product of the projection with that output\'s weight column, in column order and for as many outputs as there are columns; '
     'it starts with zero weights of shape features by outputs and the iterator reports its remaining length.',
     ['inputs', 'configurations'], 'all inputs and weights, row- and column-major weights, number of outputs and features within the bounds', 'no test uses VectorLFA', [L], [('VectorLFA, OutputIter', L)])
prop('C29', 'Updating one output of a vector approximator does not disturb the others',
     'Updating a vector approximator that has a memoryless optimiser with a list of errors takes, for each output, the optimiser step with that output\'s error on that output\'s column, as an independent scalar approximator would; outputs without an error, and all outputs but '
     'one when updating a single index (with any optimiser), stay unchanged. Updating with a closure takes the same step with the errors the closure computes from the features and the current predictions.',
     ['inputs', 'histories'], 'all inputs, weights, errors; number of outputs within the bounds; memoryless optimisers (stateful ones are a known finding)', 'no test uses VectorLFA', [L], [('VectorLFA::update, update_index, update_with', L)])
prop('C30', 'A failing basis leaves the approximator untouched',
     'When the projection fails, evaluate, update, update_with and the per-output and iterating variants return that error, call no user closure, and leave weights and optimiser exactly as they were.',
     ['inputs', 'fault_sequences'], 'every position of the failure in a sequence of two or three operations, all weights and errors', 'no test has a failing basis', [L, B + 'stack.rs'], [('and_then chains', L)])
prop('C31', 'Serialising and deserialising gives back an equal value',
     'Every basis, kernel, feature vector, optimiser (with its state) and approximator comes back from a round trip through a serde format equal to the original, and behaves the same from then on. A description with a missing or duplicate field is refused.',
     ['inputs', 'histories'], 'all parameters, optimiser states after up to 2 steps; self-describing map and sequence formats', 'no test serialises anything',
     [B + 'polynomial/mod.rs', F, L, 'src/optim', B], [('serde derives', 'src'), ('Deserialize for Chebyshev', B + 'polynomial/mod.rs')])
prop('C32', 'Bases built from a space use its bounds',
     'Building a Fourier or Chebyshev basis from a product of intervals equals building it from the list of their bounds in order, and a grid built from partitions has one feature per cell. An unbounded interval is refused.',
     ['inputs', 'configurations'], 'all bounds, up to 3 dimensions, every pattern of missing bounds', 'no test calls from_space', [B + 'fourier.rs', B + 'polynomial/mod.rs', B + 'mod.rs', B + 'uniform_grid.rs'], [('from_space, get_bounds', B)])
prop('C33', 'A plain step is a scaled step of one and a zero error moves nothing',
     'For every optimiser and history, step equals step_scaled with factor 1. On a fresh optimiser an error of zero, or all-zero features, leaves every weight unchanged.',
     ['inputs', 'histories'], 'all optimisers, features, weights, histories of up to 2 steps', 'no optimiser has a test', [O + 'mod.rs'], [('Optimiser::step', O + 'mod.rs')])
prop('C34', 'Equality, cloning and conversions of features follow the vector they stand for',
     'Two feature vectors of the same representation are equal exactly when their lengths and (active) entries are; equality is reflexive and symmetric, and a clone is equal and independent. Conversions from vectors, arrays, iterators, index lists and sparse activations stand for what they were made from.',
     ['inputs'], 'all vectors within the bounds, pairs of equal and unequal ones', 'tests compare a few constants', [F], [('PartialEq, Clone, From for Features', F)])
prop('C36', 'User code that panics or fails in an update leaves the model whole',
     'When the basis or the error function given to update_with panics, weights and optimiser of the approximator are exactly as before and later updates behave as if nothing had happened. '
     'When an iterator of errors panics half way, or an optimiser fails, each output has taken its whole step or none, and the first error of the optimiser is returned. An output index that does not exist changes nothing.',
     ['inputs', 'fault_sequences'], 'every position of the panic or failure in a sequence of operations, every subset of failing outputs, all weights, features and errors', 'no test makes user code panic or an optimiser fail',
     [L, O + 'mod.rs'], [('update, update_with, update_index', L)])
prop('C37', 'Training moves predictions by the promised amount, towards the target',
     'One update with SGD of rate a and error e moves the prediction at any input by a * e * <features there, features of the update>; an implicit step with a >= 0 closes the fraction a z / (1 + a z) of the error, z the squared norm, '
     'and so never passes the target. Repeated updates shrink the error by the factor 1 - a z each time. The first step of every optimiser with a positive rate never moves the prediction away from the target.',
     ['inputs', 'histories'], 'all features, weights, rates, errors and targets within the bounds; the crate\'s own bases', 'no test trains an approximator',
     [L, O + 'sgd.rs', O + 'isgd.rs', O + 'momentum.rs', O + 'nesterov.rs', O + 'adagrad.rs', O + 'adam.rs', O + 'adamax.rs', F], [('update and evaluate together', L)])
prop('C38', 'Clones of models, optimisers and bases are equal and independent',
     'A clone of an approximator, basis or optimiser equals the original after any history: it has the same weights and state, projects every input alike and takes the same steps. Training or resetting the one leaves the other unchanged.',
     ['inputs', 'histories'], 'all histories of up to 2 steps, all optimisers, the crate\'s bases within small bounds', 'no test clones anything',
     [L, O, B], [('derive(Clone)', 'src')])
prop('C39', 'Results depend on nothing but the arguments and the visible state',
     'Projections, single features, kernel values, predictions and operations on features give the same result for the same arguments however often they are repeated and whatever else the program computed in between, and instances of an optimiser or an approximator never influence one another.',
     ['inputs', 'histories'], 'all inputs and parameters, with up to 40 other calls on this and other instances in between', 'tests call each thing once, in a fresh process',
     [F, L, O, B], [('project', B), ('kernel', B + 'kernels/'), ('step_scaled', O), ('evaluate', L)])
prop('C40', 'Asking for a feature that does not exist is an error that names it',
     'EnumerableBasis::ith of every basis and combinator gives the feature for every index below the dimension and otherwise an index error whose message has exactly the index asked for and the dimension of the basis asked (of the whole stack, not of a part). Two index errors are equal exactly when both numbers are, and so are their messages.',
     ['inputs'], 'all inputs and parameters, every 64-bit index for being accepted or not, selected indices for the message', 'one test asks for one index out of range',
     ['src/error.rs', B], [('index_error', 'src/error.rs'), ('check_index', 'src/error.rs')])
prop('C35', 'Incremental feature dependency discovery',
     'The incremental feature discovery basis adds conjunctions of features whose relevance exceeds the threshold.',
     ['inputs', 'histories'], 'all histories', 'the module is not compiled', [B + 'ifdd.rs'], [('ifdd', B + 'ifdd.rs')], claim=False,
     reason='src/basis/ifdd.rs is not part of the crate: no mod declaration compiles it, and it uses modules that no longer exist, so there is no real code to execute symbolically.')

BUILT = [l.strip() for l in open(os.path.join(HERE, 'tools', 'claimed.txt')) if l.strip()]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=list(p['observe']), hook_needed=None))) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[],
             notes='Symbolic execution of the LLVM IR rustc produces from /repo, by the engine in engine/; see DESIGN.md. /repo carries no hooks, only fix: commits.')
    for p in P:
        assert len(p['title']) <= 80, p['id']
        if p['claim'] and p['id'] in BUILT:
            m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt engine/check.py %s --tier quick' % p['id'],
                                    thorough_cmd='python3-vt engine/check.py %s --tier thorough' % p['id'],
                                    technique='symbolic execution of the compiled code (LLVM IR) with z3, counterexamples replayed natively',
                                    level='model_checking', level_note='Holds for every value of the symbolic inputs within the bounds in engine/bounds.json'
                                    ' (real arithmetic in place of rounded doubles unless the harness is bit-precise); trusts rustc\'s lowering to LLVM IR, the engine in engine/ and z3.' + (' ' + p['note'] if p['note'] else '')))
        else:
            m['not_applicable'].append(dict(property=p['id'], reason=p['reason'] or 'check not built yet'))
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
