#!/usr/bin/env python3
"""writes engine/bounds.json: what each check explores (quick / thorough where they differ) and what it leaves out"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WIDE = 'wide vectors of 5, 7, 8, 9, 12, 16, 17, 24, 31, 33, 64, 65, 100 and 130 (thorough: also 257) entries with all, alternate, first, last or no entries active'
VAST = 'sparse vectors of 2^20, 2^33 and 2^44+3 features'
REAL = 'values are exact reals; rounding is outside, except where a harness named _fp_ says otherwise'
FP = 'the _fp_ harnesses range over every IEEE-754 double bit-precisely (NaN, infinities, zeros of both signs, subnormals)'
STEPS = 'each quick bound on optimiser steps is doubled to quadrupled in the thorough tier'
B = {}


def b(p, bounds, outside, **k):
    B[p] = dict(bounds=bounds, outside=outside, **k)


b('C01', 'dense and sparse vectors of 0..3 (thorough 0..4) entries with every active subset, contiguous, strided and reversed arrays, every 64-bit index; up to 70 entries in every layout; %s; %s' % (WIDE, FP),
  'other lengths between the listed ones; sparse maps holding indices at or beyond their dimension')
b('C02', 'vectors of 0..3 (0..4) entries, every active subset of both operands, weight vectors contiguous, strided, reversed or a matrix column, matrices up to 2x3 (3x3); %s; matrices up to 65x2, 2x65 and 16x16; matrices of five layouts; %s; products and sums of one pair of any doubles' % (WIDE, VAST),
  'rounding of sums of two or more products; operands of different length')
b('C03', 'operands of 0..2 (0..3) entries in all representations and layouts, triples for associativity; 9+1 .. 130+3 entries; three activations among up to 1100 (4100); %s; chains of 12 (20) stacks; %s' % (VAST, FP), 'lengths whose sum overflows 64 bits')
b('C04', 'vectors of 0..3 entries; any function at all (a fresh unknown for every new argument) on up to 3 (4) entries, affine functions with any coefficients, squares, cubes, |x|, exp, constants; %s; %s; %s' % (WIDE, VAST, FP), 'functions with 0 < |f(0)| <= 1e-3: the code deliberately treats |f(0)| < 1e-5 as zero; functions with state')
b('C05', 'operands of 0..2 (0..3) entries in all representations, sparse operands also of different dimension, up to 9 beside 70 (300); %s; %s; any operation at all with op(0,0)=0 on up to 2 (3) entries, bilinear-affine operations with any coefficients; %s' % (WIDE, VAST, FP), 'operations with op(0,0) != 0 on two sparse operands; dense operands of different length (C06 covers that they cause no memory error)')
b('C06', 'operands of 0..2 entries; the user function panics at its 1st, 2nd, .. last call or never, for every symbolic activation; wide operands of 5, 9, 17, 33 entries with the panic at five positions; every memory access of the IR is bounds-, liveness- and initialisation-checked', 'panics inside the allocator; a second panic while unwinding')
b('C08', 'polynomials, Chebyshev, Fourier up to 3 dimensions and order 3 (4), and order 0; kernels with 0..3 centroids; grids up to 2x2 (3x3) cells; tilings 1..2; all combinators over these; larger: order 33, 6 dimensions, 300 centroids, 400 cells, 300 tilings; combinator towers; 5..65 outputs',
  'UniformGrid with fewer inputs than dimensions (it panics); zero tilings or zero memory; indices of Fixed::sparse at or beyond its size')
b('C09', 'the bases of C08, inputs also from iterators of unknown length, with every in-range index, dim, dim+1 and an arbitrary 64-bit index beyond; larger configurations at selected indices; wide constants (1030) and normalised vectors (17)', 'as C08; normalising the zero vector (0/0)')
b('C10', 'one dimension up to order 6 (10) and 9, 12, 16, 17, 31, 33, 64, 128, 255; two dimensions up to order 3 (4) and 5, 8, 9, 16; three up to 2 (3) and 3, 4, 5; four to eight dimensions at low order; any real inputs, also from iterators of unknown length', REAL)
b('C11', 'orders 1..11 for one dimension with any limits (orders above 4 (6): fixed limits), two dimensions to order 6 (11), up to six dimensions at order 1; orders 12.. are refused; order 0; inputs from iterators of unknown length; limits given backwards', REAL + '; the crate itself supports orders up to 11 only')
b('C12', 'orders 1..6 (12), 9, 16, 17, 33, 64, 128, 200, 255 in one dimension, up to 17 in two, up to seven dimensions at order 1; any limits, also backwards, for the small ones, fixed limits for the large; order 0; inputs from iterators of unknown length; cos is uninterpreted with the axioms cos(0)=1, evenness', REAL)
b('C14', '1..5 (8) cells in one dimension, 1..3 (4) in two, 2 in three with any limits and any real input; fp: 1..4 (6) cells of [0,8], 3 of [-1.5,2.5], 2x2; larger grids: up to 400 cells per side and six dimensions; 2^20, 300x300, 3x2^16x5, 2^62 and 2^56 cells at points, 90000 to 10^12 cells over symbolic inputs; inputs from iterators of unknown length', 'grids whose cell count overflows 64 bits')
b('C15', '1..3 (4) tilings over [-2,1] in one dimension and [-0.5,0.5] in two, each point symbolic; third to seventeenth dimension one at a time; inputs around +-1e6, 2^31, 2^32, 2^48; up to 260 tilings; inputs from iterators of unknown length; the hasher records what is written; any function as hasher, collisions included, with 2 (3) tilings and a memory of 2..4', 'points exactly on a tile edge in doubles (C16 covers them for safety)')
b('C16', 'an arbitrary hash function (every value symbolic) with 1..3 (4) tilings and memory 1..5; any 64-bit memory size with one tiling; 27 memory sizes up to 2^64-1 with 13 hashes each at the edges; fp: any double in one and two dimensions, up to 300 tilings', 'zero tilings or zero memory')
b('C17', 'every kernel in 1..3 (4) dimensions, any inputs, length scales, variance; 5..33 dimensions; isotropic and default constructors; exp, cos and ln_1p are uninterpreted functions with sound axioms', REAL)
b('C18', '0..3 (4) prototypes in 1..3 dimensions with any centroids; partitions up to 3x3 (4x4); up to 300 prototypes, nine dimensions, 300 cells', REAL)
b('C19', 'vectors of 1..3 (4) entries, every active subset, entries either 0 or at least 1e-6 for L0 (the code counts entries above 1e-7), any non-zero vector for the others; polynomial features; 5..65 entries with one unknown large entry; 9..65 (300) entries, all zero but one or two', REAL + '; the zero vector')
b('C20', 'stacks of vectors of 0..2 entries, nested three deep, constants, biases, closures of 0..3 entries, closures that return another length than declared or fail with an error of any kind, errors from either side; towers of depth 6; 9..65 entries; fixed vectors of 300', REAL)
b('C21', '0..3 (4) features, every active subset, any rate, error, weights; weights and features in every layout; features that are one but for one of 2..20; wide vectors; 40 (150) and 15 (40) steps', REAL)
b('C22', '0..2 features x 3 (4) steps, 3 (4) x 2, with any momentum, rate, history; 7 (12) steps with any momentum; 40 (120) steps with fixed momentum; 9..65 features; weights and features in every layout', REAL)
b('C23', '0..2 features x 2 steps, 1 x 3 (4), 3 (4) x 1 with any history; 30 (100) steps; 9..65 features; weights and features in every layout; sqrt is axiomatised', REAL)
b('C24', 'Adam and AdaMax: 0..2 features x 2 steps, 1 x 3 (4), 3 x 1 with any rates in [0,1); 6 (10) steps with any rates; 25 (60) steps with four pairs of fixed rates; 9..65 features; weights and features in every layout', REAL + '; decay rates outside [0,1)')
b('C25', 'any history of 0..2 steps, then up to two steps; 12 (30) steps; 9..65 features; repeated resets; parameters at the edge of their range; fp: any doubles, NaN included, in the history', 'histories longer than the bound')
b('C26', 'every optimiser, 0..3 features x 2..3 steps; 8..65 features; 12 (40) steps', REAL)
b('C27', '0..3 (4) features, two updates with each optimiser; evaluation over five kinds of basis; 9..65 features; 15 (50) updates; fresh ones of up to 2049 (4200) features; any optimiser at all over two updates', REAL)
b('C28', '0..3 features x 0..3 outputs; up to 300 features or outputs, 16x16; weights of five layouts; skipping iterators; fresh ones of up to 2049 features', REAL)
b('C29', '1..2 (3) features x 0..3 outputs, error vectors shorter, equal or longer; every output index; up to 300 features or outputs; 12 (40) updates; weights of five layouts; errors from iterators of unknown length; any optimiser at all; fp: any doubles as errors', REAL + '; stateful optimisers shared by several outputs are a recorded finding')
b('C30', 'every point of a history of 1..3 operations at which the basis fails; all constructors of errors; 20 (60) alternations for SGD and 9 (15) for the others; 9..65 features with 2..17 outputs; approximators without features or outputs', 'an optimiser that fails (none of the crate can)')
b('C31', 'every serialisable type with symbolic contents of 0..3 entries, optimisers after 0..2 steps of any history; a self-describing binary format in the harness; wide, vast and long ones; tile coding with any 64-bit parameters; mangled documents; fp: any doubles survive bit for bit', 'other serde formats (text formats round)')
b('C32', '1..3 dimensions with any bounds, order 0..3; up to nine dimensions and order 40; every combination of missing bounds', REAL)
b('C33', 'every optimiser, 0..2 features after 0..2 steps of any history; 9..65 features; 12 (30) steps; weights in every layout; 20 (50) zero errors; implicit steps with rates from -1/4', REAL)
b('C34', 'pairs of vectors of 0..3 entries; wide pairs that differ at one of five positions; vast sparse ones; every conversion; %s' % FP, 'equality of a dense with a sparse vector, which the crate declares unimplemented')
b('C36', 'up to 2 (3) operations, each of which may be cut short, with 0..2 features; up to 3 outputs, any subset of which fails; 12 (30) operations; up to 65 features and 9 outputs', 'panics inside the optimisers of the crate (none of them calls user code)')
b('C37', '1..2 (3) features, any rate, momentum, error, weights; wide vectors; 20 (40) updates of tabular features with fixed rates; two inputs per update', REAL)
b('C38', '0..2 features after 0..1 steps of any history; 5..33 features with a fixed history; the bases of C08 in small configurations', REAL)
b('C39', '1..2 inputs or features, orders to 2; 12 (thorough: 40) other projections, 10 other kernel calls, predictions and updates, 2 (3) steps of every optimiser with 7 to 9 steps of another in between; known answers after 40 (300) failed projections, after other constructions and after operations on features of other sizes, after bases of the same size and another shape, and after longer and shorter features', REAL)
b('C40', 'the bases of C08 and their larger configurations; messages for indices up to 2^64-1; bases of order 0; every 64-bit index for up to 5 features', REAL)
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C34'):
    B[p]['bounds'] += '; vectors of 257, 513, 1025 and 2100 (thorough: also 4200) entries, every hundredth of them symbolic'
for p in ('C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27'):
    B[p]['bounds'] += '; histories of 300 (600) steps most of which have a zero gradient'
json.dump(B, open(os.path.join(HERE, 'engine', 'bounds.json'), 'w'), indent=1)
