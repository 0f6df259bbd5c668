#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'matrix/matrix_%s.hpp'


def P(id, title, statement, qtext, why, files, mech, over=('inputs',), observe=None):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': qtext}, 'why_tests_cant': why,
            'anchors': {'files': [H % f for f in files], 'mechanism': [{'name': n, 'where': H % f} for n, f in mech],
                        'observe_at': observe or ['value returned by the public function template'], 'hook_needed': None}}


TYPES = 'every element type in {float, double, int, unsigned, short, long, unsigned char}, the shapes of the harness list (up to 33x33 and 300-long vectors) and every value of every element'
PROPS = [
 P('C01', 'Addition and subtraction act element by element',
   'Adding or subtracting two matrices of the same shape, or a matrix and a scalar in either order the library offers, yields the matrix whose element at every position is the sum or difference of the operands\' elements at that position in the element type\'s own arithmetic. The increment and decrement operators yield the matrix plus or minus one in every element. The operands are unchanged.',
   TYPES + ', IEEE special values included', 'The tests add a few literal matrices of one or two shapes; a wrong row, column, shape or special value is not reached.',
   ['sum', 'sub'], [('sum / operator+ / operator++', 'sum'), ('sub / operator- / operator--', 'sub')]),
 P('C02', 'Scaling and division by a scalar act element by element; zero is rejected',
   'Multiplying a matrix by a scalar from either side, or dividing it by a non-zero scalar, multiplies or divides every element in the element type\'s own arithmetic. Dividing by a scalar equal to zero raises std::overflow_error that the caller can catch, for every element type and shape, and no other scalar raises it.',
   TYPES + '; every scalar', 'The tests never divide by zero through a catchable exception and scale a handful of literals.',
   ['mult', 'div'], [('scalar mult / operator*', 'mult'), ('div / operator/', 'div')]),
 P('C03', 'The matrix product is the mathematical product',
   'The product of an n x m and an m x p matrix has at position (i,j) the sum over k of A(i,k)*B(k,j), for every conforming shape including vectors and non-square matrices: exactly for integers (modulo the type\'s range) and in exact arithmetic for floating point. The Strassen product of 2x2 matrices gives the same matrix.',
   '31 conforming shapes from 1x1x1 to 17x17x17 (33x33x33 with three symbolic rows and columns), 300-long vectors; float and double in exact arithmetic, int, unsigned, long and short modulo their range', 'The tests multiply a few small literal matrices.',
   ['mult', 'strassen', 'zeros'], [('mult / operator*', 'mult'), ('strassen', 'strassen')]),
 P('C04', 'Transposition mirrors every element',
   'The transpose of an n x m matrix is m x n and holds at (j,i) exactly the element of the argument at (i,j), bit for bit, for every shape. Transposing twice gives the original matrix.',
   'every shape of the list up to 33x33 and 300-long vectors, six element types, every bit pattern', 'The tests transpose a handful of literal matrices.', ['trans'], [('trans', 'trans')]),
 P('C05', 'Concatenation keeps both blocks intact and in order',
   'Vertical concatenation places the first matrix above the second and horizontal concatenation places it left of the second, every element exactly once and unchanged, for square operands (both results at once, or each separately) and for rectangular operands that share one dimension.',
   'square sizes 1..7, 12, 20 and 33, rectangular operands with 1..20 rows or columns and 300-long vectors, six element types, every bit pattern', 'The tests use a few literal matrices; the paired result was wrong on the original tree and the tests passed.',
   ['concatenate'], [('concatenate, concatenateV, concatenateH', 'concatenate')]),
 P('C06', 'Constructors produce exactly the requested shape and values',
   'The constant, zero, one and identity constructors return a matrix of exactly the requested number of rows and columns in which every element has the requested value: the given value or zero or one everywhere, respectively the given diagonal value (one by default) on the diagonal and zero elsewhere.',
   'seven element types, shapes up to 33x33 and 300-long vectors, every fill value', 'The tests look at few shapes; the rectangular constructor of ones did not honour its dimensions on the original tree.',
   ['fill', 'zeros', 'ones', 'eye'], [('fill', 'fill'), ('zeros', 'zeros'), ('ones', 'ones'), ('eye', 'eye')]),
 P('C07', 'Row/column exchange and minors move exactly the right elements',
   'Exchanging two rows (columns) of a matrix exchanges exactly those rows (columns), leaves every other element untouched, and is the identity when both indices are equal. The minor for a row and a column index is the matrix with exactly that row and that column removed and the order of the others kept.',
   'shapes up to 8x8, 3x18 and 2x300 with every pair of valid indices (symbolic), 20x20, 33x33 and 300x2 with indices near the ends, minors up to 10x10, every bit pattern', 'The tests use fixed indices on literal matrices.',
   ['swap', 'inv'], [('swap_rows, swap_cols', 'swap'), ('getminor', 'inv')]),
 P('C08', 'The determinant equals the mathematical determinant',
   'In exact arithmetic, the determinant returned for a square matrix is the signed sum over permutations, for every matrix including singular ones, matrices with zero pivots, with dependent rows, and matrices that need several row exchanges; integer matrices up to 3x3 give the exact integer modulo the type\'s range.',
   'float/double: every real matrix up to 4x4, 5x5..20x20 in families with symbolic entries; int/unsigned: every 1x1..3x3 matrix and, up to 5x5, families in which elimination divides exactly',
   'A value depends on the pivoting path taken, of which the tests see a handful.', ['det', 'swap'], [('det overloads and elimination', 'det'), ('swap_rows', 'swap')]),
 P('C09', 'The inverse is the inverse, and singular matrices are rejected',
   'In exact arithmetic, for every square matrix with non-zero determinant the result times the matrix is the identity, and for every matrix with zero determinant std::overflow_error is raised instead of a result. This holds for every size, including 1x1.',
   'float/double: every real matrix up to 4x4; every real 5x5 and 6x6 with the determinant replaced by its specification; families up to 9x9', 'The tests invert a few literal regular matrices.',
   ['inv', 'det', 'trans', 'div'], [('inv overloads', 'inv'), ('getminor', 'inv'), ('det', 'det')]),
 P('C10', 'LU decomposition: unit lower times upper gives the matrix',
   'In exact arithmetic, the first factor is unit lower triangular, the second upper triangular, and their product is the argument. std::overflow_error is raised exactly for the matrices that have a leading principal minor (of any order, the full determinant included) equal to zero.',
   'float/double: every real matrix up to 5x5 (thorough 6x6), families up to 17x17', 'The tests decompose a few literal matrices and multiply back.', ['lu', 'eye', 'zeros'], [('lu', 'lu')]),
 P('C11', 'Cholesky factor: lower triangular, positive diagonal, A = L*L^T',
   'In exact arithmetic, for every symmetric positive definite matrix the result is lower triangular with positive diagonal, zero above it, and its product with its own transpose is the argument.',
   'float/double: every symmetric positive definite matrix up to 8x8 and 10x10, families up to 17x17 (thorough 14x14)', 'The tests factor two literal matrices.', ['cholesky'], [('chol', 'cholesky')]),
 P('C12', 'Matrix power equals repeated multiplication, negative powers invert',
   'In exact arithmetic, raising a square matrix to a non-negative integer power equals multiplying that many copies (power zero gives the identity, also for singular matrices); a negative power gives the inverse of the corresponding positive power. This holds for every integer type of the exponent, signed or unsigned, for every exponent whose negation is representable (so not the most negative value of a signed type).',
   'exponents -6..8 for every 2x2 matrix, -3..5 for 3x3, wider for structured families up to 17x17, and exponents around the limits of 8, 16, 31 and 32 bits; exponent types int, long, short, unsigned, unsigned char, size_t',
   'The tests use four literal matrix/exponent pairs.', ['pow', 'inv', 'mult', 'eye'], [('pow', 'pow')]),
 P('C13', 'Two-dimensional convolution with zero padding',
   'The full convolution of an image with a 3x3 kernel is the matrix two rows and columns larger whose element (r,c) is the sum over all kernel positions of kernel element (u,v) times image element (r-u,c-v), elements outside the image counting as zero. The default form returns its central part of the image\'s size and the valid form the part computed without padding, for square and non-square images.',
   '32 image shapes from 1x1 to 24x24 and 300-long vectors, every image and kernel in exact arithmetic; int, unsigned, long and short modulo their range', 'The tests use kernels that are symmetric under rotation and few shapes; border handling for other shapes is not reached.',
   ['conv2'], [('conv2, conv2_full, conv2_valid', 'conv2')]),
 P('C14', 'Mean, variance and standard deviation have their population definitions',
   'In exact arithmetic the mean is the sum of all elements divided by their number, the variance the mean squared deviation from the mean (divided by the number of elements), never negative, and the standard deviation its non-negative square root. For integer elements, negative ones included, the mean is the exact sum divided by the count and truncated toward zero whenever the sum is representable.',
   'shapes up to 33x33 (mean) and 6x6 (variance; 33x33 and 300 elements with a few symbolic); every element value', 'The tests use a few positive literal matrices; integer matrices with negative sums were wrong on the original tree.',
   ['mean', 'var', 'stddev'], [('mean', 'mean'), ('var', 'var'), ('stddev', 'stddev')]),
 P('C15', 'The median is the middle of the sorted elements',
   'For an odd number of elements the median is the element with as many elements not above it as not below it; for an even number it is the two middle elements added and divided by two in the element type\'s arithmetic. It depends only on the multiset of elements, duplicates counted, not on their arrangement or the shape (NaN excluded).',
   'every assignment for up to 5 elements (6 or 7 in the thorough tier), 6 to 300 elements with up to 4 symbolic ones; seven element types', 'The tests take the median of three literal matrices; the order type space is far larger.',
   ['median'], [('median (sort and selection)', 'median')]),
 P('C16', 'Histogram counts every value exactly, cumulative histogram accumulates them',
   'The histogram maps each distinct element value to the number of its occurrences and contains no other key, so the counts add up to the number of elements. The cumulative histogram has the same keys and maps each to the number of elements not greater than it (NaN excluded).',
   'every assignment for up to 4 elements (5 thorough), up to 20 elements with 2 symbolic ones, 42 and 272 with one; seven element types', 'The tests check two literal matrices.', ['histogram'], [('histogram, cumulative_histogram', 'histogram')]),
 P('C17', 'Predicates decide exactly their relation',
   'Comparison with a tolerance (non-negative) is true exactly when every pair of corresponding elements is equal or differs by at most the tolerance, so a NaN element makes it false; the identity test is true exactly for the matrix with ones on the diagonal and zeros elsewhere, for every element type; the symmetry test is true exactly when every element equals its mirror element.',
   'every bit pattern including NaN and infinities; compare up to 6 free elements and larger shapes with the differing position symbolic; identity and symmetry up to 9x9 with every element symbolic and 17x17 with the changed position symbolic',
   'A predicate is wrong if a single position or special value is mishandled; the tests give a few literals.', ['utils', 'cholesky', 'eye'], [('compare, isIdentity', 'utils'), ('isSymetric', 'cholesky')]),
 P('C18', 'Absolute value is taken element by element without loss',
   'The absolute value of a matrix has the same shape and holds the absolute value of each element in the element type, with fractional part and full range preserved (the most negative integer excepted).',
   'float, double (every bit pattern), int, long, short, signed char; shapes up to 33x33', 'No existing test covers it for doubles, wide integers or other shapes.', ['abs'], [('abs', 'abs')]),
 P('C19', 'Every call stays in bounds, reads only initialised data, and terminates',
   'No operation, for any values of its arguments (special floating-point values included) and valid indices, reads or writes outside its operands and results, uses an uninitialised value, modifies an argument passed for reading only, or fails to terminate; every element of a returned matrix has been assigned.',
   'all harnesses of C01..C18 on every path; det, inv, lu, chol, stddev and compare also with every IEEE bit pattern up to 4x4', 'The tests run without index checking on a few literals; an out-of-bounds index on a rare pivot path or shape goes unnoticed.',
   ['det', 'inv', 'conv2', 'swap', 'median', 'lu', 'cholesky', 'concatenate'], [('all loops and index computations', 'det'), ('isOutOfRange border guard', 'conv2')]),
 P('C20', 'No dynamic memory allocation',
   'No operation that returns normally, other than the histograms (which return a map) and printing, allocates dynamic memory, for any shape, element type and argument values.',
   'all harnesses of C01..C15, C17, C18 on every returning path, shapes up to 33x33', 'The tests never observe allocation.', ['median', 'type', 'det', 'inv'], [('Matrix is a nested std::array', 'type'), ('median uses a fixed array', 'median')],
   observe=['calls of operator new and malloc during the call']),
 P('C21', 'Results depend on the arguments only: no hidden state between calls',
   'Calling an operation again with the same arguments gives the same result whatever calls were made in between, and no call leaves anything derived from its arguments in storage that outlives it. Hence calls on distinct objects from different threads cannot influence one another.',
   'histories f(X), f(Y), f(X) for every operation; all writes to static or global storage on every path', 'The tests call each function once per process state and never concurrently.',
   ['det', 'inv', 'pow', 'mult', 'conv2', 'median'], [('function templates without static state', 'det')], over=('histories', 'schedules', 'inputs')),
 P('C22', 'Printing writes every element, row by row',
   'Printing a matrix writes to standard output each row on one line, in order, every element in the stream\'s default format for its type followed by one space, and each row ended by a newline; nothing else is written and no formatting state of the stream is changed.',
   'seven numeric element types, every bit pattern, shapes up to 33x33 and 300-long vectors', 'No existing test looks at the output.', ['print'], [('print, print_num, print_endl', 'print')], observe=['characters written to std::cout']),
 P('C23', 'The operations satisfy the algebraic identities that connect them',
   'In exact arithmetic the operations agree with one another: products associate and distribute, (AB)^T = B^T A^T, det(AB) = det(A)det(B), det(A^T) = det(A), exchanging two rows negates the determinant, (A^-1)^-1 = A, (A^T)^-1 = (A^-1)^T, powers add, LU and Cholesky factors multiply back and are consistent with the determinant, convolution is linear and its variants agree, mean and variance transform under shift and scale as they should. The same holds when both operands are the same object or the result is assigned back to an operand.',
   'every matrix of the listed sizes (n <= 3 in full, families up to n = 12, element-wise laws up to 17x17)', 'Identities relate two computations over all inputs; the tests compare single outputs with literals.',
   ['mult', 'trans', 'det', 'inv', 'pow', 'lu', 'cholesky', 'conv2', 'mean', 'var', 'concatenate', 'swap'], [('all operations', 'mult')]),
]

TECH = 'symbolic execution of clang LLVM IR of the real headers; z3 discharges every path obligation; counterexamples replayed natively'
NOTE = {
 'fp': 'Bit-precise (IEEE-754 / bit-vector) for every value within the listed types and shapes; trusts clang\'s IR generation, engine/symex.py and z3; path witnesses are re-run natively on g++ builds.',
 'real': 'For every real-valued input within the listed sizes and families, in exact arithmetic (rounding outside the claim, narrowing conversions are modelled as unknown rounding and caught); trusts clang\'s IR generation, engine/symex.py, the polynomial normal form in engine/rat.py (cross-checked by z3) and z3; path witnesses are re-run natively.',
}
REALS = {'C03', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C23'}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': 'bash run.sh %s quick' % p['id'], 'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': 'model_checking',
                     'level_note': NOTE['real' if p['id'] in REALS else 'fp'] + ' Bounded: ' + p['quantifier']['text'] + '.'} for p in PROPS],
         'not_applicable': [], 'notes': 'No hooks in /repo. See DESIGN.md; known and fixed findings in known_findings.json.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
