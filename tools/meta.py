"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'include/etr_bits/'
P = []


def p(id, title, st, over, q, why, files, mech, observe, state=None, level='proof', note='', na=None, claimed=True):
    P.append(dict(id=id, title=title, statement=st, over=over, q=q, why=why, files=files, mech=mech, observe=observe, state=state, level=level, note=note, na=na, claimed=claimed))


V = [B + 'Vector/AssignmentOperator.hpp']
p('C01', 'Element-wise arithmetic recycles operands exactly like R',
  'For all non-empty operands, assigning a + b, a - b, a * b, a / b or a ^ b (vector with vector, vector with scalar, scalar with vector, and nestings of these, over double and integer vectors) yields a vector whose length is the longest operand length and whose element i is the scalar operation applied to element (i mod length) of each operand, integer division being carried out in double. The operands are unchanged and the operation does not throw.',
  ['inputs'], 'all operand lengths, element values, element types and prior states of the target',
  'The tests evaluate a handful of expressions over vectors of fixed short length; the statement is about every pair of lengths, including ones that do not divide each other, and every prior target capacity.',
  [B + 'BinaryCalculations.hpp', B + 'Core/Traits.hpp'] + V + [B + 'Core/BaseStore.hpp'],
  [('BinaryOperation element access and size', B + 'BinaryCalculations.hpp'), ('assignment of an expression to a vector', B + 'Vector/AssignmentOperator.hpp'), ('scalar operations', B + 'Core/Traits.hpp')],
  ['assigned vector', 'operands'])
p('C02', 'Comparisons give the element-wise truth value with recycling',
  'For all non-empty operands, assigning a == b, a != b, a < b, a <= b, a > b or a >= b gives a logical vector of the longest operand length whose element i is the comparison of the recycled elements: exact IEEE order for the four inequalities, |x - y| below 1e-3 for equality and above 1e-3 for inequality. Operands are unchanged.',
  ['inputs'], 'all operand lengths and all element values including NaN, infinities and values on either side of the tolerance',
  'The tests compare two or three short vectors with well separated values; NaN, the tolerance boundary and unequal lengths are not reached.',
  [B + 'BinaryCalculations.hpp', B + 'Core/Traits.hpp'] + V, [('comparison traits', B + 'Core/Traits.hpp'), ('BinaryOperation', B + 'BinaryCalculations.hpp')], ['assigned logical vector'])
p('C03', 'Unary mathematical functions apply element by element',
  'For every non-empty double vector, assigning the negation or any of sinus, asinus, sinush, cosinus, acosinus, cosinush, tangens, atangens, tangensh, exp, ln and sqroot of it (or of an expression) gives a vector of the same length whose element i is exactly that function of element i, and keeps the dimensions of a matrix operand. The operand is unchanged.',
  ['inputs'], 'all lengths, values, shapes and target states', 'The unary tests use one fixed vector per function and never look at matrices.',
  [B + 'UnaryCalculations.hpp', B + 'Core/Traits.hpp'] + V, [('UnaryOperation element access, size and shape', B + 'UnaryCalculations.hpp')], ['assigned vector', 'dimensions'])
p('C04', 'Assignment evaluates its right side before it changes the target',
  'An assignment whose right side mentions the target itself (a = a + b, a = a[idx], a = -a, a[idx] = a[idy], a = a) stores the values the right side had before the assignment, for every length, index and growth or shrinkage of the target. After an assignment the two vectors share no storage: later changes of one never show in the other.',
  ['inputs', 'histories'], 'all lengths, element values and target capacities; every aliasing of target and operands of the listed forms',
  'Aliased assignment is tested for at most one length that neither grows nor reallocates the target.',
  V + [B + 'Core/BaseStore.hpp', B + 'Core/SubsetClass.hpp'], [('temporary buffer, then swap', B + 'Vector/AssignmentOperator.hpp')], ['target', 'other operand', 'storage owners'])
p('C05', 'Growable storage keeps its contents and its class invariant',
  'After any construction, copy, move, copy assignment, resize, reallocation, fill, initialisation or append, a container satisfies size <= capacity = length of its block; copies hold the same elements and dimensions as their source, appending keeps all earlier elements and puts the new one last, reallocation keeps the earlier elements and zero-fills the rest, and fill sets every element. Reading or writing through the checked index operator outside 0..size-1 always throws and never touches memory, and a range-for visits exactly the elements 0..size-1 in order, also of a vector.',
  ['inputs', 'histories'], 'every container state satisfying the invariant (hence every history of these operations), every size argument and element type',
  'The tests walk a few short histories; the invariant must survive every state, in particular capacities that differ from sizes and moved-from objects.',
  [B + 'Core/BaseStore.hpp', B + 'BufferVector.hpp', B + 'Vector/Constructors.hpp'], [('BaseStore members', B + 'Core/BaseStore.hpp'), ('vector constructors', B + 'Vector/Constructors.hpp')], ['elements', 'size', 'capacity', 'owner of the block'],
  state=[dict(name='store', meaning='pointer, size, capacity, allocation flag, dimensions', where=B + 'Core/BaseStore.hpp')])
p('C06', 'Every block is released exactly once, also when an operation throws',
  'Creating, copying, converting, assigning and destroying vectors releases every block the library allocated exactly once and never releases memory it does not own; at scope exit nothing is leaked. When an operation throws, every vector that existed before is still valid and nothing allocated on the way is lost.',
  ['inputs', 'histories', 'fault_sequences'], 'all sizes and states; normal and exceptional exits',
  'No test observes releases; sanitizer runs of the tests would see only their own few histories and never an exception out of a half finished operation.',
  [B + 'Core/BaseStore.hpp', B + 'Vector/Constructors.hpp'] + V, [('destructor, moveit, resize', B + 'Core/BaseStore.hpp')], ['allocation and release events', 'state after an exception'])
p('C07', 'Scalar element access is one-based, in bounds and column-major',
  'at(v, i) on a vector variable refers to element i counted from one (fractions truncated) and at(m, r, c) to row r, column c of a matrix (variable or element-wise expression) in column-major order; any index outside 1..length, or row or column outside the dimensions, throws. Reading through them changes nothing and writing through them changes exactly that element.',
  ['inputs'], 'every vector or matrix shape and every integer index and every double index whose truncation is an int, in or out of range',
  'The tests index one small matrix at a few valid positions.',
  [B + 'Subsetting/at.hpp'], [('at overloads', B + 'Subsetting/at.hpp')], ['value read', 'element written', 'exception'])
p('C08', 'Vector subsetting selects exactly the indexed elements',
  'Reading v[idx] with an integer, double, logical or vector-valued index gives, in order, the elements at the one-based positions listed (double positions truncated), TRUE selects everything and a logical vector is recycled over the source and selects the positions where it is TRUE. A position outside 1..length never reads memory but throws when the selection is read; the source is unchanged. A range-for over the selection visits the same elements in the same order.',
  ['inputs'], 'all source and index lengths, all index values, target states',
  'The tests use sources of a few elements with short in-range indices; index vectors longer than the source, recycled logical indices and out-of-range positions are not covered.',
  [B + 'Subsetting/VectorSubsetting.hpp', B + 'Subsetting/UtilsSubsetting.hpp', B + 'Core/SubsetClass.hpp'], [('index computation', B + 'Subsetting/VectorSubsetting.hpp'), ('Subset element access', B + 'Core/SubsetClass.hpp')], ['assigned vector', 'exception'])
p('C09', 'Assigning into a subset changes exactly the selected elements',
  'v[idx] = w stores w (of the same length as the selection) or a recycled scalar at the selected one-based positions, the last value winning for a repeated position, and leaves every other element, the length and the dimensions of v and all of w unchanged. Storing through the references of a range-for over v[idx] changes the same elements. A length mismatch or a position outside the vector throws and never writes outside the vector.',
  ['inputs'], 'all vectors, index vectors of every supported type and right-hand sides, aliasing included',
  'Tests assign to two or three positions of a five element vector and do not check the frame or repeated positions.',
  V + [B + 'Core/SubsetClass.hpp', B + 'Subsetting/VectorSubsetting.hpp'], [('subset branch of the assignment', B + 'Vector/AssignmentOperator.hpp')], ['vector after the assignment', 'exception'])
p('C10', 'Matrix subsetting picks rows and columns in column-major order',
  'Reading m[rows, cols] with any combination of TRUE, integer, double, and integer, double or logical vectors gives the elements of the selected rows of the selected columns in column-major order. The result is a matrix of (selected rows) x (selected columns) when both selections are vectors or one is a vector and the other TRUE, and a plain vector when one of them is a scalar. FALSE as a selection is refused with an exception.',
  ['inputs'], 'all matrix shapes and all selections within the dimensions, for all 36 index type combinations',
  'The tests cover each index type combination once on one small matrix with in-range selections.',
  [B + 'Subsetting/MatrixSubsetting.hpp', B + 'Core/SubsetClass.hpp'], [('linear index computation', B + 'Subsetting/MatrixSubsetting.hpp')], ['assigned vector', 'dimensions'])
p('C11', 'Assigning into a matrix selection changes exactly that selection',
  'm[rows, cols] = w stores the elements of w, or a scalar, in column-major order at the selected positions and leaves every other element and the dimensions of m unchanged. FALSE as a selection is refused with an exception that leaves m unchanged.',
  ['inputs'], 'all matrix shapes and in-range selections of the supported index types',
  'Tests assign through a few selections of one matrix and do not check the untouched elements.',
  [B + 'Subsetting/MatrixSubsetting.hpp'] + V + [B + 'Core/SubsetClass.hpp'], [('subset branch of the assignment', B + 'Vector/AssignmentOperator.hpp'), ('linear index computation', B + 'Subsetting/MatrixSubsetting.hpp')], ['matrix after the assignment'])
p('C12', 'Dimensions follow the operands and always match the length',
  'A vector marked as a matrix has rows * columns = length. The result of an element-wise operation is a matrix exactly when an operand is one, with the dimensions of the matrix operand (of both when they agree); copying, constructing and assigning carry dimensions over, and assigning a plain vector or scalar removes them.',
  ['inputs', 'histories'], 'all shapes and operand combinations with conformable operands',
  'Tests check the dimensions of a few fixed matrices after single operations.',
  [B + 'Core/MatrixParameter.hpp', B + 'BinaryCalculations.hpp', B + 'UnaryCalculations.hpp'] + V, [('im, nr and nc of operations', B + 'BinaryCalculations.hpp'), ('setMatrix after assignment', B + 'Vector/AssignmentOperator.hpp')], ['im', 'nr', 'nc', 'length'])
p('C13', 'coca concatenates its arguments in order',
  'coca(x1, ..., xk) is the vector of length sum of the argument lengths that holds the elements of x1, then of x2, and so on, for any mixture of scalars, vectors, borrowed vectors and nested concatenations of logical, integer and double type, converted to the common element type. The arguments are unchanged.',
  ['inputs'], 'all argument lengths and values for the argument mixtures verified (each mixture is one instantiation)',
  'Tests concatenate a few short literals.', [B + 'Coca.hpp'], [('size and copy passes', B + 'Coca.hpp')], ['resulting vector'])
p('C14', 'The colon operator gives the unit-step sequence between its bounds',
  'colon(a, b) holds floor(|b - a| + 1) elements: element k (counted from zero) is a + k when a < b and a - k otherwise. The bounds may be logical, integer or double scalars, vectors, borrowed vectors or element-wise sums of these, of which the first element counts; if one of them is double the sequence is computed and returned in double. The bounds are unchanged and no exception is thrown.',
  ['inputs'], 'all finite bounds whose sequence length fits an int',
  'Tests try a few small bounds.', [B + 'Allocation/Colon.hpp'], [('sequence loops', B + 'Allocation/Colon.hpp')], ['resulting vector'])
p('C15', 'rep, vector and matrix constructors give the requested contents and shape',
  'rep(x, n) holds the elements of x (scalar, vector, borrowed vector or element-wise expression) n times in a row; vector_numeric, vector_integer and vector_logical of n give n zeros; matrix(x, r, c) gives an r x c matrix filled with the scalar, or with the elements of x in order when x has exactly r*c of them. Sizes may be logical, integer or double scalars (truncated) or vectors, of which the first element counts (vector_* accept only one of length one). A size below one, NaN or a wrong number of elements throws, and the target of the assignment is unchanged then.',
  ['inputs'], 'all sizes, values and argument states of the instantiated argument types', 'Tests allocate a few small objects and look only at their length.',
  [B + 'Allocation/Rep.hpp', B + 'Allocation/Vector.hpp', B + 'Allocation/Matrix.hpp', B + 'Allocation/AllocationUtils.hpp'], [('rep', B + 'Allocation/Rep.hpp'), ('vector', B + 'Allocation/Vector.hpp'), ('matrix', B + 'Allocation/Matrix.hpp')], ['contents', 'length', 'dimensions', 'exception'])
p('C16', 'A borrowed vector writes through and never outgrows or frees its memory',
  'A vector over caller-owned memory refers to exactly that memory: construction (from a pointer and a length or rows and columns, or by copying, moving or returning another borrowed vector) and destruction leave every byte of it alone. Assigning a right side whose length is at least the current length and at most the borrowed length stores it in the caller memory, from the first element on, together with its length and dimensions, also when the right side reads the vector itself or another borrowed vector over overlapping memory; a right side longer than the borrowed length throws, and a throwing assignment leaves memory, length and dimensions as they were. A scalar becomes the first element and the length one; into a block of length zero it throws. Nothing outside the selected elements is ever written; element access and subsets of a borrowed vector obey the rules for vectors, and resize and fill never reach beyond the borrowed length.',
  ['inputs', 'histories'], 'all borrowed lengths, right-hand sides and element values', 'Tests borrow a short array and assign once.',
  [B + 'Core/Borrow.hpp'] + V, [('borrow branch of the assignment', B + 'Vector/AssignmentOperator.hpp'), ('Borrow members', B + 'Core/Borrow.hpp')], ['caller memory', 'size', 'exception'])
p('C17', 'Forward-mode derivatives follow the rules of calculus',
  'In every program of assignments to the active variables of an AllVars set, over expressions nested from +, -, *, /, sinus, comparisons, other variables (buffer or borrowed, also the assigned one) and constants (coca, colon, vector_*, scalarDeriv), each variable holds after an assignment the values of its right side and, element for element with the same recycling, its derivative: sum, difference, product, quotient and chain rule (over the reals, divisors not zero) applied to values and derivatives before the assignment; comparisons and constants inside an expression have derivative zero. Before any assignment the derivative of the independent variable (identified by its index and type) is one and of every other variable zero; a variable that is assigned a constant or a scalar alone gets derivative one if it is the independent variable and zero otherwise. There are always as many derivatives as values, dimensions follow the right side, other variables keep values and derivatives, get_derivs copies the derivatives, and a right side longer than a borrowed variable throws and changes nothing.',
  ['programs', 'inputs'], 'all values, lengths, shapes and choices of the independent variable for each verified statement form; every state of the set satisfying the invariant, hence programs of any length',
  'Tests compare a few numbers with a tolerance of 0.01 on expressions whose inner derivative is one.',
  [B + 'Derivatives/DerivTypes.hpp', B + 'Derivatives/VarPointer.hpp', B + 'Derivatives/AllVars.hpp', B + 'Derivatives/getDerivs.hpp', B + 'Vector/DerivativeCalc.hpp', B + 'Core/Traits.hpp', B + 'Coca.hpp', B + 'Allocation/Colon.hpp', B + 'Allocation/Vector.hpp', B + 'Allocation/ScalarForDeriv.hpp'] + V, [('derivative rules', B + 'Core/Traits.hpp'), ('expression walk', B + 'Vector/DerivativeCalc.hpp'), ('assignment to an active variable', B + 'Vector/AssignmentOperator.hpp')], ['values', 'derivatives', 'dimensions', 'exception'],
  note='Derivative equations are compared in real arithmetic: terms are brought to a polynomial quotient normal form and the divisors are shown non-zero by z3.')
p('C18', 'Spline and linear interpolation clamp outside and pass through their knots',
  'For knots with strictly increasing finite times, cmr (at least four knots) and li (at least one) return the first value before the first knot, the last value after the last knot, and the knot value at a knot. Between two knots cmr returns the cubic Hermite value whose slopes at a knot are the difference quotient of its two neighbours (before the first knot comes the last one, after the last knot comes the first one at time first + last, where that differs from the last time but one), and li the linear value, up to rounding. The time may be a number, a vector, a subset or an expression (of which cmr takes the first element and li requires length one). Knots of different or too small number throw. Arguments are not modified.',
  ['inputs'], 'all knot vectors (owned, borrowed, computed), all finite values and all finite times', 'The tests evaluate one knot vector at a few dozen times and never call li.',
  [B + 'Interpolation.hpp'], [('cmrInternal', B + 'Interpolation.hpp'), ('li', B + 'Interpolation.hpp')], ['returned value', 'exception'], note='The value between two knots is proved over the reals (a polynomial normal form decides the identity): rounding is not modelled. The native replay, used only to search a failing input, allows for rounding.')
p('C19', 'isNA, isInf, length and dim report the true state of their argument',
  'For every non-empty vector variable, borrowed vector or binary element-wise expression, isNA and isInf give the logical vector of its length telling for each element whether it is NaN respectively infinite (integer and logical elements never are), and for a scalar the single truth value. length is the number of elements (1 for a scalar). dim of a matrix variable, expression or selection is the integer vector (rows, columns), and dim of anything without dimensions throws. Arguments are unchanged; the results can be assigned to, construct, or take part in expressions.',
  ['inputs'], 'all vectors and matrices of logical, integer and double type and all element values including NaN and infinities', 'Tests look at one vector each.',
  [B + 'Helper.hpp'], [('isNA, isInf, length, dim', B + 'Helper.hpp')], ['returned value', 'exception'])

TECH = 'contract-based deductive verification: weakest-precondition style VC generation from the LLVM IR of the real code, inductive loop invariants, z3'
NOTE = ('Every obligation of every instantiated operation is discharged by z3 for all inputs satisfying the stated preconditions (no bound on lengths or iterations). '
        'Assumes: clang front end, the VC generator, z3; %s; %s.')
NA = {}


def main():
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for x in P:
            a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']], 'observe_at': x['observe'], 'hook_needed': None}
            if x['state']:
                a['state'] = x['state']
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['st'] if 'st' in x else x['statement'], 'quantifier': {'over': x['over'], 'text': x['q']},
                                'why_tests_cant': x['why'], 'anchors': a}) + '\n')
    checks, na = [], []
    for x in P:
        if os.path.exists(os.path.join(H, 'props', x['id'] + '.py')) and x['id'] not in NA:
            checks.append({'property': x['id'], 'quick_cmd': 'python3-vt check.py %s quick' % x['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % x['id'],
                           'evidence_file': 'evidence/%s.json' % x['id'], 'technique': TECH, 'level': x['level'], 'level_note': (x['note'] + ' ' if x['note'] else '') + NOTE % (
                               'every allocation may fail' if x['id'] == 'C06' else 'allocation does not fail below 2^47 bytes (C06 covers failure)',
                               'floating point arithmetic is real arithmetic' if x['id'] in ('C17', 'C18') else 'floating point operations are uninterpreted except for comparison and conversion axioms')})
        else:
            na.append({'property': x['id'], 'reason': NA.get(x['id'], 'no check has been built yet')})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the driver units include the real headers as they are. See DESIGN.md.'}
    json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)


main()
