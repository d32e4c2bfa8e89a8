MT = 'The tests evaluate each operation on one or two literal values; a wrong component, sign, index or operand type that those values do not distinguish passes.'
p('C01', 'Vector arithmetic and comparison act component by component',
  'For every element type and dimension, vector addition, subtraction, multiplication, division and negation (with a vector, a scalar or a vector of another element type, plain or compound, also when both operands are the same object) produce exactly the component-wise result in the element type and change nothing else. Construction from components, smaller vectors, a scalar or another element type stores each component in its place, indexing reads and writes that component only, equality holds exactly when all components are equal, and ordering is lexicographic.',
  ['inputs', 'programs'], 'all component values, float, double, int32 and uint32 elements, dimensions 1-5 and 7, all operand type combinations the library accepts', MT,
  [M+'vector.hpp', M+'vectors/vector2.hpp', M+'vectors/vector3.hpp', M+'vectors/vector4.hpp'],
  [{'name': 'loop bodies of the generic Vector and the hand-written members of Vector2/3/4', 'where': M+'vector.hpp'}], DV,
  'Every instantiated operator has a functional postcondition over all inputs; loops over the fixed dimension are executed exactly. Integer vectors: exact machine arithmetic (positive divisors assumed).' + REALN)
p('C02', 'Vector functions compute their geometric definitions',
  'Dot, cross, length, distance, normalize, lerp (scalar and per-component factors of every arithmetic type, boolean selectors), reflect, faceforward (for a non-zero reference product) and sign equal their mathematical definitions on every input, member and free forms agree, and the cross product is orthogonal to both operands.',
  ['inputs'], 'all finite component values (non-zero vectors for normalize), float and double, dimensions 2-5', MT,
  [M+'vectors/geometry.hpp', M+'vectors/functions.hpp', M+'vector.hpp', M+'vectors/vector2.hpp', M+'vectors/vector3.hpp', M+'vectors/vector4.hpp'],
  [{'name': 'closed formulas in the geometry and function headers', 'where': M+'vectors/geometry.hpp'}], DV,
  'Real-valued postconditions as rational functions plus sqrt as an uninterpreted function with sqrt(x)^2 = x; member and free forms both under contract.' + REALN)
p('C03', 'Matrix element access, construction and linear operations are exact',
  'For every column/row count, matrix addition and subtraction, scaling, adding, subtracting or dividing by a scalar, and negation act on each element and nothing else, in plain and compound form and also when an operand is the object itself. The default matrix is the identity, a scalar fills only the diagonal, columns are stored in order, and row, column and index access, copying, converting assignment and equality agree with that column-major content.',
  ['inputs', 'programs'], 'all element values, float and double, eleven square and rectangular shapes from 2x2 to 5x5', MT,
  [M+'matrix.hpp', M+'matrices/matrix4x4.hpp'], [{'name': 'generic column loop and the 4x4 specialisation', 'where': M+'matrix.hpp'}], DV,
  'Element-wise postconditions for every instantiated operator and accessor.' + REALN)
p('C04', 'Matrix products follow linear algebra for every shape',
  'Matrix times matrix, of any compatible shapes, is the sum over the shared dimension, matrix times vector is the matching linear combination of columns, the identity is neutral on both sides, and applying a product to a vector equals applying the factors in turn.',
  ['inputs', 'programs'], 'all element values, float and double, square and rectangular shapes up to 5x5', MT,
  [M+'matrix.hpp', M+'matrices/matrix4x4.hpp'], [{'name': 'operator* in the generic matrix and in the 4x4 specialisation', 'where': M+'matrix.hpp'}], DV,
  'Polynomial identities over all element values, plus lemmas (associativity on vectors, neutrality) on the composed code.' + REALN)
p('C05', 'Determinant, transpose, Hadamard and outer product are correct',
  'The determinant of 2x2, 3x3 and 4x4 matrices equals the Leibniz sum (so it is multiplicative), transposition exchanges rows and columns for every shape and is its own inverse, the Hadamard product multiplies element by element and the outer product holds every product of components; member and free forms agree.',
  ['inputs', 'programs'], 'all element values, float and double, all supported shapes', MT,
  [M+'matrices/functions.hpp', M+'matrices/matrix4x4.hpp'], [{'name': 'matrix function formulas', 'where': M+'matrices/functions.hpp'}], DV,
  'Polynomial identities over all element values.' + REALN)
p('C06', 'translate, scale and rotate multiply by the exact transformation',
  'Translating, scaling or rotating a matrix yields that matrix times the elementary transformation: translation by the vector, scaling by its components, and for a unit axis the rotation by the angle around it, whatever the input matrix. Consequently points are moved, scaled and rotated exactly as named and the rotation axis stays fixed.',
  ['inputs'], 'all matrices, vectors, axes and angles, float and double, floating-point and integer angles', 'There are no tests of the rotation, and the others use one literal matrix.',
  [M+'matrices/transformation.hpp'], [{'name': 'transformation column formulas', 'where': M+'matrices/transformation.hpp'}], DV,
  'sin and cos are uninterpreted functions with sin^2+cos^2=1; the postcondition is the explicit matrix product.' + REALN)
p('C07', 'Projection matrices map the view volume onto the clip cube',
  'Perspective (field of view or frustum bounds) and orthographic projections, left- and right-handed, map their view volume onto the cube from -1 to 1 with the near plane at -1 and the far plane at 1, and equal the standard matrices for all valid parameters. The overloads without a handedness in the name follow the configured clip convention.',
  ['inputs', 'configurations'], 'all 0 < near < far, left < right, bottom < top, positive aspect; float and double; with and without the left-handed configuration macro', 'No test touches projections.',
  [M+'matrices/perspective.hpp', 'include/xme/setup.hpp'], [{'name': 'projection matrix formulas and the clip macro', 'where': M+'matrices/perspective.hpp'}], DV,
  'Both macro configurations are compiled and proved; corner-mapping lemmas on the composed code.' + REALN)
p('C08', 'Quaternion algebra is the Hamilton algebra',
  'Quaternion addition and subtraction act per component, the product is the Hamilton product (so it is associative and multiplies norms), also when both operands are the same object, construction and indexed or named access agree on the order w, x, y, z, and equality and ordering compare all components.',
  ['inputs'], 'all component values, float and double, construction from floating-point and integer values', MT,
  [M+'quaternion.hpp'], [{'name': 'quaternion operators', 'where': M+'quaternion.hpp'}], DV, 'Polynomial identities over all component values.' + REALN)
p('C09', 'Angle conversion, trigonometry, sign and constants have their defined values',
  'Degree/radian conversion is multiplication by pi/180 and its inverse, secant, cosecant and cotangent are reciprocals of cosine, sine and tangent, sign is -1, 0 or 1 for every signed or floating type, and every named mathematical constant is the correctly rounded value in each floating-point type.',
  ['inputs', 'programs'], 'all arguments; float and double (constants), six scalar types (sign)', 'Tests compare a few literal arguments; most constants are never checked.',
  [M+'scalars/trigonometry.hpp', M+'scalars/functions.hpp', M+'constants.hpp'], [{'name': 'scalar formulas and constant definitions', 'where': M+'constants.hpp'}], DV,
  'Conversion factors and constants are compared with 50-digit reference values to within one rounding of the type; libm functions uninterpreted.' + REALN)

p('C10', 'find returns the first matching position for every range',
  'Searching a range returns the position of the first element equal to the value, or the end when there is none, for every length, element size, alignment and content, with every supported instruction set and for iterators that are not contiguous. It reads nothing outside the range and modifies nothing.',
  ['inputs', 'configurations', 'programs'], 'all lengths, contents and starting alignments; 1-, 2-, 4- and 8-byte elements; AVX2, SSE and scalar builds',
  'The tests search one or two aligned arrays; tails, unaligned starts, lengths around the vector width and absent values are sampled at most once.',
  ['include/xme/core/algorithm/find.hpp'], [{'name': 'vector loop, smaller-width tail and scalar tail', 'where': 'include/xme/core/algorithm/find.hpp'}], DV,
  'Loop invariants proved for unbounded length; memory safety of every load is an obligation.')
p('C11', 'reverse reverses every range in place',
  'After reversing a range of any length, element i holds what element n-1-i held before, with every supported instruction set, element size and iterator kind, and nothing outside the range is read or written.',
  ['inputs', 'configurations', 'programs'], 'all lengths, contents and alignments; 1-, 2-, 4- and 8-byte trivially copyable and non-trivial elements; AVX2, SSSE3 and scalar builds',
  'The tests reverse a few lengths of one or two element types.',
  ['include/xme/core/algorithm/reverse.hpp'], [{'name': 'two-ended vector swap loop and scalar loop', 'where': 'include/xme/core/algorithm/reverse.hpp'}], DV,
  'Loop invariants proved for unbounded length; memory safety of every access is an obligation.')
p('C12', 'Array behaves as a growable sequence',
  'Every array operation (construction, copy, move, assignment, append, insert of values, ranges and counts, erase, resize, reserve, shrink, swap, clear, iteration and access) leaves exactly the sequence of values that the same operation gives on a mathematical sequence, with size never above capacity and only the documented operations changing capacity. Inserting or appending a value that lives in the array itself behaves as if the value had been copied first.',
  ['inputs', 'histories'], 'all reachable states (size, capacity, contents) and all arguments, so all histories of calls', 'The tests run short fixed scripts over small integer arrays, mostly without reallocation in the middle of an operation.',
  [C+'array.hpp', C+'icontainer.hpp', 'include/xme/ranges/uninitialized.hpp', 'include/xme/ranges/destroy.hpp'], [{'name': 'storage growth, shifting and range construction', 'where': C+'array.hpp'}], DV,
  'Each member is checked from an arbitrary valid state, so the contracts compose to all histories.')
p('C13', 'Array constructs and destroys each element exactly once and frees its storage',
  'Throughout any operation the array assigns to and reads only live elements, constructs only into raw storage, destroys each element exactly once, never touches storage outside its allocation, and returns each allocation exactly once with the size it was obtained with; after destruction nothing it owned is left.',
  ['inputs', 'histories'], 'all reachable states and arguments, for element types whose every special member is observable and for any allocator', 'The tests use int and std::string-like values for which a missing destructor or an assignment into raw storage goes unnoticed.',
  [C+'array.hpp', 'include/xme/ranges/uninitialized.hpp', 'include/xme/ranges/destroy.hpp'], [{'name': 'uninitialised range helpers, storage moves and destructor', 'where': C+'array.hpp'}], DV,
  'Element and allocator operations are opaque functions with ownership contracts (ghost liveness per slot).')
p('C14', 'Failing element operations leave no leak and no double destruction',
  'When an element constructor, copy, move or an allocation throws during an operation that creates elements, every element already created by the failed step is destroyed exactly once, no raw or destroyed element is destroyed or read, no storage leaks and the exception reaches the caller with the container still destructible.',
  ['fault_sequences', 'inputs'], 'a throw at every call of an element constructor or allocation, for all sizes and states', 'No test makes an element operation or allocation throw.',
  ['include/xme/ranges/uninitialized.hpp', 'include/xme/ranges/destroy.hpp', C+'array.hpp', C+'linked_list.hpp'], [{'name': 'catch-and-destroy in the range helpers', 'where': 'include/xme/ranges/uninitialized.hpp'}], DV,
  'Opaque element operations fork into a normal and an exceptional outcome at every call, for arrays, lists and the range helpers; ghost liveness checked on every path.')
p('C15', 'An array view exposes exactly the viewed range',
  'A view over any contiguous range or container reports that range length, iterates forwards and backwards over exactly its elements and indexes them element by element, and sub-views, prefixes and suffixes cover exactly the requested elements without ever reading outside the original range.',
  ['inputs'], 'all lengths, offsets and contents', 'Tests build a view over one short array.', [C+'array_view.hpp'], [{'name': 'pointer pair and sub-view arithmetic', 'where': C+'array_view.hpp'}], DV, 'Pointer arithmetic and bounds are obligations for symbolic lengths.')
p('C16', 'Heap keeps the extreme element on top and loses nothing',
  'After any sequence of building, pushing and popping, the heap holds exactly the pushed and not yet popped elements, its top is never ordered below any other element, and popping removes exactly the top.',
  ['histories', 'inputs'], 'all reachable heaps, comparison orders and element values', 'Tests push a handful of integers.', [C+'heap.hpp'], [{'name': 'sift-up and sift-down', 'where': C+'heap.hpp'}], DV, 'Sift-up, the building loop and the recursive sift-down get inductive contracts (heap order everywhere, except above / below one position, parent/child relations, which elements are alive, how many elements of each value there are), found by Houdini elimination from templates and then proved for every heap size; no bound. The comparison is an arbitrary strict weak order (a rank per element).')
p('C17', 'LinkedList behaves as a sequence',
  'Every list operation (construction, copy, move, assignment, insertion and erasure after a position, push and pop at the front, clear, reverse and iteration) leaves exactly the sequence of values the same operation gives on a mathematical sequence, terminated properly and with the reported emptiness matching.',
  ['inputs', 'histories'], 'all list contents and positions', 'Tests run short scripts on small lists.', [C+'linked_list.hpp', 'private/container/linked_list_base.hpp'], [{'name': 'node linking and hooks', 'where': 'private/container/linked_list_base.hpp'}], DV, 'Every operation is checked from an arbitrary list: a chain of n nodes in the canonical form of its reachable states. Loops over node chains get inferred invariants proved by induction; afterwards the walk visits exactly the expected values and then null, and the destructor frees every allocated node once, so the result is again such a chain and histories follow by induction.')
p('C18', 'LinkedList allocates, constructs, destroys and frees each node exactly once',
  'Every node is obtained from the allocator once, its element is constructed once before use and destroyed once, and the node is freed once, also when a list is cleared, assigned to, moved from or destroyed; no freed node is read.',
  ['inputs', 'histories'], 'all list contents, positions and operation sequences', 'Tests use integers and a default allocator, where leaks and stale reads go unnoticed.', [C+'linked_list.hpp', 'private/container/linked_list_base.hpp'], [{'name': 'node creation and disposal', 'where': C+'linked_list.hpp'}], DV, 'Node pool per allocator with ghost liveness per node and per element; each operation is followed by the destructor, after which every node obtained was freed exactly once.')
p('C19', 'The single-producer single-consumer queue is a bounded FIFO',
  'For every capacity and history, pushing succeeds exactly when the queue is not full, a non-empty queue always yields its oldest element on pop or consume, the reported fill level and free space are exact, values come out in the order they went in, each exactly once, indices wrap correctly, and elements still queued are destroyed exactly once when the queue is destroyed.',
  ['histories', 'inputs'], 'all power-of-two capacities of a run-time sized queue (compile-time capacities 1, 2, 4; 8 in the thorough tier), all reachable states and values, a throw in every element constructor', 'The tests push and pop a few integers in a queue that never wraps.', [C+'spsc_queue.hpp', 'private/container/spsc_queue_base.hpp'], [{'name': 'ring indices and full/empty tests', 'where': 'private/container/spsc_queue_base.hpp'}], DV, 'The state after r elements went through and n more were pushed is built by the real code (loop invariants over ring indices); each operation is proved to lead to the corresponding state, so histories follow by induction. Ring lemmas are proved for all 64 powers of two; used as axioms for an uninterpreted ring term.')
p('C20', 'The queue is safe between one producer and one consumer thread',
  'With one thread pushing and one popping concurrently, no slot is read before its element was fully written nor overwritten before it was consumed, no element is lost, duplicated or reordered, and publication of a slot synchronises with the other side under the C++ memory model.',
  ['schedules', 'histories'], 'all interleavings of one producer and one consumer, all capacities', 'A test cannot enumerate interleavings or weak-memory outcomes.', ['private/container/spsc_queue_base.hpp', C+'spsc_queue.hpp'], [{'name': 'release store and acquire load of the two indices', 'where': 'private/container/spsc_queue_base.hpp'}], DV, 'Rely-guarantee contracts per operation: the other side advances arbitrarily before each shared access; slots change hands only through acquire loads and release stores; each side proves its guarantee, which is what the other side relies on (soundness of that composition is a paper argument, xvc/conc.py). Run-time sized queue, all capacities >= 2; failing proofs are replayed with the thread sanitizer.')
p('C21', 'Pair and tuple store, return, compare and combine elements faithfully',
  'A pair or tuple holds each element it was built from at its own position, element access by index or name refers to that element with the right reference kind and constness, copying, moving, assigning and swapping treat each element exactly once, equality and ordering are element-wise and lexicographic, concatenation, tie, forward and make helpers keep order and identity, and an exception of an element operation or of an applied function reaches the caller without leaving an element behind.',
  ['inputs', 'programs'], 'all values; tuples of several arities and element kinds (values, references, empty types)', 'Tests use one or two literal tuples.', [C+'pair.hpp', C+'tuple.hpp', 'private/container/tuple_base.hpp'], [{'name': 'indexed leaf storage', 'where': 'private/container/tuple_base.hpp'}], DV, 'Fixed-size value contracts.')
p('C22', 'Aligned storage holds one object at the requested alignment',
  'An aligned storage object starts at a multiple of the requested alignment, its size is large enough for the stored type, every accessor designates that same start, constructing it from arguments constructs the stored object from exactly those arguments in that place, and nothing outside the object is written.',
  ['inputs', 'programs'], 'several stored types, alignments from the natural one up to 64, all values', 'Tests check one instance.', [C+'aligned_data.hpp'], [{'name': 'aligned byte array', 'where': C+'aligned_data.hpp'}], DV, 'Fixed-size contracts.')
p('C23', 'A delegate invokes and owns exactly the callable it was given',
  'Calling a delegate invokes the bound function, member function or functor once with the given arguments and returns its result; copies own an independent copy of a functor, moves transfer it, small and large functors behave alike, the functor is destroyed exactly once, and assigning, resetting and comparing keep emptiness and target consistent.',
  ['inputs', 'histories', 'programs'], 'free functions, member functions, small, large, trivial and non-trivial functors; all arguments; all sequences of copy, move, assign and destroy', 'Tests call a few delegates once and never observe functor lifetime.', ['include/xme/core/functional/delegate.hpp'], [{'name': 'inline or heap functor storage with its manager', 'where': 'include/xme/core/functional/delegate.hpp'}], DV, 'Ghost liveness on opaque functors.')
p('C24', 'bind_front and bind_back pass bound and call arguments in the right order',
  'A bound callable invokes the target once with the bound arguments first (front) or last (back) and the call arguments in order, with their values and reference kinds preserved, and an exception of the target, or of copying the target or an argument, reaches the caller, for every number of bound and call arguments and for function objects and member functions.',
  ['inputs', 'programs'], 'zero to four bound and call arguments, values and references, all argument values', 'Tests bind one or two integers.', ['include/xme/core/functional/bind.hpp'], [{'name': 'stored tuple of bound arguments and index expansion', 'where': 'include/xme/core/functional/bind.hpp'}], DV, 'Fixed-size contracts with opaque targets.')
p('C25', 'A scoped delegate runs its action exactly once when the scope ends',
  'The action given to a scoped delegate runs exactly once, when the guard is destroyed, whether the scope is left normally or by an exception, and never before.',
  ['inputs', 'fault_sequences'], 'all actions, normal and exceptional exits', 'No test observes the exceptional exit.', ['include/xme/core/functional/scoped_delegate.hpp'], [{'name': 'destructor of the guard', 'where': 'include/xme/core/functional/scoped_delegate.hpp'}], DV, 'Ghost call counter.')
p('C26', 'Iterator adaptors mirror the underlying iterator',
  'A reverse iterator visits exactly the underlying range backwards and a constant iterator visits it unchanged and read-only; all increments, offsets, differences, comparisons, indexing and conversions to and from the base agree with that reading for every position.',
  ['inputs', 'programs'], 'all positions and offsets over arbitrary ranges', 'Tests step a few positions.', ['include/xme/core/iterators/reverse_iterator.hpp', 'include/xme/core/iterators/const_iterator.hpp'], [{'name': 'wrapped base iterator', 'where': 'include/xme/core/iterators/reverse_iterator.hpp'}], DV, 'Pointer-valued contracts for symbolic positions.')
p('C27', 'Bit and integer utilities are exact for every value',
  'The single-bit test is true exactly for powers of two of every unsigned type, and conversion to unsigned keeps the bit pattern of every integer and enumeration value.',
  ['inputs'], 'all values of every integer width', 'Tests try a few literals.', ['include/xme/core/bit/has_single_bit.hpp', 'include/xme/core/utility/to_unsigned.hpp'], [{'name': 'bit tricks', 'where': 'include/xme/core/bit/has_single_bit.hpp'}], DV, 'Bit-vector proof over all values.')
p('C28', 'A shared library handle is opened and closed exactly once',
  'A library object holds at most one open handle, reports open exactly while it holds one, closes each opened handle exactly once however it is opened, reopened, closed, moved or destroyed, and resolves symbols only from the library it holds, using exactly the given name.',
  ['histories', 'inputs'], 'all sequences of operations, including failing opens', 'Tests open one library once.', ['include/xme/hal/shared_library.hpp', 'include/xme/hal/linux/platform.hpp'], [{'name': 'handle ownership', 'where': 'include/xme/hal/shared_library.hpp'}], DV, 'Ghost handle table for the loader calls.')
p('C29', 'Environment access uses exactly the given names and values',
  'Setting an environment variable stores exactly the given value under exactly the given name, an empty value removes the variable, reading returns the value of exactly the given name or nothing, and neither depends on bytes outside the given strings.',
  ['inputs'], 'all names and values, including ones that are part of a longer string', 'No test touches the environment functions.', ['include/xme/hal/linux/platform.hpp', 'include/xme/hal/platform.hpp'], [{'name': 'calls into the C environment', 'where': 'include/xme/hal/linux/platform.hpp'}], DV, 'Contracts on the C library calls.')
