# Each entry: prop(id, title, statement, over, quantifier text, why tests cannot, files, mechanism, observe, driver,
#                  technique, level_note, ...)
NOT_APPLICABLE = []
RM = 'runtime monitoring: '
BASE_NOTE = ('Held on the executions run (counts in the evidence file); says nothing of inputs not generated. '
             'Trusts clang\'s sanitizers and the reference model in the driver. ')

prop('T01', 'Type text and types are inverse to each other',
     'Every type, written out as datashape text and parsed again, gives an equal type, whatever way it was built; two types '
     'compare equal exactly when their text, and so their structure, is the same. Spelling (white space, comments, aliases, '
     'quoted field names) does not change the type that text denotes, and the type has the dimensions, fields, sizes and '
     'names the text says.',
     ['inputs'], 'all type expressions: nested dimensions, tuples, structs, options, pointers, callables, fixed '
     'strings/bytes, type variables, kinds, and every spelling of each',
     'Type expressions nest without bound; the tests round-trip a few dozen fixed ones.',
     ['src/dynd/types/datashape_parser.cpp', 'include/dynd/types/*.hpp', 'src/dynd/types/*.cpp', 'src/dynd/type.cpp',
      'src/dynd/type_registry.cpp'],
     [('recursive-descent parser', 'src/dynd/types/datashape_parser.cpp'), ('print_type/operator== of every type', 'src/dynd/types')],
     ['ndt::type(text)', 'operator<<(ndt::type)', 'operator==(ndt::type)'], 'p_t01',
     RM + 'generated type trees, print/parse/compare monitor against the generator\'s own tree, ASan+UBSan',
     BASE_NOTE)

prop('T02', 'Any text is either a type or a clean error',
     'Parsing arbitrary bytes as a type either gives a type or throws an exception: it never crashes, hangs, reads outside '
     'the text or leaves the library unusable. Text that is not valid datashape is refused rather than given some other '
     'meaning, with an error whose line and column are of the text, and text that is accepted denotes a type that prints '
     'and parses back to itself.',
     ['inputs'], 'all byte strings, including truncations and mutations of valid datashape',
     'The tests parse a few malformed strings; the set of malformed inputs is unbounded.',
     ['src/dynd/types/datashape_parser.cpp', 'src/dynd/parse_util.cpp', 'include/dynd/parse_util.hpp'],
     [('token and error handling', 'src/dynd/types/datashape_parser.cpp')],
     ['ndt::type(text)'], 'p_t02', RM + 'grammar-aware mutation of texts in exact-size heap buffers, ASan+UBSan, round-trip oracle',
     BASE_NOTE)

prop('T03', 'Pattern matching follows the pattern language',
     'A concrete type matches a pattern exactly when the pattern language says so: kinds match their members, a type '
     'variable stands for one type or dimension throughout the pattern, an ellipsis for any run of dimensions. When a '
     'match succeeds, the variables it binds, substituted back into the pattern, give the type that was matched. A '
     'pattern matches itself, and not the same dimensions over different elements.',
     ['inputs'], 'all pairs of a pattern and a concrete type',
     'The tests check fixed pairs; consistency of repeated variables and ellipses quantifies over all pairs.',
     ['src/dynd/type.cpp', 'src/dynd/types/substitute_typevars.cpp', 'src/dynd/types/ellipsis_dim_type.cpp',
      'src/dynd/types/typevar_type.cpp', 'src/dynd/types/typevar_dim_type.cpp', 'src/dynd/types/fixed_dim_type.cpp',
      'src/dynd/types/tuple_type.cpp', 'src/dynd/types/struct_type.cpp', 'src/dynd/types/callable_type.cpp'],
     [('match', 'match() of each type'), ('substitution', 'src/dynd/types/substitute_typevars.cpp')],
     ['ndt::type::match', 'ndt::substitute'], 'p_t03',
     RM + 'reference matcher over generated pattern/type pairs, ASan+UBSan', BASE_NOTE)

prop('T04', 'Array memory layouts are sound',
     'For every concrete type, an array of it gives each element and field its own properly aligned bytes inside the '
     'memory it owns: no two leaves overlap, the sizes and offsets reported are those used, and a fresh C-order array '
     'is contiguous. What is written to one leaf never changes another, and reading each leaf returns what was written. '
     'An array made like another (empty_like) has its type and keeps the order of its axes in memory, and an array too '
     'large for the address space is refused.',
     ['inputs'], 'all nestings of fixed and variable dimensions, tuples, structs, options, strings, bytes and scalars',
     'Layouts are computed per type; the tests look at a handful of structs.',
     ['include/dynd/types/tuple_type.hpp', 'src/dynd/types/struct_type.cpp', 'src/dynd/types/tuple_type.cpp',
      'src/dynd/types/fixed_dim_type.cpp', 'src/dynd/types/var_dim_type.cpp', 'src/dynd/array.cpp'],
     [('offset computation', 'tuple_type::fill_default_data_offsets'), ('array metadata construction', 'arrmeta_default_construct')],
     ['nd::empty', 'array metadata', 'memory contents'], 'p_t04',
     RM + 'interval monitor over every leaf of generated layouts, unique-value write/read, ASan+UBSan', BASE_NOTE)

prop('T05', 'Type constructors and functions are found by name exactly as registered',
     'A type constructor registered under a name is called with exactly the arguments written in the type text: the '
     'positional and keyword integers, strings, types and lists of them, in order, and the type it returns is the one '
     'used, anywhere a type may appear; text whose argument list is damaged is refused and calls no constructor. '
     'A name that is already a type, or no name at all, is refused and leaves the registry as it was. A function put '
     'in the registry under a dotted path is found there, and only there, with its namespaces; what is registered '
     'under other names does not change, and observers hear of every insertion once.',
     ['inputs', 'histories'], 'all sequences of registrations and lookups, and all argument lists of type texts',
     'The tests register one or two names and look up builtin types; arguments, refusals and namespaces are not compared.',
     ['src/dynd/type_registry.cpp', 'include/dynd/type_registry.hpp', 'include/dynd/registry.hpp',
      'src/dynd/registry.cpp', 'src/dynd/types/datashape_parser.cpp'],
     [('type constructor registration', 'register_known_type_id_constructor'), ('type argument parsing', 'parse_type_constr_args'),
      ('function registry', 'registry_entry')],
     ['type constructor calls', 'registry contents'], 'p_t05',
     RM + 'recording stand-in constructors checked against the generated argument list, and a model of the registry, ASan+UBSan', BASE_NOTE)

prop('N01', 'Numeric assignment keeps the value or reports',
     'Assigning a number of one built-in type to another gives the destination the same number when it can hold it. When '
     'it cannot, the error mode decides: "overflow" throws if the value is out of range, "fractional" also if a fraction '
     'would be lost, "inexact" also if any precision would be lost, and "nocheck" never throws; a value that is '
     'representable never causes an error.',
     ['inputs'], 'all values of all pairs of bool, signed/unsigned integers of 8 to 128 bits, float32/64 and complex, in '
     'the four modes, one at a time and in strided and broadcast arrays',
     'There are over 10^9 type/mode/value combinations; the tests take a few values of a few pairs.',
     ['include/dynd/assignment.hpp', 'include/dynd/kernels/assignment_kernels.hpp', 'include/dynd/callables/assign_callable.hpp',
      'src/dynd/assignment.cpp'],
     [('checked casts', 'include/dynd/assignment.hpp'), ('per-mode kernels', 'include/dynd/kernels/assignment_kernels.hpp')],
     ['nd::array::assign with an error mode', 'nd::array::as'], 'p_n01',
     RM + 'exact-arithmetic reference (integers as 128 bits, floats exactly) on boundary-biased values, ASan+UBSan', BASE_NOTE)

prop('N02', 'Half-precision and 128-bit numbers are exact',
     'A half-precision number converts to and from wider types with the nearest-even value and preserved sign, infinity '
     'and NaN; only a value that would round to a subnormal or past the largest half may be refused instead. Arithmetic, shifts, comparison, conversion and printing of 128-bit signed and unsigned integers agree with '
     'two\'s-complement arithmetic modulo 2^128.',
     ['inputs'], 'all 65536 half values, all neighbours of the rounding boundaries, and 128-bit operand pairs',
     'The tests check a few values; carries, sign extension and rounding ties need many.',
     ['src/dynd/float16.cpp', 'include/dynd/float16.hpp', 'src/dynd/int128.cpp', 'src/dynd/uint128.cpp',
      'include/dynd/int128.hpp', 'include/dynd/uint128.hpp'],
     [('conversion', 'src/dynd/float16.cpp'), ('carry propagation', 'include/dynd/uint128.hpp')],
     ['float16/int128/uint128 operations and conversions'], 'p_n02',
     RM + 'exhaustive half-precision sweep and __int128 reference on boundary-biased operands, ASan+UBSan', BASE_NOTE)

prop('N03', 'Elementwise operations are the scalar ones, broadcast',
     'An arithmetic, bitwise, shift, comparison, logical or mathematical operation on arrays gives, at every position, the '
     'value the C++ operator gives on the two elements there, in the result type the operand types determine. Operand '
     'shapes are broadcast: missing or size-one dimensions repeat, any other mismatch throws; operands are unchanged and '
     'their memory layout does not matter.',
     ['inputs'], 'all operators, operand type pairs, values, shapes, strides (negative, zero, permuted) and variable '
     'dimensions',
     'Operators x type pairs x layouts run to many thousands; the tests check single scalars and small contiguous arrays.',
     ['include/dynd/arithmetic.hpp', 'include/dynd/binary_arithmetic.hpp', 'include/dynd/unary_arithmetic.hpp',
      'include/dynd/compound_arithmetic.hpp', 'include/dynd/comparison_common.hpp', 'include/dynd/kernels/elwise_kernel.hpp',
      'include/dynd/callables/elwise_callable.hpp', 'include/dynd/math.hpp', 'include/dynd/logic.hpp', 'src/dynd/*.cpp'],
     [('scalar kernels', 'include/dynd/kernels/arithmetic.hpp'), ('elementwise lifting', 'include/dynd/kernels/elwise_kernel.hpp')],
     ['operators on nd::array', 'nd::add ... nd::less', 'nd::sin ...'], 'p_n03',
     RM + 'independent scalar reference with broadcasting over generated operands, ASan+UBSan', BASE_NOTE)

prop('N04', 'Reductions fold every element exactly once',
     'Reducing an array over a set of axes gives, for each remaining index, the fold of exactly the elements there, each '
     'once, and the result has the remaining axes (size one if kept). This holds for any strides, and the input is '
     'unchanged. Serializing gives the bytes of the elements, one after another.',
     ['inputs'], 'all shapes, axis subsets, keep-dimension choices, strides, types and values',
     'Axis subsets x layouts grow exponentially; the tests fix small contiguous arrays.',
     ['include/dynd/kernels/reduction_kernel.hpp', 'include/dynd/callables/reduction_callable.hpp', 'src/dynd/sum.cpp',
      'src/dynd/statistics.cpp', 'include/dynd/kernels/sum_kernel.hpp', 'include/dynd/kernels/max_kernel.hpp',
      'include/dynd/kernels/min_kernel.hpp', 'include/dynd/kernels/all_kernel.hpp', 'src/dynd/functional.cpp',
      'include/dynd/kernels/serialize_kernel.hpp', 'include/dynd/types/sso_bytestring.hpp'],
     [('reduction lifting', 'include/dynd/kernels/reduction_kernel.hpp')],
     ['nd::sum, nd::max, nd::min, nd::all, nd::functional::reduction'], 'p_n04',
     RM + 'reference fold over generated arrays and axis sets, ASan+UBSan', BASE_NOTE)

prop('N05', 'Type promotion is a sound common type',
     'The common type of two types (promote_types_arithmetic) does not depend on their order and does not change when '
     'promoted again with either of them. For the numeric types C has, it is the type C gives their sum; otherwise it is '
     'of the wider kind, at least as wide as both sides and no narrower than 32 bits. An option, a variable dimension or a '
     'string type on one side stays one in the common type. A conversion is reported lossless (is_lossless_assignment) '
     'only if every value of the source type, a missing one included, survives it; for numeric types the relation is '
     'reflexive and transitive.',
     ['inputs'], 'all pairs and triples of built-in types, strings, options and dimension types',
     'The tests check a few pairs; the guarantee is over all pairs.',
     ['src/dynd/type_promotion.cpp', 'include/dynd/type_promotion.hpp', 'src/dynd/type.cpp'],
     [('promotion table', 'src/dynd/type_promotion.cpp'), ('lossless relation', 'src/dynd/type.cpp is_lossless_assignment')],
     ['promote_types_arithmetic', 'is_lossless_assignment'], 'p_n05',
     RM + 'algebraic and value-level monitor over all pairs, ASan+UBSan', BASE_NOTE, min_distinct=100)

prop('A01', 'Indexing and slicing select exactly the right elements',
     'Any combination of integer indices and ranges (negative positions, any step, open ends) applied to an array gives '
     'the sub-array with exactly the elements and shape sequence semantics prescribe, sharing the original memory: '
     'writes through it are seen in the original and nowhere else. An index or range that does not fit throws and '
     'touches nothing.',
     ['inputs'], 'all index expressions on all shapes, including views of views, structs/tuples and variable dimensions',
     'Start/stop/step combinations and repeated slicing are unbounded; the tests take a few.',
     ['include/dynd/irange.hpp', 'include/dynd/shape_tools.hpp', 'src/dynd/shape_tools.cpp', 'src/dynd/array.cpp',
      'src/dynd/types/fixed_dim_type.cpp', 'src/dynd/types/var_dim_type.cpp', 'src/dynd/types/tuple_type.cpp',
      'src/dynd/types/struct_type.cpp'],
     [('linear indexing', 'apply_linear_index of the dimension types'), ('range normalisation', 'apply_single_linear_index')],
     ['nd::array::operator()', 'nd::array::at_array'], 'p_a01',
     RM + 'model of index sets checked by address and by write-through, ASan+UBSan', BASE_NOTE)

prop('A02', 'Axis rearrangement only renames positions',
     'Permuting, transposing, rotating, swapping or inserting axes, and reshaping a contiguous array, gives an array whose '
     'elements are those of the original, each at the renamed position and nowhere else, sharing memory where promised. '
     'A request that is not a valid rearrangement of the array at hand throws.',
     ['inputs'], 'all ranks, shapes, permutations and prior views',
     'Permutations x shapes x strides are unbounded; the tests use two or three.',
     ['src/dynd/array.cpp', 'include/dynd/array.hpp', 'src/dynd/type.cpp', 'src/dynd/types/fixed_dim_type.cpp'],
     [('permute/rotate/transpose/new_axis/reshape', 'src/dynd/array.cpp')],
     ['nd::array::permute, rotate, transpose, swapaxes, new_axis; nd::reshape'], 'p_a02',
     RM + 'position-renaming model over generated arrays, ASan+UBSan', BASE_NOTE)

prop('A03', 'Array assignment copies each element, or throws',
     'Assigning an array to another writes to every destination element the (broadcast) source element for that position, '
     'converted, and writes nothing else; shapes that cannot broadcast throw. This holds between fixed, strided and '
     'variable dimensions and nested combinations, and copies made of an array do not share its data.',
     ['inputs'], 'all pairs of source and destination dimension kinds, shapes, strides and element types',
     'Dimension-kind pairs nest without bound; the tests check a few shapes.',
     ['include/dynd/callables/assign_callable.hpp', 'include/dynd/kernels/assignment_kernels.hpp',
      'include/dynd/kernels/elwise_kernel.hpp', 'include/dynd/callables/elwise_callable.hpp', 'src/dynd/array.cpp'],
     [('assignment kernels', 'include/dynd/kernels/assignment_kernels.hpp'), ('elementwise lifting', 'include/dynd/kernels/elwise_kernel.hpp')],
     ['nd::array::assign', 'nd::array::eval_copy', 'nd::array::operator='], 'p_a03',
     RM + 'broadcast model with canary elements around strided destinations, ASan+UBSan', BASE_NOTE)

prop('A04', 'Memory lives exactly as long as something refers to it',
     'Data reached through any array, view, iterator, field or copy stays valid while that object lives, in whatever order '
     'the others are destroyed, and when the last reference goes everything is freed exactly once. This includes strings, '
     'variable-sized data, types and callables, and calls that end in an exception.',
     ['histories', 'inputs'], 'all sequences of creating, viewing, copying, moving, assigning, growing and dropping arrays, '
     'types, callables and buffers',
     'The tests never check deallocation, and cannot run every order of drops.',
     ['include/dynd/buffer.hpp', 'src/dynd/buffer.cpp', 'include/dynd/array.hpp', 'src/dynd/array.cpp',
      'include/dynd/memblock/*.hpp', 'include/dynd/types/base_type.hpp', 'include/dynd/callable.hpp',
      'include/dynd/kernels/kernel_builder.hpp', 'src/dynd/types/var_dim_type.cpp'],
     [('intrusive reference counts', 'include/dynd/config.hpp'), ('data destructors', 'data_destruct of each type')],
     ['sanitizer heap accounting', 'use counts', 'contents after drops'], 'p_a04',
     RM + 'random object histories, heap-byte conservation and use-after-free monitors, ASan+UBSan', BASE_NOTE)

prop('A05', 'Access permissions are never widened',
     'No operation on a read-only or immutable array yields a writable path to its data: views keep at most the access of '
     'their source, and writing through them throws and leaves the data unchanged. Immutable data never changes for as '
     'long as it is referenced.',
     ['histories', 'inputs'], 'all view operations applied in any order to arrays of every access mode',
     'The tests probe a few operations; the guarantee is over all compositions.',
     ['include/dynd/array.hpp', 'src/dynd/array.cpp', 'src/dynd/buffer.cpp', 'src/dynd/view.cpp'],
     [('access flags', 'include/dynd/array.hpp')], ['nd::array::get_flags', 'assign and data() on views'], 'p_a05',
     RM + 'flag-lattice monitor and byte comparison over random view chains, ASan+UBSan', BASE_NOTE)

prop('A06', 'Missing values stay missing, present ones stay present',
     'Assigning between optional types keeps each element\'s presence and value; testing for missing reports exactly the '
     'elements that are missing; arithmetic and comparison on optional operands is missing exactly where an operand is. '
     'A missing value assigned to a non-optional type throws, and no present value is ever turned into a missing one '
     'silently.',
     ['inputs'], 'all optional value types, array lengths and patterns of missing elements',
     'Patterns of missing values x lengths are exponential; the tests use short fixed arrays.',
     ['include/dynd/types/option_type.hpp', 'src/dynd/types/option_type.cpp', 'include/dynd/option.hpp', 'src/dynd/option.cpp',
      'include/dynd/kernels/is_na_kernel.hpp', 'include/dynd/kernels/assign_na_kernel.hpp',
      'include/dynd/kernels/assignment_kernels.hpp', 'include/dynd/kernels/forward_na_kernel.hpp'],
     [('missing markers', 'include/dynd/types/option_type.hpp'), ('option assignment kernels', 'include/dynd/kernels/assignment_kernels.hpp')],
     ['nd::is_na', 'nd::assign_na', 'assignment and arithmetic on options'], 'p_a06',
     RM + 'three-valued reference model over random presence patterns, ASan+UBSan', BASE_NOTE)

prop('A07', 'Tuple and struct fields are independent',
     'Reading a field by name or position gives exactly that field\'s value, writing it changes only that field, and an '
     'unknown field throws. Assigning a struct matches fields by name whatever their order, and throws if a field is '
     'missing or extra; tuples match by position. A record type of unequal numbers of names and types is refused.',
     ['inputs'], 'all field counts, orders, names, types and nestings, in scalars and arrays',
     'Field orders and nestings are unbounded; the tests check small fixed structs.',
     ['src/dynd/types/struct_type.cpp', 'src/dynd/types/tuple_type.cpp', 'include/dynd/kernels/tuple_assignment_kernels.hpp',
      'src/dynd/kernels/tuple_assignment_kernels.cpp', 'src/dynd/access.cpp', 'src/dynd/array.cpp'],
     [('field lookup', 'src/dynd/types/struct_type.cpp get_field_index'), ('fieldwise assignment', 'tuple_assignment_kernels')],
     ['nd::array::p', 'nd::array::assign', 'nd::as_struct'], 'p_a07',
     RM + 'field-map model over generated structs, ASan+UBSan', BASE_NOTE)

prop('A08', 'Views, walks and copies keep the elements and their order',
     'Viewing an array as another type shows the same bytes in the same places, with the same permissions, kept alive by '
     'the view; a view that would change a shape, a size, an alignment or the meaning of references throws, except that '
     'view_scalars may cut a contiguous row of plain elements into plain elements of another size that fill it exactly. '
     'Asking for an '
     'array of a type gives the array itself when it already fits, otherwise a converted copy. Iterators visit each '
     'element (or each broadcast pair) exactly once in index order. A new array made like another keeps its axis order in '
     'memory, densely; the shape and stride helpers agree with their definitions.',
     ['inputs'], 'all shapes, strides, element types and target types',
     'Layouts x types are unbounded; the tests check a handful of views and contiguous walks.',
     ['src/dynd/view.cpp', 'src/dynd/asarray.cpp', 'src/dynd/array.cpp', 'src/dynd/shape_tools.cpp', 'include/dynd/array_iter.hpp',
      'include/dynd/with.hpp', 'include/dynd/types/fixed_dim_kind_type.hpp', 'src/dynd/types/fixed_dim_type.cpp',
      'src/dynd/types/substitute_shape.cpp'],
     [('old_view/try_view', 'src/dynd/view.cpp'), ('array_iter', 'include/dynd/array_iter.hpp'),
      ('reorder_default_constructed_strides', 'src/dynd/types/fixed_dim_type.cpp')],
     ['nd::array::view', 'nd::asarray', 'nd::with_1d_stride', 'array_iter', 'nd::empty_like', 'shape_tools.hpp'], 'p_a08',
     RM + 'address model of every element over generated layouts and target types, ASan+UBSan', BASE_NOTE)

prop('A09', 'Arrays hold the C++ values they are made from and give them back',
     'An array made from C++ values (scalars, text, bytes, types, pointers, C and standard arrays, vectors, nested lists '
     'with equal or unequal rows, tuples) has the type and shape of those values and holds a copy of exactly them; reading '
     'one back as the same C++ type gives the value, as another type what an assignment gives. Arrays asked for by shape '
     'have that shape; zeros, ones, concatenate, reshape and assignment to indexed values give the elements they should.',
     ['inputs'], 'all values, shapes (ragged ones included) and nestings of the supported C++ types',
     'Values, shapes and nestings are unbounded; the tests check short literals.',
     ['include/dynd/kernels/init_kernel.hpp', 'include/dynd/buffer.hpp', 'include/dynd/array.hpp', 'include/dynd/type.hpp',
      'include/dynd/types/tuple_type.hpp', 'include/dynd/types/fixed_dim_type.hpp', 'src/dynd/array.cpp'],
     [('init_kernel', 'include/dynd/kernels/init_kernel.hpp'), ('container_traits', 'include/dynd/type.hpp'),
      ('array::as', 'include/dynd/array.hpp')],
     ['nd::array constructors', 'nd::array::as', 'nd::empty', 'nd::zeros', 'nd::ones', 'nd::concatenate', 'nd::reshape',
      'nd::array::vals_at', 'buffer::get_shape'], 'p_a09',
     RM + 'value model of every C++ container over generated values and shapes, ASan+UBSan', BASE_NOTE)

prop('A10', 'Printed arrays show their elements',
     'The text an array prints as lists its elements in order, nested as its dimensions and fields are, each as its own '
     'value: numbers that read back to the same number, strings and bytes that decode to the same characters, NA for what '
     'is missing, and then its type. Elements are separated, and a run is left out only from a long dimension, where an '
     'ellipsis stands, between the first and the last elements. The layout of the memory makes no difference, any array '
     'can be printed, and printing changes nothing.',
     ['inputs'], 'all arrays of the printable types, in all sizes, shapes and layouts, and all widths of elements',
     'The tests print a dozen small arrays; how rows are packed and shortened depends on every length and width.',
     ['src/dynd/type.cpp', 'src/dynd/array.cpp', 'src/dynd/types/*.cpp', 'src/dynd/string_encodings.cpp'],
     [('summarized printing', 'strided_array_summarized'), ('values', 'print_builtin_scalar, print_data of every type')],
     ['operator<<(nd::array)', 'array memory'], 'p_a10',
     RM + 'an independent reader of the printed text compared with the memory of generated arrays, ASan+UBSan', BASE_NOTE)

prop('A11', 'A choice by mask holds exactly the chosen elements',
     'take with a mask of truth values gives a variable dimension that holds the elements where the mask is true, in their '
     'order and with their own type, whatever the element type and the memory layout of either; the result has memory of its '
     'own and stays the same when its source changes or goes away. A mask of another size, shape or type is refused. The '
     'source and the mask do not change, and no memory is left behind.',
     ['inputs'], 'all masks and all element types, in all layouts', 'The tests choose from two arrays of integers.',
     ['include/dynd/callables/take_dispatch_callable.hpp', 'include/dynd/kernels/take_kernel.hpp', 'src/dynd/index.cpp',
      'include/dynd/assignment.hpp'],
     [('run copying', 'masked_take_ck'), ('choice of the function', 'take_dispatch_callable')],
     ['nd::take', 'array memory'], 'p_a11',
     RM + 'chosen elements read from raw memory beforehand compared with the result, heap balance, ASan+UBSan', BASE_NOTE)

prop('A12', 'Whole arrays are equal exactly if type and elements are',
     'equals_exact is true if both arrays have the same type and each element of one equals the element of the other at its '
     'place, through all dimensions, rows and fields, and false otherwise; it never depends on the memory layout or on which '
     'array is asked, has an answer for any two arrays whose elements can be compared, and changes nothing.',
     ['inputs'], 'all pairs of arrays, equal or different in any one place, in all layouts', 'The tests compare about twenty pairs.',
     ['src/dynd/array.cpp', 'include/dynd/array_iter.hpp', 'src/dynd/not_equal.cpp', 'include/dynd/kernels/*equal_kernel.hpp'],
     [('comparison', 'nd::array::equals_exact')],
     ['nd::array::equals_exact', 'array memory'], 'p_a12',
     RM + 'pairs with the same or one different element compared by their raw memory, heap balance, ASan+UBSan', BASE_NOTE)

prop('S01', 'String functions agree with reference string semantics',
     'Finding, counting, replacing, splitting, prefix/suffix/containment tests, concatenation and comparison of strings give '
     'the same answer as the textbook definitions, for every content and length, elementwise over arrays.',
     ['inputs'], 'all strings over small and large alphabets, with repeats, overlaps, empty strings and embedded zero bytes',
     'Search algorithms fail on particular repeat structures; the tests use a few words.',
     ['include/dynd/string_search.hpp', 'src/dynd/string.cpp', 'include/dynd/string.hpp', 'include/dynd/kernels/string_*_kernel.hpp',
      'include/dynd/types/string_type.hpp'],
     [('search with bloom-filter skip', 'include/dynd/string_search.hpp')],
     ['nd::string_find, string_rfind, string_count, string_replace, string_split, ...'], 'p_s01',
     RM + 'std::string reference on repeat-heavy inputs in exact-size buffers, ASan+UBSan', BASE_NOTE)

prop('S02', 'Strings and byte strings hold exactly what was stored',
     'Strings and byte strings return exactly the bytes put in, through any history of assignment, append, resize, copy, '
     'move and swap, short or long, and elements of arrays of them are independent. Converting between string types and '
     'encodings keeps the code points, throws on what cannot be represented or does not fit, and never writes outside '
     'the destination.',
     ['histories', 'inputs'], 'all operation sequences and contents, around the short-string limit and fixed sizes',
     'Bugs sit at particular length transitions and histories; the tests try few.',
     ['include/dynd/types/sso_bytestring.hpp', 'include/dynd/types/string_type.hpp', 'include/dynd/bytes.hpp',
      'src/dynd/string_encodings.cpp', 'include/dynd/string_encodings.hpp', 'include/dynd/kernels/assignment_kernels.hpp',
      'src/dynd/types/fixed_string_type.cpp', 'src/dynd/types/char_type.cpp'],
     [('small-string storage', 'include/dynd/types/sso_bytestring.hpp'), ('encoders and decoders', 'src/dynd/string_encodings.cpp')],
     ['dynd::string, dynd::bytes', 'string assignment'], 'p_s02',
     RM + 'std::string shadow of random histories, independent UTF reference, ASan+UBSan', BASE_NOTE)

prop('S03', 'Numbers survive text in both directions',
     'Parsing decimal text gives exactly the number written (nearest for floating point), or throws if the text is not a '
     'number of that type or out of its range. Printing a number, or assigning an int32 to a fixed_string, gives text that '
     'parses back to the same number.',
     ['inputs'], 'all built-in numeric types, their boundary values and malformed text',
     'Range ends and malformed texts are unbounded; tests sample a few.',
     ['include/dynd/parse_util.hpp', 'src/dynd/parse_util.cpp', 'include/dynd/parse.hpp', 'src/dynd/parse.cpp',
      'include/dynd/kernels/assignment_kernels.hpp', 'include/dynd/kernels/parse_kernel.hpp'],
     [('number parsing', 'include/dynd/parse_util.hpp'), ('string assignment kernels', 'include/dynd/kernels/assignment_kernels.hpp')],
     ['assignment from and to string', 'parse<T>'], 'p_s03',
     RM + 'exact decimal reference over boundary-biased numbers and mutated text, ASan+UBSan', BASE_NOTE)

prop('J01', 'JSON text and arrays are inverse to each other',
     'Formatting an array as JSON and parsing the text back with the array\'s type gives equal data, and the text is valid '
     'JSON. Parsing any JSON text whose shape fits the type gives exactly the values in the text, independent of white '
     'space, escapes and field order.',
     ['inputs'], 'all values of types made of dimensions, structs, tuples, options, strings, booleans and numbers',
     'Nesting, escapes and numbers are unbounded; the tests use short documents.',
     ['src/dynd/json_parser.cpp', 'include/dynd/json_parser.hpp', 'src/dynd/json_formatter.cpp', 'include/dynd/kernels/parse_kernel.hpp',
      'include/dynd/callables/parse_callable.hpp', 'include/dynd/parse.hpp', 'src/dynd/parse.cpp'],
     [('parse callables', 'src/dynd/parse.cpp'), ('formatter', 'src/dynd/json_formatter.cpp')],
     ['ndt::json::parse / nd::parse_json', 'nd::format_json'], 'p_j01',
     RM + 'value-tree model with independent JSON writer and reader, ASan+UBSan', BASE_NOTE)

prop('J02', 'Any JSON input is either parsed or refused cleanly',
     'Parsing arbitrary bytes as JSON into any supported type either succeeds or throws: it never crashes, hangs, leaks, '
     'or reads outside the text. Text that is not valid JSON or does not fit the type is refused, and a refused parse '
     'leaves no half-owned memory; the line and column in the error are of the text.',
     ['inputs'], 'all byte strings, truncated and mutated documents, for many types',
     'The tests try a few malformed documents.',
     ['src/dynd/json_parser.cpp', 'include/dynd/kernels/parse_kernel.hpp', 'include/dynd/parse.hpp', 'src/dynd/parse.cpp'],
     [('token checks', 'src/dynd/parse.cpp')], ['ndt::json::parse / nd::parse_json'], 'p_j02',
     RM + 'mutated documents in exact-size heap buffers, strict JSON validity oracle, heap conservation, ASan+UBSan', BASE_NOTE)

prop('F01', 'Functions made from functions compute what they say',
     'A callable built by lifting, composing, currying arguments, reducing, taking the outer product or conditionally '
     'applying other callables returns what the definition says, for any inputs and nesting, with keyword and positional '
     'arguments bound to the right parameters. A call with wrong arguments throws before anything is written, and the '
     'callable can be used again afterwards.',
     ['inputs', 'programs'], 'all compositions of C++ functions, function objects, member functions and library callables',
     'Compositions nest without bound; the tests use one level.',
     ['src/dynd/functional.cpp', 'include/dynd/functional.hpp', 'include/dynd/callable.hpp', 'src/dynd/callable.cpp',
      'include/dynd/kernels/apply*.hpp', 'include/dynd/kernels/compose_kernel.hpp', 'include/dynd/kernels/kernel_builder.hpp',
      'include/dynd/kernels/outer_kernel.hpp', 'include/dynd/callables/*.hpp'],
     [('kernel building', 'include/dynd/kernels/kernel_builder.hpp'), ('call graph resolution', 'include/dynd/callables')],
     ['nd::functional::apply, elwise, compose, left_compound, right_compound, outer, where', 'nd::callable::operator()'], 'p_f01',
     RM + 'reference evaluation of generated compositions, construct/destruct counting, ASan+UBSan', BASE_NOTE)

prop('F02', 'Overload choice is the most specific match',
     'A callable with several overloads calls the one whose signature is the most specific that matches the argument types, '
     'whatever order they were added in; with no match it throws, and an ambiguous set of overloads is refused when it '
     'is built.',
     ['inputs', 'histories'], 'all sets and insertion orders of overload signatures, and all argument types',
     'The outcome depends on insertion order and set structure, which are factorial in number.',
     ['include/dynd/dispatcher.hpp', 'include/dynd/callables/multidispatch_callable.hpp', 'include/dynd/type_registry.hpp',
      'src/dynd/type_registry.cpp'],
     [('ordering by specificity', 'include/dynd/dispatcher.hpp')],
     ['dispatcher', 'nd::callable overloads'], 'p_f02',
     RM + 'reference specificity order over random overload sets and orders, ASan+UBSan', BASE_NOTE)

prop('F03', 'Sorting and searching respect the order',
     'Sorting leaves an array of ordered elements in ascending order with the same elements, for any length, strides '
     '(negative ones included) and duplicates, and touches nothing else; with elements that have no order among them (NaN) '
     'it still only permutes them. Binary search in a sorted array gives a position holding the sought value, or -1 when it '
     'is absent, and refuses a value of another type than the elements. The comparisons of two values of one type agree '
     'with each other and with the values.',
     ['inputs'], 'all lengths, strides, duplicates and element types',
     'Sort failures depend on data patterns and length; the tests sort a few short arrays.',
     ['src/dynd/sort.cpp', 'include/dynd/kernels/sort_kernel.hpp', 'src/dynd/search.cpp', 'include/dynd/kernels/binary_search_kernel.hpp',
      'include/dynd/callables/sort_callable.hpp', 'src/dynd/total_order.cpp', 'include/dynd/kernels/total_order_kernel.hpp'],
     [('sort kernel', 'include/dynd/kernels/sort_kernel.hpp'), ('binary search', 'include/dynd/kernels/binary_search_kernel.hpp')],
     ['nd::sort', 'nd::binary_search', 'nd::total_order'], 'p_f03',
     RM + 'multiset and order oracle with canaries between strided elements, ASan+UBSan', BASE_NOTE)

prop('F04', 'Generated arrays have the values asked for',
     'An integer range from start to stop by step (nd::range, nd::old_range) has exactly the elements of that progression '
     'that lie before stop, of the type asked for, also at the limits of the type; a floating point range over a whole '
     'number of steps has that many elements, each within rounding of its place; a zero step or a range without a finite '
     'number of elements is refused. An evenly spaced array (nd::old_linspace) has exactly its two end points and evenly '
     'spaced values between. Random arrays (nd::random::uniform) have the shape and type asked for, every element inside '
     'the interval asked for, and reach the whole of it; an empty interval of integers is refused.',
     ['inputs'], 'all starts, stops, steps, intervals, types and shapes',
     'Rounding at the end of a range and interval ends are value dependent.',
     ['src/dynd/range.cpp', 'include/dynd/callables/range_callable.hpp', 'include/dynd/kernels/range_kernel.hpp',
      'src/dynd/array_range.cpp', 'src/dynd/random.cpp', 'include/dynd/kernels/uniform_kernel.hpp', 'include/dynd/callables/uniform_callable.hpp'],
     [('range kernel', 'include/dynd/kernels/range_kernel.hpp'), ('uniform kernel', 'include/dynd/kernels/uniform_kernel.hpp')],
     ['nd::range', 'nd::old_range', 'nd::random::uniform'], 'p_f04',
     RM + 'progression model and interval/coverage monitors, ASan+UBSan', BASE_NOTE)

prop('M01', 'Memory blocks hand out separate, stable memory',
     'Memory obtained from a memory block is aligned, at least as large as asked, zeroed or constructed where promised and '
     'disjoint from every other live piece of it; growing a piece keeps its contents. Resetting releases everything handed '
     'out, for reuse; finalising does not disturb memory handed out before. Requests that cannot be satisfied are refused. '
     'Destroying the block frees all and destroys every element once. Strings and byte strings own their bytes likewise, an '
     'external object is freed once, and a mapped file shows the bytes of the range asked for.',
     ['histories'], 'all sequences of allocate, resize, finalise, reset and release for every block kind and element size',
     'Chunk boundaries are reached only by particular size histories.',
     ['include/dynd/memblock/*.hpp', 'src/dynd/memblock/*.cpp', 'include/dynd/types/sso_bytestring.hpp', 'include/dynd/bytes.hpp'],
     [('chunk management', 'include/dynd/memblock')], ['alloc/resize/finalize/reset of memory blocks', 'dynd::string, dynd::bytes'], 'p_m01',
     RM + 'shadow-interval and fill-pattern monitor over random allocation histories, ASan+UBSan', BASE_NOTE)

prop('M02', 'The C ABI manages types and buffers soundly',
     'Every object of the C interface is released exactly once, when its last reference is dropped, whichever of C and C++ '
     'takes and drops the references and in however many threads; static objects keep their count and are never released. '
     'A type made by the dense, sparse or tuple constructor describes its own block, lists its parameters in order without '
     'changing their counts, and aligns as its parameter or as the strictest of them. A buffer too large to allocate is '
     'refused. C and C++ agree on the layout of everything shared.',
     ['histories', 'inputs'], 'all retain/release histories and all nestings of constructed types',
     'No test touches the C interface; histories and nestings are unbounded.',
     ['include/dynd/abi/*.h', 'include/dynd/abi/types/*.h', 'src/dynd/abi/*.c', 'src/dynd/abi/*.cpp', 'src/dynd/abi/types/*.cpp'],
     [('reference counts', 'include/dynd/abi/refcount.h'), ('blocks and their release', 'src/dynd/abi/metadata.c'),
      ('type constructors', 'src/dynd/abi/types')],
     ['dynd_incref/dynd_decref', 'the vtables of types and type constructors', 'dynd_malloc_buffer'], 'p_m02',
     RM + 'reference-count model over random histories with C++, C11 and C99 clients; freed memory seen through ASan\'s shadow; '
     'ASan+UBSan', BASE_NOTE)

prop('C01', 'Types, arrays and callables can be shared between threads',
     'Threads that only read shared arrays, share, copy and drop references to the same types, arrays and callables, parse '
     'types and call library functions on their own data do not race: each gets the result it would alone, and shared '
     'objects are freed exactly once.',
     ['schedules'], 'all interleavings of such operations in several threads',
     'The tests are single-threaded.',
     ['include/dynd/config.hpp', 'include/dynd/types/base_type.hpp', 'include/dynd/memblock/base_memory_block.hpp',
      'src/dynd/types/datashape_parser.cpp', 'src/dynd/type_registry.cpp', 'include/dynd/callables/base_callable.hpp'],
     [('atomic reference counts', 'intrusive_ptr_retain/release'), ('static initialisation of tables', 'src/dynd/types/datashape_parser.cpp')],
     ['ThreadSanitizer reports', 'per-thread results'], 'p_tsan_c01',
     RM + 'ThreadSanitizer build under barrier-aligned stress with injected yields, result oracle', BASE_NOTE, build='tsan')
