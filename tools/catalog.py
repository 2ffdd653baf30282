"""The property catalogue: source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
def P(id, title, statement, over, text, why, files, mech, technique=None, level='other', note=None, na=None, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, level=level, note=note, na=na, observe=observe, state=state)
AI = 'abstract interpretation of LLVM IR (interval/known-bits/linear domain, trace partitioning) of obligations linked with the library'
CATALOG = [
P('P01', 'Numeric writes store the exact value or refuse',
  'Storing an integer or floating-point number through any generic numeric setter or collection inserter (integer, unsigned, float, number, 128-bit) either leaves in the field a value that reads back numerically equal to the argument (up to the documented rounding of a real number to the field\'s own type), or fails with an out-of-range error when the value does not fit the field\'s type, or with a type-mismatch error when the field is not of a suitable numeric type. It never wraps, truncates or changes sign, and it never refuses a value that is within the documented safe range of the field\'s type.',
  ['inputs'], 'every numeric setter and inserter, every field type, every non-NaN finite argument',
  'the failing values are single boundary points in 2^64 or 2^128 arguments times field types times entry points; tests sample a few',
  ['fast_positive/tuples/details/rw.h', 'src/rw.cxx', 'fast_positive/tuples/details/meta.h'],
  [('range check before narrowing', 'tuple_rw::accessor_rw::set_number/set_integer/set_unsigned/set_float/set_int128, tuple_rw::insert_*'), ('float round-trip test', 'is_safe_roundtrip')],
  AI, note='every entry point x every numeric field type x the whole argument range, decided on the lowered code'),
P('P02', 'Numeric reads return exactly the stored value or refuse',
  'Reading a numeric field through any numeric getter (by exact type, as signed, unsigned, 128-bit, float, or as a double) returns a value numerically equal to what was stored, in a tuple under construction as well as in the finished tuple. A getter that does not accept the field\'s type fails with a type mismatch, and reading an integer as a double fails with an out-of-range error rather than rounding.',
  ['inputs'], 'every numeric getter, every field type, every stored value',
  'the failing values are isolated boundaries (2^53, 2^63, sign changes) in a 2^64 space for each getter and field type',
  ['fast_positive/tuples/details/getter.h', 'fast_positive/tuples/details/rw.h', 'fast_positive/tuples/details/ro.h'],
  [('type dispatch and range check', 'crtp getters: get_integer, get_unsigned, get_float, get_number_as_ieee754double, get_int128'), ('field value read', 'genus_traits<>::read')],
  AI, note='every getter x every numeric field type x the whole stored range'),
P('P03', 'Field identifiers keep their parts and refuse invalid ones',
  'A field identifier made from a type, an id or a fixed offset, and flags (collection, discernible NULL, saturation) reports back exactly those parts, and classifies the type correctly (variable-length, integer, unsigned, float, number); one made at compile time for a member of a structure stands for its offset, type and size. An id, offset or type beyond the limits is refused with an invalid-argument error. Identity ignores the flags while equality does not, and the order is strict and total over identities, with fixed-offset identifiers before the others.',
  ['inputs'], 'every type x id x offset x flags, valid or not',
  'the identifier packs five parts into 32 bits; a wrong shift or mask shows only for particular combinations out of 2^32',
  ['fast_positive/tuples/details/field.h', 'fast_positive/tuples/token.h', 'fast_positive/tuples/details/meta.h'],
  [('packing', 'make_tag, tag2genus, tag2id, tag2offset'), ('validation', 'token constructors'), ('classification', 'is_stretchy, is_integer, is_number ...')],
  AI, note='every type and flag combination, whole id/offset ranges'),
P('P04', 'Typed fields keep their value and do not disturb others',
  'A value stored by the typed setter of any fixed-size type (integers, floats, boolean, enumeration, date-time, decimal, MAC, IP address and network, UUID and binaries of 96 to 512 bits) reads back bit for bit by the getter of that type, from the tuple under construction and from the finished tuple, in a loose field as well as in a schema-defined one; other fields keep their values; access through a reference obtained by tuple[identifier] does the same. A typed setter or getter applied to a field of any other type fails with a type mismatch and changes nothing.',
  ['inputs'], 'every fixed-size type, every value, both kinds of place, every pair of setter and field type',
  'the storage is per-type template code with sizes, offsets and masks of its own; a wrong width or offset shows only for particular values and neighbours',
  ['fast_positive/tuples/details/meta.h', 'fast_positive/tuples/details/rw.h', 'fast_positive/tuples/details/getter.h', 'src/tablets.cxx'],
  [('storage', 'genus_traits<>::read/write, inplaced/unit_1/unit_2/unit_n'), ('type check', 'accessor_ro::get, tuple_rw::assign_field_value')],
  AI, note='31 types x places x the whole value range'),
P('P05', 'Absent, empty and erased fields behave as documented',
  'Whether a field is present, what reading it gives, and what storing an empty or NIL value does follow the documented table: a field that discerns NULL reports absence by an error on reading and keeps empty values as values (a schema-defined fixed-size field takes its dedicated NIL value as absence); a field that does not discern NULL reads as zero or empty when absent and becomes absent when zero or empty is stored (a schema-defined fixed-size one is always present). Erasing a present field makes it absent and reports success, erasing an absent one reports failure; neither touches any other field.',
  ['inputs', 'histories'], 'every storable type x place x NULL mode x {fresh, stored, stored empty, stored NIL, erased, erased again, stored again}',
  'the table has about 120 cells (type, place, mode) and each cell is a different path; tests visit a few of them',
  ['fast_positive/tuples/token.h', 'fast_positive/tuples/details/getter.h', 'fast_positive/tuples/details/rw.h', 'src/tablets.cxx', 'fast_positive/tuples/details/meta.h'],
  [('absence test', 'accessor_ro::exist, field_preplaced::is_null, genus_traits<>::is_denil/is_empty'), ('erasure', 'tuple_rw::erase, genus_traits<>::erase')],
  AI, note='all cells of the documented table'),
P('P06', 'Variable-length values keep length and content or are refused',
  'A text, binary, property or nested tuple of any length the format can hold reads back with the same length and bytes from a tuple under construction and from the finished one, by identifier or through a structure laid over the fixed-offset part, whether in a loose field, a schema-defined field or a collection element, and occupies exactly the space its length demands. A longer value is refused with a too-long error and nothing changes.',
  ['inputs'], 'every length from 1 to the limit of the type, and every longer one; every byte position',
  'lengths are coded in 1 or 3 bytes with a parity trick, or as units plus a tail; errors hide at isolated lengths out of 2^18',
  ['fast_positive/tuples/details/field.h', 'fast_positive/tuples/details/meta.h', 'fast_positive/tuples/details/rw.h'],
  [('length coding', 'stretchy_value_string, stretchy_value_varbin, stretchy_value_property, stretchy_value_tuple'), ('limit check', 'estimate_space')],
  AI, note='the whole range of lengths, symbolic'),
P('P07', 'A schema never confuses two fields and lays them out as documented',
  'Fields of the built-in types defined in or imported into a schema are found by name and by identifier exactly as defined; fixed-offset fields follow one another aligned and never overlap, other fields get the next free id of their type, and a new or reset tuple starts with the initial values given in the definitions. A definition with an invalid type, a name over 42 bytes, a name or identifier already taken, an overlap with another field, or beyond the limit of 1024 ids of a type is refused with an error and leaves the schema as it was. Looking up by name, by identifier, by offset (exact, next, previous) or by a stored field finds the right definition and nothing for the others.',
  ['inputs', 'histories'], 'pairs and short sequences of definitions over all built-in types, places, flags, names around the limit, offsets; every lookup against up to nine fields',
  'collisions depend on the combination of types, offsets and order of definitions, the lookups are hand-unrolled binary searches',
  ['src/schema.cxx', 'fast_positive/tuples/schema.h'],
  [('validation and bookkeeping', 'schema_impl::add_definition, is_crossing, is_overlapped'), ('placement', 'define_preplaced, get_next_loose_id'), ('lookup', 'search_preplaced, by_loose, get_token_nothrow, get_name_nothrow')],
  AI, note='the real schema code including its containers; sequences of up to nine definitions'),
P('P08', 'Editing never loses, mixes up or leaks fields',
  'Through any sequence of storing, growing, shrinking and erasing fields, with ample or scarce space, every field keeps exactly the length and bytes last stored in it, exactly the stored fields are present, and the space taken is that of the stored fields plus the junk the tuple reports. Compaction and index sorting change nothing but the reported junk, which becomes zero, and erasing everything gives all the space back. An operation refused for lack of space leaves every field and the accounting as they were.',
  ['histories'], 'histories of three to six operations over up to four variable-length fields (loose and fixed-offset mixed), several lengths, index or data space ample, scarce or exhausted',
  'the bugs are in particular orders of releasing and reusing neighbouring pieces of memory, with particular sizes and no room to spare',
  ['src/gear.cxx', 'fast_positive/tuples/details/rw.h'],
  [('space management', 'gear::alloc_loose, alloc_data, release_loose, release_data, realloc_data, merge_holes, trim_hole'), ('compaction', 'gear::compactify'), ('sorting', 'gear::sort')],
  AI, note='bounded histories, contents symbolic; holes above 2047 units are excluded (see the known finding)'),
P('P09', 'Self-growing tuples, copies and moves lose nothing and leak nothing',
  'A self-growing tuple accepts fields of every type up to the size limit of a tuple with every field stored so far intact, and beyond that limit, or when memory runs out, refuses with an error and keeps everything as it was, just as a tuple with fixed room does once it is full. Every form of creating or cloning, with explicit room, a scale or the defaults, yields the schema and room asked for; a clone equals its source (fields, junk account, schema) and is independent of it; a move leaves the source empty; a buffer shared by several owners is copied before it is modified and one owned exclusively is taken over in place; a nested managed tuple keeps its parent\'s buffer alive. Taking or cloning with optimization switched off leaves the holes in place, and once the last owner is gone all memory is released exactly once.',
  ['histories', 'fault_sequences'], 'growth by every kind of field, one by one and in big steps, in managed and in plain memory; clones, moves, assignments and nested references in short sequences; failure of each allocation',
  'losing data on growth, sharing a buffer by mistake or freeing it twice depends on how many owners there are and on where the buffer happens to be full',
  ['src/autogrowth.cxx', 'src/managed.cxx', 'src/rw.cxx', 'fast_positive/tuples.h', 'src/1Hippeus/buffer.cxx'],
  [('growth', 'tuple_rw_managed and the retry in autogrowth.cxx'), ('ownership', 'hippeus::buffer reference counter, tuple_ro_managed, tuple_rw_managed'), ('copying', 'tuple_rw::clone, take_managed_clone')],
  AI, note='bounded histories, contents symbolic, allocation counted by the model of malloc/free'),
P('P10', 'Untrusted bytes are validated strictly and without reading outside them',
  'Validating arbitrary bytes as a tuple never reads outside the given bytes, never raises or terminates, and accepts exactly the well-formed tuples: the size in the header matches, every field\'s payload lies inside the data area, payloads neither overlap nor leave gaps that are not accounted as holes, lengths fit their type, the sorted mark is true, and with a schema the fixed-offset part fits it. Whatever validation accepts can be read by every getter within those bytes. Every constructor and function that takes a tuple from raw bytes, including cloning and the C interface, refuses malformed ones.',
  ['inputs'], 'all headers and sizes; tuples of one to four pieces with symbolic tags, offsets and lengths; with and without a schema',
  'a malformed tuple that is accepted differs from a good one by a single offset or length out of billions; tests hold only a few good samples',
  ['src/audit.cxx', 'src/ro.cxx', 'src/rw.cxx', 'fast_positive/tuples/details/ro.h', 'fast_positive/tuples/details/audit.h'],
  [('audit', 'tuple_ro::audit, tuple_rw::audit and the sweep over the sorted pieces in audit.cxx'), ('admission', 'constructors of tuple_ro_weak, tuple_ro_managed, tuple_rw_fixed, tuple_rw_managed; fptu_check_ro')],
  AI, note='contents of nested tuples are validated on their own and not by their parent; string-pool fields are not implemented by the library'),
P('P11', 'Collections and field iterators visit every stored element exactly once',
  'Whatever elements were inserted into a collection, erased from it one by one, by range or as a whole, or rewritten, iterating over it visits each remaining element exactly once and nothing else, in a tuple under construction (compacted or not) as well as in the finished one (index sorted or not), and the other fields stay as they were. Iterating over all fields of a finished tuple yields the present fixed-offset fields in the order of their offsets and then every loose one, backward the exact reverse, each with its own type, identifier and value; the iterators keep the algebra of random access (distance, offset, comparison, postfix forms). Accessing a collection as a single field or the other way around is refused.',
  ['histories', 'inputs'], 'collections of up to four elements of seven kinds between other fields, every subset erased, every order of the index; fields present and absent in every combination',
  'skipping or repeating an element needs a particular order of index entries, holes and neighbours of the same type or identifier',
  ['fast_positive/tuples/details/getter.h', 'fast_positive/tuples/details/ro.h', 'fast_positive/tuples/details/rw.h', 'src/gear.cxx', 'src/rw.cxx'],
  [('collection iteration', 'crtp collections, fptu::details::next'), ('field iteration', 'field_iterator_ro, loose_iterator_ro'), ('erasing through iterators', 'tuple_rw::erase')],
  AI, note='up to four elements; the iteration step itself does not depend on their number'),
P('P12', 'Searching the index finds the first match on every processor',
  'Searching the index of a tuple for a type and id gives the first entry that has exactly that type and id, or nothing if there is none, whatever the other entries are and however many there are; every processor-specific variant gives the same answer, and the chosen variant is one that the processor supports. The search touches only the memory pages that hold the index.',
  ['inputs', 'configurations'], 'every kernel, index sizes 0..40 and several up to the limit, arbitrary entries, match at each place or nowhere, any distance from a page boundary, every combination of processor features',
  'tests run only the variant of the machine at hand; a wrong mask or tail shows for particular sizes, alignments and values',
  ['src/scan_portable.cxx', 'src/scan_SSE2.cxx', 'src/scan_AVX.cxx', 'src/scan_AVX2.cxx', 'src/scan_ifunc.cxx', 'fast_positive/tuples/details/scan.h'],
  [('kernels', 'fptu_scan_unroll, fptu_scan_SSE2, fptu_scan_AVX, fptu_scan_AVX2'), ('dispatch', 'fptu_scan_resolver'), ('use', 'fptu::details::lookup, next')],
  AI, note='entries are symbolic; sizes above 40 are sampled at the unrolling boundaries'),
P('P13', 'The C interface stores, finds and copies fields faithfully',
  'Through the C functions every kind of value (integers, floats, boolean, date-time, 96 to 256 bit binaries, text, opaque, nested) stored by upsert, insert or update reads back exactly by the getter of its kind and as a raw byte range; upsert and update leave one field, insert adds one, and other columns and types are not touched. Lookup, counting, iteration and erasing, by type, type filter or filter function, concern exactly the live fields that match; erasing by type removes one, by filter all. Fetching a serialized tuple, with or without holes, into a buffer of the estimated size gives an equal modifiable tuple with the room asked for, and comparison is lexicographic over unsigned bytes.',
  ['inputs', 'histories'], 'all sixteen kinds, arbitrary scalar values, up to three elements with bystanders of the same type and of the same column, every subset erased',
  'the functions are generated by macros, one per kind; a slip in one of them shows for that kind and particular values only',
  ['src/compat_rw.cxx', 'src/compat_ro.cxx', 'src/compat_field.cxx', 'src/compat_common.cxx', 'fast_positive/tuples/legacy.h'],
  [('storing', 'fptu_upsert_*, fptu_insert_*, fptu_update_*'), ('reading', 'fptu_get_*, fptu_field_*, fptu_field_as_iovec'), ('searching', 'fptu_lookup_*, fptu_first, fptu_next, fptu_field_count_*, fptu_erase'), ('copying', 'fptu_fetch, fptu_fetch_ex, fptu_take'), ('comparing', 'fptu_cmp_*')],
  AI, note='values given to a function whose parameter is wider than the field are restricted to those that fit'),
P('P14', 'The C interface reports failures by code and changes nothing then',
  'A C function that cannot do what it is asked returns the error code that says why (no such field, no space, otherwise invalid argument), also as the last error of the thread, or a null pointer or zero size from functions that have no code, and leaves the tuple and its account of space as they were; no exception leaves the interface. This covers absent fields, a field of another type, columns beyond the limit, no room left, values too long, malformed nested tuples or envelopes, and buffers too small or too large, in which nothing is written then outside the buffer. A getter reports success by the zero code and works without a place for the code.',
  ['inputs', 'fault_sequences'], 'all sixteen kinds x upsert, insert, update, both kinds of getter x each cause of failure; every buffer size up to 64 bytes, around the needed size and beyond the limit; failure of allocation',
  'error paths are hardly visited by tests, and each of the macro-generated functions has its own',
  ['src/compat_rw.cxx', 'src/compat_ro.cxx', 'src/compat_field.cxx', 'src/compat_common.cxx', 'src/rw.cxx'],
  [('error translation', 'fptu_set_error, error_guard'), ('admission', 'fptu_init, fptu_alloc, fptu_fetch, fptu_fetch_ex, fptu_check_and_get_buffer_size')],
  AI, note='an exception that reaches a noexcept boundary is a violation in the model'),
P('P15', 'Threads can share tuples, schemas and buffers',
  'Reading, searching, iterating, validating or copying a tuple or a schema, through the C++ classes or the C functions, changes nothing that other threads can see: neither the tuple, its buffer and its schema nor library-wide state, so any number of threads may do so at once. Copies of a managed read-only tuple may be made, assigned, moved, turned into a modifiable tuple and released by different threads in any interleaving: each owner keeps seeing the same values, and the buffer is released exactly once, by the last owner. The last error reported by the C interface is that of the calling thread only.',
  ['schedules', 'inputs'], 'every reading operation on every field type, loose and fixed-offset, in tuples under construction, finished, weak and managed; all interleavings of two (thorough: three) owners at each access to the reference counter, six actions each',
  'a lost update of the counter or a hidden cache needs two threads within a few instructions of each other; single-threaded tests cannot see it',
  ['src/1Hippeus/buffer.cxx', 'fast_positive/tuples/1Hippeus/buffer.h', 'fast_positive/tuples.h', 'src/managed.cxx', 'src/compat_common.cxx', 'src/compat_field.cxx', 'src/schema.cxx', 'fast_positive/tuples/details/getter.h'],
  [('reference counting', 'hippeus::buffer::add_reference, detach, is_alterable'), ('ownership', 'tuple_ro_managed, tuple_rw_managed'), ('error state', 'fptu_set_error, fptu_last_error_code'), ('readers', 'const members of the tuple and schema classes, fptu_get_*, fptu_field_*')],
  'write-effect analysis of every reading operation and exhaustive interleaving of the counter accesses, both by ' + AI, note='sequentially consistent interleavings; weaker memory orders are not modelled'),
P('P16', 'Points in time are converted, compared and taken from the clock exactly',
  'Making a point in time from seconds, milli-, micro-, nano- or 100-nanosecond units, or from the structures of the system, keeps whole seconds exactly and rounds the fraction down to 1/2^32 of a second; converting a fraction back to milli-, micro- or nanoseconds rounds down; equality and order are those of the moments. The current time is that of the system clock: the coarse clock is used only if the requested grain in nanoseconds is not finer than its resolution, and a negative grain clears exactly that many low bits of the fraction. A wide date-time field keeps the moment exactly, a narrow one its whole seconds.',
  ['inputs', 'configurations'], 'every second and sub-second value of each unit, any two moments, any readings of the clocks, several resolutions and grains around them, every number of cleared bits',
  'a wrong constant, shift or rounding shows for particular fractions only; the clock of the test machine has one resolution and cannot be set',
  ['fast_positive/tuples/types/datetime.h', 'src/time.cxx', 'src/getter.cxx', 'fast_positive/tuples/details/field.h'],
  [('conversion', 'datetime_t constructors, from_*, *2fractional, fractional2*'), ('clock', 'fptu_now, fptu_now_fine, fptu_now_coarse, fptu_clock_init'), ('fields', 'set_datetime, get_datetime for t32 and t64')],
  AI, note='seconds within the range of the type (1970..2106)'),
P('P17', 'String views, type names and errors mean what they say',
  'String views are ordered by length first and then by their bytes taken as unsigned, a nil view coming before the empty one; views are equal exactly if neither is before the other and then have the same hash, and comparison with standard strings agrees. Conversion from and to standard strings and views keeps the bytes and the length, access by position refuses positions outside the view with an out-of-range error, and hexadecimal text has two lowercase digits per byte, high digit first. Every field type has its own name, every error has its own exception class derived from the documented standard one, and the insufficient-space errors tell how much was short.',
  ['inputs'], 'pairs of views with arbitrary bytes and lengths up to three, longer ones (up to twenty) differing in any one place, every position, every byte, every field type, every exception class',
  'an ordering slip shows for bytes above 127, prefixes or nil only; messages and names are never compared by tests',
  ['fast_positive/tuples/string_view.h', 'src/misc.cxx', 'src/except.cxx', 'fast_positive/tuples/details/exceptions.h'],
  [('views', 'fptu::string_view'), ('text', 'std::to_string overloads, hexadecimal output, genus names'), ('errors', 'exception classes and their throw_* functions')],
  AI, note='bytes symbolic, lengths bounded'),
P('P18', 'Managed buffers, their guards and memory helpers keep their promises',
  'A borrowed buffer has at least the room asked for, all of it usable, and a zero or excessive size or an unknown allocator is refused; the tag of a buffer gives back the parts it was made of, and a tagged pointer gives back its pointer and its tag. The integrity check accepts an intact buffer and rejects one with a guard zeroed, set to all ones, inconsistent or revoked, with a non-positive owner counter, or without a host. Polluting memory changes exactly the given range and doing it twice with the same mask restores it; the test for zeros looks at exactly the given range; rounding a size gives the least permitted size that is not smaller.',
  ['inputs', 'fault_sequences'], 'every size and alignment up to several words and around each size class, every byte position, every way a guard can be damaged, the whole range of tags and pointers',
  'a helper that handles a tail or an alignment wrongly damages neighbours only for particular sizes and addresses',
  ['src/1Hippeus/buffer.cxx', 'src/1Hippeus/utils.cxx', 'fast_positive/tuples/1Hippeus/buffer.h', 'fast_positive/tuples/1Hippeus/hipagut.h', 'fast_positive/tuples/details/tagged_pointer.h', 'fast_positive/tuples/details/utils.h'],
  [('buffers', 'hippeus::buffer::borrow, check, ensure; buffer_tag'), ('guards', 'hipagut'), ('helpers', 'pollute, is_zeroed, utils::ceil/floor, tagged pointers')],
  AI, note='the time stamp that seeds guards is a constant in the model'),
P('P19', 'Arithmetic, byte-order and allocation building blocks are exact',
  'Byte-order conversions give the bytes of every integer in the stated order and are their own inverse; an addition with carry gives the low 64 bits and a carry exactly when the sum does not fit; a wide product gives all 128 bits; the count of leading zeros is exact for every non-zero number, and the branchless absolute value for every integer. An allocation arena hands out aligned, disjoint pieces inside its buffer, takes from the heap (or refuses, if not allowed to) exactly what does not fit, and takes back the last piece given. The guarded allocator gives room for all elements and notices on release that the guard before or behind them was overwritten with zeros or ones.',
  ['inputs', 'histories'], 'every value of 8 to 64 bits for byte orders and absolute values, every position of the highest one, carries and products at all boundaries of 32 and 64 bits, all triples of sizes of a set and all pairs of arbitrary sizes',
  'a wrong shift or carry shows only for operands at particular boundaries, and a wrong account of an arena only when it is nearly full',
  ['fast_positive/erthink/erthink_bswap.h', 'fast_positive/erthink/erthink_endian.h', 'fast_positive/erthink/erthink_carryadd.h', 'fast_positive/erthink/erthink_mul.h', 'fast_positive/erthink/erthink_clz.h', 'fast_positive/erthink/erthink_misc.h', 'fast_positive/erthink/erthink_short_alloc.h', 'fast_positive/tuples/1Hippeus/hipagut_allocator.h'],
  [('byte order', 'erthink::bswap, h2be, be2h, h2le, le2h'), ('arithmetic', 'add64carry_*, mul_64x64_128, clz32/64, branchless_abs'), ('allocation', 'allocation_arena, short_alloc, hipagut_std_allocator')],
  AI, note='carries and products are decided for one symbolic operand or at the boundaries of both, not for all pairs'),
]
NOT_APPLICABLE = [
P('N01', 'Decimal text of real numbers is the shortest that reads back equal',
  'The decimal text made for a double-precision number reads back as the same number and no shorter text does.',
  ['inputs'], 'every finite double',
  'the failing values are isolated mantissa/exponent pairs', ['fast_positive/erthink/erthink_d2a.h'],
  [('digit generation', 'erthink::d2a, grisu')],
  na='the claim rests on an error bound of a non-linear 128-bit computation over 2^64 inputs with tables; no interval or known-bits argument can bound it, and enumerating inputs would be running the code, not analysing it'),
P('N02', 'Printed and diagnostic text describes the value',
  'Streaming or converting to a string a token, a field, a tuple, a schema or an error yields text that describes exactly that object.',
  ['inputs'], 'every object that can be printed',
  'text for unusual flags and sizes is never printed in tests', ['src/debug.cxx'],
  [('printing', 'operator<<, std::to_string')],
  na='there is no specification of the text beyond the code that makes it, and the work is done inside the standard stream library, whose buffers and locales the analysis does not model'),
P('N03', 'JSON import and export agree with the tuple',
  'A tuple written as JSON and read back under the same schema is the same tuple.',
  ['inputs'], 'every tuple and schema', 'round trips fail for particular values only', ['src/TODO/json_emit.cxx'],
  [('conversion', 'src/TODO/json_emit.cxx, not part of the build')],
  na='the file is set aside as a TODO, is not built and does not match the present interface; there is no code in the library to decide'),
P('N04', 'Arbitrarily long histories of changes keep a tuple valid',
  'After any number of changes a tuple under construction still passes its own audit and holds exactly the fields last stored.',
  ['histories'], 'histories of any length over tuples of any size',
  'a corruption may need a long particular sequence', ['src/rw.cxx', 'src/gear.cxx'],
  [('heap of the builder', 'tuple_rw::allocate, realloc, compactify')],
  na='an inductive invariant of the builder (holes, their list, junk and the index in one buffer) relates every descriptor to every other; the domain of this framework has no quantified array invariants, so histories are decided up to the bounds of P05 to P08 only'),
P('N05', 'Reference counts are right under every weak memory order',
  'On processors with weaker ordering than x86 the release of the last reference still happens after every use.',
  ['schedules', 'configurations'], 'all memory orders the standard allows',
  'such reorderings are not seen on x86 hosts', ['src/1Hippeus/buffer.cxx'],
  [('counter', 'buffer::add_reference, release')],
  na='interleavings in P15 are sequentially consistent; the code uses the default (strongest) order throughout, and a model of weaker orders is out of reach of this engine'),
]
