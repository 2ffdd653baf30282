"""Which harness / rules decide which property."""
import rules

TRUST = [
    'clang 18 lowers the sources to LLVM IR faithfully (flags taken from the project\'s own cmake configuration: RelWithDebInfo, NDEBUG)',
    'the transfer functions of the abstract interpreter (vp/dom.py, vp/interp.py) over-approximate LLVM IR semantics',
    'libstdc++ / libc callees are modelled (allocation, memcpy family, exception objects); unknown externals make a trace inexact, and an inexact trace never yields a violation',
    'NaN and infinities are out of scope: the project is built with -ffast-math',
]

AI = 'abstract interpretation of the linked IR (library + obligations): intervals, known bits and linear forms over all inputs of a cell, trace partitioning, no solver, nothing executed; '

PROPS = {
    'P01': dict(harness=[dict(files=['numeric_write.cpp'])],
                explain=AI + 'every polymorphic numeric setter/inserter x every numeric field type x the whole value range, cut into cells at the type boundaries'),
    'P02': dict(harness=[dict(files=['numeric_read.cpp'])],
                explain=AI + 'every numeric getter x every field type x the whole stored-value range, tuples under construction and finished ones'),
    'P03': dict(harness=[dict(files=['tags.cpp']), dict(files=['members_id.cpp'])],
                explain=AI + 'every field type x flags x the whole id/offset range: what goes into an identifier comes out, invalid parts are refused, equality and order; identifiers made at compile time for members of a structure'),
    'P04': dict(harness=[dict(files=['values.cpp']), dict(files=['members_fixed.cpp']), dict(files=['accessor.cpp'])],
                explain=AI + 'typed setter and getter of every fixed-size type x loose/preplaced x discernible or not x every value; refusal of every other type; the same through references obtained by tuple[identifier]'),
    'P05': dict(harness=[dict(files=['null.cpp'])],
                explain=AI + 'every storable type x loose/preplaced x discernible or not: fresh, written, written empty, written NIL, erased, erased twice, rewritten'),
    'P06': dict(harness=[dict(files=['stretchy.cpp']), dict(files=['members_stretchy.cpp'])],
                explain=AI + 'text, varbin, property, nested: the whole range of lengths (symbolic), contents at symbolic positions, loose/preplaced/collection element, under construction and finished'),
    'P07': dict(harness=[dict(files=['schema.cpp'])],
                explain=AI + 'definitions of every built-in type in every place, names around the limit, imports at every relative offset, lookups against up to nine fields'),
    'P08': dict(harness=[dict(files=['gear.cpp']), dict(files=['compact.cpp']), dict(files=['hole.cpp'], optional=True)],
                explain=AI + 'histories of storing, growing, shrinking, erasing, compacting and sorting with ample, scarce and exhausted index or data space; symbolic contents, a model of the fields beside the tuple'),
    'P09': dict(harness=[dict(files=['managed.cpp']), dict(files=['managed_types.cpp']), dict(files=['managed_forms.cpp'])],
                explain=AI + 'self-growing tuples in managed and in plain memory, clones with and without validation, moves, sharing of buffers, nested tuples, exhausted memory; every setter and inserter of every type on self-growing and fixed-room tuples with a full index, full data or both; every form of creating and copying (explicit room, scale, defaults); every allocation accounted for'),
    'P10': dict(harness=[dict(files=['validate.cpp'])],
                explain=AI + 'tuples given as raw bytes: symbolic headers, descriptors, offsets and lengths, one to four pieces, with and without a schema; the verdict compared with an independent definition of well-formedness, every access inside the given bytes; every entry that admits raw bytes'),
    'P11': dict(harness=[dict(files=['iterate.cpp'])],
                explain=AI + 'collections of up to four elements of several types among other fields: insertion, traversal, erasing by iterator, by range, as a whole, rewriting; field iterators over schema-defined and loose fields; iterator algebra'),
    'P12': dict(harness=[dict(files=['scan.cpp'])],
                explain=AI + 'each search kernel (portable, SSE2, AVX, AVX2) over indexes of all small and several large sizes, at page boundaries, arbitrary entries, match at each place or nowhere; the choice of the kernel for every set of processor features; memory accesses against page-exact objects'),
    'P13': dict(harness=[dict(files=['capi.cpp']), dict(files=['capi_misc.cpp'])],
                explain=AI + 'every function of the C interface that stores, reads, searches, counts, erases, copies or compares, over all sixteen field kinds with bystanders of the same column and of the same type'),
    'P14': dict(harness=[dict(files=['capi_err.cpp'])],
                explain=AI + 'the same functions on absent fields, fields of another type, bad columns, no room, values too long, malformed nested tuples and envelopes, unsuitable buffers, exhausted memory: code, last error, unchanged tuple, no exception out'),
    'P15': dict(harness=[dict(files=['threads.cpp']), dict(files=['threads_c.cpp'])], analyses=[rules.library_state],
                explain=AI + 'every reading operation (typed and numeric getters, traversal, lookups, validation, copying, the C getters) after the point of sharing: a write effect on memory that existed before, or on library-wide state, is a violation; two (thorough: three) owners of one buffer, each with one of six actions, interleaved at every access to the reference counter'),
    'P16': dict(harness=[dict(files=['time.cpp'])],
                explain=AI + 'every conversion between units of time and 32.32 fixed point over whole ranges, order and equality of any two moments, the clock functions against arbitrary readings and resolutions of the system clocks, date-time fields of both widths'),
    'P17': dict(harness=[dict(files=['strings.cpp'])],
                explain=AI + 'string views of symbolic contents and lengths, pairwise comparison against the definition, conversions, hash, element access at every position, hexadecimal text; names of all types; every exception class and its base'),
    'P18': dict(harness=[dict(files=['hippeus.cpp'])],
                explain=AI + 'every size class of buffers, every way to damage a guard or the counter, pollution and zero tests over ranges of symbolic position and alignment, tags of buffers and tagged pointers over their whole ranges'),
    'P19': dict(harness=[dict(files=['erthink.cpp']), dict(files=['erthink_plain.cpp'])],
                explain=AI + 'byte orders of integers of every width with symbolic value, carries and wide products around every boundary in both forms the preprocessor selects, leading zeros for every position of the highest one, absolute values over whole ranges, arenas over triples of sizes and arbitrary pairs of sizes, guarded allocations with every kind of overrun'),
}
