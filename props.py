prop("C01", "Integer to text writes exactly the number's canonical digits",
 "For every integer value of every standard width and signedness, and every supported radix, writing it to a large enough buffer produces exactly the positional representation of that value: the minus sign if negative, the radix prefix, the requested leading zeros and then the digits, nothing more. The returned count is exactly the number of characters written. Zero, the most negative value and the largest value are no exception.",
 ["inputs"], "all values of all 8/16/32/64-bit integer types, radixes 2, 8, 10, 16, any requested digit count, any buffer length",
 "Tests tabulate a few hundred values per type; a two-digit table entry or a power boundary wrong for one value in 2^64 is invisible to them.",
 ["src/c4/charconv.hpp"],
 [("digit counting", "charconv.hpp digits_dec/hex/oct/bin"), ("unchecked writers", "charconv.hpp write_dec_unchecked & co"), ("signed writers", "charconv.hpp itoa, _itoa*")])
prop("C02", "Writing functions never touch memory outside the given buffer",
 "No serialization function stores a byte before the start or past the end of the destination buffer it is given, whatever the buffer's length (including zero) and whatever the value, radix, padding, precision or argument list. When the output does not fit, the destination is left within bounds and the function reports it through its return value.",
 ["inputs"], "all buffer lengths from zero, all values and format parameters, all serializable built-in types, concatenation, separated concatenation and formatting",
 "Tests run with a handful of buffer sizes; an off-by-one that needs a specific length/padding combination is silent without bounds instrumentation.",
 ["src/c4/charconv.hpp", "src/c4/format.hpp", "src/c4/base64.hpp", "src/c4/base64.cpp", "src/c4/utf.hpp", "src/c4/utf.cpp"],
 [("length guards", "charconv.hpp write_*/utoa/itoa"), ("alignment", "format.hpp left_/right_"), ("cat/format recursion", "format.hpp")])
prop("C03", "Too-small buffers report the exact size needed",
 "Every serialization function for integers, booleans, characters, strings, pointers and padded or formatted combinations of them returns the number of characters the complete output needs, and that number is the same for every buffer length, so that calling again with a buffer of the returned size succeeds. A return value not larger than the buffer means the output is complete; a larger one means it is truncated. (Floating point is excluded: its documented result for a short buffer is an upper estimate.)",
 ["inputs", "histories"], "all values, all format parameters, all pairs of buffer lengths",
 "Tests compare the returned size for a few lengths; the guarantee relates the result for every short buffer to the result for a large one.",
 ["src/c4/charconv.hpp", "src/c4/format.hpp"],
 [("size query", "charconv.hpp write_*, itoa/utoa; format.hpp to_chars overloads, cat, catsep, format")])
prop("C05", "Parsing accepts exactly well-formed integers and yields their value",
 "An integer read succeeds if and only if the whole string is an optional minus sign (signed types only), an optional radix prefix (0x, 0o, 0b, either case) and at least one digit of that radix; the stored value is then the number denoted, reduced modulo 2^w for a w-bit type. Signed and unsigned parsers of all widths, radix-specific and automatic, agree on this. Any other string is rejected.",
 ["inputs"], "all strings, all integer types of 8 to 64 bits, all radixes",
 "Tests sample a few hundred strings; acceptance of one malformed string or one misread digit at one position needs all contents and lengths.",
 ["src/c4/charconv.hpp"],
 [("digit readers", "charconv.hpp read_dec/hex/oct/bin"), ("radix dispatch", "charconv.hpp atoi, atou, from_chars, atox")])
prop("C06", "Overflow detection is exact for every type and radix",
 "For every well-formed integer text, the overflow test answers true exactly when the denoted number is outside the range of the type, for any radix prefix, any number of leading zeros and any sign; the overflow-checked read succeeds exactly when the number is in range and then stores it. Neither ever reads outside the text.",
 ["inputs"], "all well-formed integer texts, all integer types of 8 to 64 bits, all radixes",
 "Tests check the neighbourhood of the limits in a few spellings; leading zeros, digit case and position of the first differing digit multiply beyond tables.",
 ["src/c4/charconv.hpp"],
 [("overflow test", "charconv.hpp overflows, detail::check_overflow"), ("limit tables", "charconv.hpp detail::charconv_digits"), ("checked read", "format.hpp/charconv.hpp fmt::overflow_checked from_chars")])
prop("C08", "Slices are exactly the documented interval, inside the original string",
 "Every slicing operation of a string view (sub, first, last, range, offs, left_of, right_of and kin) returns exactly the documented interval of the original; every other view or position returned by a string operation lies inside the string it came from, never starting before it nor ending after it. Containment and overlap tests answer according to the actual addresses.",
 ["inputs"], "all string lengths, all admissible positions and counts including npos",
 "Tests use short literals and few positions; an interval wrong only at an end position or for a particular length passes them.",
 ["src/c4/substr.hpp"],
 [("slicing", "substr.hpp sub/first/last/range/offs/left_of/right_of"), ("containment", "substr.hpp is_super/is_sub/overlaps")])
prop("C09", "Searching, trimming, splitting agree with their definition on any text",
 "For every text and pattern: find/first_of/last_of and their negations return the first or last matching position at or after (before) the given start or npos; count, begins_with, ends_with, trim, strip, stripl/r, triml/r, unquoted, pop/gpop, split, path and extension helpers, paired ranges, and first integer/unsigned/real span return exactly what their documentation defines by those matches. Every one of them terminates.",
 ["inputs"], "all texts, patterns, separators and start positions",
 "Tests use a few dozen fixed strings per operation; the definitions quantify over all texts including overlapping patterns and repeated or trailing separators.",
 ["src/c4/substr.hpp"],
 [("search", "substr.hpp find/first_of/last_of/count"), ("trimming", "substr.hpp trim*/strip*/unquoted"), ("splitting", "substr.hpp split, split_proxy_impl, pop_*/gpop_*, next_split"), ("number spans", "substr.hpp first_*_span")])
prop("C10", "String comparison is one total lexicographic order",
 "Comparison of two strings is the lexicographic order by character and then by length; equality, inequality and the four order operators, with operands in either order and for strings, characters, arrays, and the supported standard containers and views, are all the corresponding test of that one order. It does not depend on where the strings are stored, and empty or null strings are ordinary empty strings.",
 ["inputs"], "all pairs of strings, all operand kinds",
 "Antisymmetry, transitivity and agreement between operators relate results for all pairs; tests sample a few pairs per operator.",
 ["src/c4/substr.hpp", "src/c4/std/string.hpp", "src/c4/std/vector.hpp", "src/c4/std/string_view.hpp"],
 [("compare", "substr.hpp compare, operators"), ("interop", "std/string.hpp, std/vector.hpp, std/string_view.hpp")])
prop("C11", "In-place string edits produce exactly the edited text",
 "Case conversion, reversal, fill, copy, erase, single-character and substring replacement leave in the string exactly the characters the definition requires and leave every other character and every read-only operand unchanged; counts and returned views describe exactly what was changed. Replacing all occurrences into a destination returns the size of the replaced text and, when it fits, writes exactly that text.",
 ["inputs"], "all string contents, positions, patterns and replacement texts",
 "Tests check fixed strings; bytes with the high bit set, adjacent or overlapping matches, and empty replacements need all contents.",
 ["src/c4/substr.hpp"],
 [("edits", "substr.hpp toupper/tolower/fill/reverse*/copy_from/erase*/replace/replace_all")])
prop("C13", "Base64 encoding writes the standard encoding of any data",
 "Encoding any data, including empty data and data of sizes not multiple of three, yields the standard base64 text with padding; the returned size is four times the number of started three-byte groups, for every buffer size; nothing is written outside the buffer. Encoding a value encodes its bytes in memory.",
 ["inputs"], "all data contents and sizes, all buffer sizes",
 "Tests cover about a dozen strings; each alphabet entry, each tail length and each truncation point has to be right for all byte values.",
 ["src/c4/base64.cpp", "src/c4/base64.hpp"],
 [("encoder", "base64.cpp base64_encode"), ("alphabet", "base64.cpp detail::base64_sextet_to_char_")])
prop("C14", "Base64 decoding inverts encoding and validation is exact",
 "Decoding the encoding of any data returns that data and its size, for every destination size; if the destination is too small the size needed is returned and nothing is written beyond it. Validation accepts exactly the texts whose length is a multiple of four, made of alphabet characters followed by at most two padding characters.",
 ["inputs"], "all texts for validation; all valid base64 texts and destination sizes for decoding",
 "Tests round-trip a dozen strings and reject a few; the inverse relation of two 64/128-entry tables and all padding layouts are universal facts.",
 ["src/c4/base64.cpp", "src/c4/base64.hpp"],
 [("decoder", "base64.cpp base64_decode"), ("validator", "base64.cpp base64_valid"), ("tables", "base64.cpp detail::base64_char_to_sextet_")])
prop("C15", "Code points become their UTF-8 encoding",
 "Every code point up to 0x10ffff, given as a number or as hexadecimal text, is written as exactly its one to four UTF-8 bytes and the count (or the view of them) is returned; a larger value writes nothing and yields zero bytes. No byte after the encoding is touched.",
 ["inputs"], "all 2^32 code values, all hexadecimal texts",
 "Tests check about thirty code points; the bit layout has to be right for each of 1.1 million.",
 ["src/c4/utf.cpp", "src/c4/utf.hpp"],
 [("encoder", "utf.cpp decode_code_point")])
prop("C16", "Concatenation and formatting emit every argument once, in order",
 "Concatenating arguments, concatenating with a separator, and formatting with a template each produce the arguments' texts in argument order, each exactly once, with separators only between arguments and with the template's literal text around each placeholder; the returned size is the sum of the pieces. Surplus placeholders are copied literally and surplus arguments are ignored. The forms returning the part of the buffer that was written return exactly it, and never a view that leaves the buffer.",
 ["inputs", "programs"], "any number of arguments, any argument type honouring the conversion protocol, any separator, any template and buffer length",
 "Tests use fixed argument lists with large buffers; the property must hold for any user-defined argument type and any truncation point.",
 ["src/c4/format.hpp"],
 [("recursion", "format.hpp cat/catsep/format"), ("sub-buffer advance", "format.hpp buf.len >= num ? buf.sub(num) : substr{}")])
prop("C04", "Reading functions stay inside the text they are given and never change it",
 "No string operation, parser, overflow test or validator loads a byte before the start or past the end of the view it was given, whatever the view's length (zero included) and content; no terminating NUL is ever assumed for a view; and none stores anything into it. The same holds for the pattern or character-set views that are passed as arguments.",
 ["inputs"], "all view lengths from zero, all contents, all admissible position arguments",
 "Views into larger buffers hide an over-read in ordinary tests: the byte behind the view exists and is plausible. Only specific contents (a trailing sign, prefix, escape or quote) reach such a read.",
 ["src/c4/substr.hpp", "src/c4/charconv.hpp", "src/c4/base64.cpp"],
 [("string operations", "substr.hpp"), ("parsers", "charconv.hpp atoi/atou/read_*/overflows/from_chars*"), ("base64", "base64.cpp base64_valid")])
prop("C17", "Resizing output forms leave exactly the text in the container",
 "Serializing into a resizable container (catrs, catseprs, formatrs, to_chars-resizing, and the appending forms) returns with the container holding exactly the text (for appending forms: its previous content unchanged, followed by the text), whatever its initial size; the returned view is the text inside the container's current storage; no storage from before a resize is used.",
 ["inputs", "histories"], "all initial container sizes, all argument counts and texts, any container honouring the resize contract",
 "Tests use std::string/vector with small texts, where stale storage often still holds the right bytes and the number of resizes is not varied.",
 ["src/c4/format.hpp", "src/c4/charconv.hpp"],
 [("resize loops", "format.hpp catrs/catseprs/formatrs(_append)")])
prop("C18", "Dumping sends each piece to the sink once, in order, and resumes exactly",
 "Dumping arguments through a sink with a working buffer (cat_dump, catsep_dump, format_dump) hands the sink the arguments, separators and literal parts in order, each exactly once, up to the first argument whose text does not fit the buffer, and nothing after it; the size returned is the size of the largest text. The resumable forms report the last piece dumped, and calling them again with those results and a large enough buffer continues exactly after it: over the whole history every piece reaches the sink once and in order.",
 ["inputs", "histories"], "any non-empty buffer size, any argument types and texts, any resume point, sink as template argument or function object",
 "Tests resume fixed argument lists at a few sizes; failure position, text sizes and the mix of strings (which need no buffer) and other types multiply.",
 ["src/c4/dump.hpp"],
 [("dump", "dump.hpp dump, cat_dump, catsep_dump, format_dump"), ("resume", "dump.hpp *_dump_resume, DumpResults")])
prop("C19", "Reading values from a text in sequence consumes exactly each value",
 "Reading the first value of a text (from_chars_first) stores that value and returns the position just after it (leading blanks skipped), or returns npos if the text does not begin with such a value. Reading a sequence (uncat, uncatsep, unformat) hands each argument the text starting where the previous one ended, in order, skipping separators or the template's literal text; it stops with npos at the first failure and otherwise returns the total number of characters consumed.",
 ["inputs"], "all texts, all integer types, booleans, characters, pointers, string views; any sequence of user types; any template",
 "Tests read a few fixed texts; a wrong end position shows only with particular trailing text.",
 ["src/c4/charconv.hpp", "src/c4/format.hpp"],
 [("first value", "charconv.hpp from_chars_first overloads, atoi_first, atou_first"), ("sequences", "format.hpp uncat, uncatsep, unformat")])
prop("C12", "Spans denote exactly the requested elements and keep track of capacity",
 "Every operation of span, spanrs and spanrsl (construction, assignment, conversion, subspan, range, first, last, resize, trimming, complements, element access and iteration ends) yields exactly the documented elements of the underlying array; the resizable spans' capacity, and the offset from which the original range is recovered, stay exact under any sequence of those operations; no element outside the spans is accessed. Comparison operators are the element-wise lexicographic order, and spans of different sizes are never equal.",
 ["inputs", "histories"], "any array size, span position, size, capacity and offset; any admissible argument; several element and index types; C++11 and C++17",
 "Tests use one small array per operation; a capacity or offset that is wrong after a particular combination of selections needs the general case.",
 ["src/c4/span.hpp"],
 [("selection", "span.hpp span_crtp subspan/range/first/last/compll/complr"), ("capacity", "span.hpp spanrs/spanrsl _select, resize, ltrim, rtrim, original"), ("comparison", "span.hpp operators")])
prop("C20", "The linear arena hands out disjoint, aligned, in-bounds blocks",
 "Every block handed out by a linear memory resource (borrowed memory, or the array form) lies inside the resource's memory, is aligned as requested and does not overlap any other live block, whatever was allocated, freed or reallocated before. A request that does not fit, however large, is an error, and one that fits is never refused. Reallocation keeps the contents of the block up to the smaller size and changes no other block; size, capacity and slack stay consistent.",
 ["inputs", "histories"], "any memory size, any fill level, any request size up to 2^64-1, any alignment; allocate, deallocate, reallocate (last block or not), clear",
 "Tests allocate a few small blocks; wrap-around sizes, alignment padding and growing a block that is not the last need particular fill levels.",
 ["src/c4/memory_resource.cpp", "src/c4/memory_resource.hpp"],
 [("allocation", "memory_resource.cpp MemoryResourceLinear::do_allocate"), ("reallocation", "memory_resource.cpp MemoryResourceLinear::do_reallocate")])
prop("C21", "Memory resources return what they own, count exactly, and scopes restore",
 "A memory resource that obtains its chunk from a source resource gives every chunk back to that same source exactly once, with the same address, size and alignment, whatever sequence of acquire, release, clear and destruction is used; borrowed memory is never given back. The counting resource passes every request on unchanged and its current, total and maximum counts equal those of the requests made. The resource in force belongs to the calling thread, and leaving a scope (ScopedMemoryResource, ScopedMemoryResourceCounts) puts back the one in force before it.",
 ["inputs", "histories"], "any sequence of resource operations with any sizes and alignments; any nesting of scopes",
 "A leak, a double release or a count that is off shows only after a particular sequence; tests use one short sequence per class.",
 ["src/c4/memory_resource.hpp", "src/c4/memory_resource.cpp"],
 [("single chunk", "memory_resource.cpp _MemoryResourceSingleChunk acquire/release"), ("counts", "memory_resource.hpp AllocationCounts, MemoryResourceCounts"), ("scopes", "memory_resource.hpp ScopedMemoryResource, ScopedMemoryResourceCounts, get_memory_resource")])
prop("C22", "Allocators hand out sound blocks and give each back exactly once",
 "An allocator asks its memory resource for exactly the bytes and alignment of the objects requested and passes blocks back unchanged; allocators compare equal exactly when they share the resource, and conversion, copy and rebinding keep it. The small-array allocator never hands out overlapping or misaligned live blocks, keeps contents on reallocation and gives heap blocks back exactly once, for any sequence of calls. The aligned allocation functions give memory aligned as requested (or an error), reallocation keeps contents and frees the old block only after success, and user-set functions receive every call.",
 ["inputs", "histories"], "any sequence of allocate/deallocate/reallocate with any number of objects, several object types, all power-of-two alignments up to 4096",
 "Blocks overlap or leak only for particular sequences and sizes relative to the internal array.",
 ["src/c4/allocator.hpp", "src/c4/memory_resource.cpp"],
 [("typed allocation", "allocator.hpp Allocator"), ("small array", "allocator.hpp SmallAllocator"), ("aligned allocation", "memory_resource.cpp aalloc, afree, arealloc")])
prop("C23", "Errors act exactly as configured and never return to the faulty code",
 "When an error is raised, it is logged, passed to the callback and thrown exactly as the error flags say, for every combination of flags and whether or not a callback is set; the message handed over is complete up to the buffer's limit, terminated, and of the length stated, whatever the arguments; handling an error never returns to the code that raised it, while a warning always does and calls no callback. A check raises an error exactly when its condition is false, evaluating it once; disabled assertions have no effect. Leaving a scope restores the error settings in force before it.",
 ["inputs", "histories"], "all combinations of flags, callback set or not, exceptions on or off, any message length including failure to format; any nesting of scopes",
 "Tests check a few settings with short messages; the combination of flags and message length is what goes wrong.",
 ["src/c4/error.cpp", "src/c4/error.hpp"],
 [("routing", "error.cpp handle_error, handle_warning"), ("macros", "error.hpp C4_CHECK, C4_ASSERT, C4_XASSERT, C4_ERROR"), ("scopes", "error.hpp ScopedErrorSettings")])
prop("C24", "Real numbers reach their conversion intact, and hexadecimal text is exact",
 "A well-formed hexadecimal real (0x1.8p-3, with optional sign) is read as exactly the number it denotes whenever that number, and the number its digits denote without the exponent, are representable; a malformed one (stray characters, no digits, an exponent that is not an optional sign and decimal digits) is refused. All other text is handed whole to the decimal conversion and its verdict is returned. Reading the first real of a longer text converts exactly that real and returns the position of its end, or npos. Writing a real converts exactly the value given, in the notation and with the precision requested (the documented defaults otherwise); hexadecimal text carries the sign before the prefix, so that it can be read back.",
 ["inputs"], "hexadecimal text with any characters up to 4 digits, longer ones with one or two symbolic characters, exponents around every limit of the types; any decimal text; any value, any buffer size, all notations, precisions none, 0, 1, 2, 5, 17; float and double; C++17 and C++11",
 "A wrong digit weight or a lost sign needs a particular text or value; tests use a short table.",
 ["src/c4/charconv.hpp", "src/c4/format.hpp"],
 [("hexadecimal reading", "charconv.hpp detail::scan_rhex, atof, atod"), ("writing", "charconv.hpp detail::rtoa, detail::print_one, ftoa, dtoa, xtoa"), ("manipulator", "format.hpp fmt::real")])
prop("C25", "Objects in raw memory are constructed, moved and destroyed exactly once",
 "construct, copy_construct, move_construct, copy_assign, move_assign and destroy (single and _n forms) apply the element type's own operation exactly once to each of the requested elements, in place: never constructing over a live object, never reading or destroying one that is not alive, never touching an element outside the range, and leaving a source that is only copied unchanged. make_room and destroy_room (in place or into another buffer) keep every remaining object, in order, at its new position, for any position and amount of room including none.",
 ["inputs"], "any count, room and position (bounded for non-trivial types), trivial and non-trivial element types, several index types, distinct or overlapping ranges",
 "Tests use a few counts of strings; overlap direction, zero room and the last element need particular combinations.",
 ["src/c4/ctor_dtor.hpp"],
 [("construction", "ctor_dtor.hpp construct_n, copy_construct_n, move_construct_n, copy_assign_n, move_assign_n, destroy_n"), ("room", "ctor_dtor.hpp make_room, destroy_room")],
 technique="typestate analysis and abstract interpretation over the type-checked LLVM IR")
prop("C26", "Bit, mask, power, hash and memory utilities compute their definition",
 "For every argument in range: lsb and msb give the position of the lowest and highest set bit (intrinsic, portable and compile-time variants agree); contiguous_mask sets exactly the bits of the interval; ipow is the integer power, also for negative exponents; hash_bytes is FNV-1a over exactly the bytes given; mem_zero, mem_repeat, mem_overlaps and is_aligned do what they say on exactly the given ranges; a blob denotes exactly the bytes of the object given; a tight_pair holds both members separately in minimal space; szconv keeps every size that fits and reports the others; num_needed_chars is the least number of characters holding the bytes.",
 ["inputs"], "every word of 8 to 64 bits, every bit position; any sizes and offsets; lists of bases, exponents and texts",
 "Each function has 2^64 arguments; tests use a short table for one width, and only one of the alternative implementations is compiled.",
 ["src/c4/memory_util.hpp", "src/c4/memory_util.cpp", "src/c4/hash.hpp", "src/c4/blob.hpp", "src/c4/szconv.hpp"],
 [("bits", "memory_util.hpp lsb, msb, lsb11, msb11, contiguous_mask, ipow"), ("memory", "memory_util.hpp mem_zero, mem_overlaps, is_aligned, tight_pair; memory_util.cpp mem_repeat"), ("others", "hash.hpp hash_bytes; blob.hpp; szconv.hpp")])
prop("C27", "Enum symbols and bitmasks convert to text and back exactly",
 "Looking up an enum symbol by value or by name (full, or without its class or prefix) finds exactly the first symbol with that value or name, and nothing else; the name returned for a value is the declared one, at the requested offset. The text of a bitmask names symbols that cover exactly its bits, reports the size needed, and is an error when it does not fit or (bm2str) some bit is in no symbol. Reading a bitmask text gives exactly the union of its names and decimal or hexadecimal numbers, separated by '|' with optional spaces; malformed text is an error, never a value.",
 ["inputs"], "three symbol tables; every value; every text up to the longest name plus one; every bit combination, every buffer size; bitmask texts with free characters after given beginnings",
 "A prefix of a name, a bit in two symbols or a stray character needs a particular text and table order.",
 ["src/c4/enum.hpp", "src/c4/bitmask.hpp"],
 [("symbols", "enum.hpp EnumSymbols find, Sym::cmp, eoffs, str2e, e2str"), ("bitmask", "bitmask.hpp bm2str, bm2stream, str2bm")])
prop("C07", "Decimal real numbers survive a write/read round trip",
 "Every finite float or double written in its shortest decimal form and read back gives the identical value, and every decimal text is read as the nearest representable number.",
 ["inputs"], "all 2^32 floats, all 2^64 doubles, all decimal texts",
 "Tests sample a few hundred values; rounding errors need particular digit strings.",
 ["src/c4/charconv.hpp", "src/c4/ext/fast_float.hpp"],
 [("reading", "charconv.hpp atof, atod"), ("writing", "charconv.hpp ftoa, dtoa")],
 na="The guarantee is the numeric correctness of fast_float and of the C/C++ library's conversions: it rests on error bounds of 128-bit products and on tables of powers, a non-linear argument over all 2^64 values that no static domain in reach bounds. C24 decides the part c4core adds (which text or value is handed over, with which format, and what is returned).")
prop("C28", "Standard strings and vectors are viewed, written and read exactly",
 "The view taken of a std::string, std::vector<char> or std::string_view denotes exactly the container's characters (empty containers included) without copying them; reading text into a string or vector leaves exactly that text in it, whatever it held before and whatever its capacity; writing one gives exactly its characters if they fit, and in any case returns their number without touching memory beyond the buffer.",
 ["inputs", "histories"], "any container size and capacity, any text (zero bytes and empty text included), any buffer size",
 "Tests use a few short literals; empty containers, smaller or larger previous contents and embedded zeros multiply.",
 ["src/c4/std/string.hpp", "src/c4/std/vector.hpp", "src/c4/std/string_view.hpp"],
 [("views", "std/string.hpp, std/vector.hpp, std/string_view.hpp to_substr, to_csubstr"), ("reading", "std/string.hpp, std/vector.hpp from_chars"), ("writing", "std/string.hpp, std/vector.hpp, std/string_view.hpp to_chars")])
prop("C29", "String, conversion and formatting functions keep no state and allocate nothing",
 "The functions for strings, conversions, formatting, base64, UTF, spans, hashes, enums and bitmasks depend on their arguments only: none reads or writes mutable state shared between calls or threads, allocates heap memory, takes a lock, throws, performs input or output, or depends on the locale or environment (except real-number conversion through the C library where C++17's is missing, and growing a container the caller passes). So they may be called from any number of threads at once on separate data, and give the same result each time.",
 ["schedules", "histories", "inputs"], "every call path from every such function in the headers and sources, C++11 and C++17; any interleaving of calls on separate data",
 "A hidden static buffer or cache gives right results in every single-threaded test and wrong ones only under a particular interleaving or call history.",
 ["src/c4/substr.hpp", "src/c4/charconv.hpp", "src/c4/format.hpp", "src/c4/base64.cpp", "src/c4/utf.cpp", "src/c4/span.hpp", "src/c4/dump.hpp", "src/c4/hash.hpp"],
 [("entry points", "all functions of substr.hpp, charconv.hpp, format.hpp, base64.*, utf.*, span.hpp, hash.hpp, enum.hpp, bitmask.hpp, dump.hpp"), ("static data", "base64.cpp tables, charconv.hpp tables")],
 technique="interprocedural effect and points-to analysis over the call graph of the compiled LLVM IR",
 note="Every function reachable in the call graph from the listed entry points is inspected, with all path conditions ignored (over-approximation); writes are attributed to arguments, locals or globals by an interprocedural points-to summary. Calls through function pointers supplied by the caller (sinks) are the caller's. Trusts clang's front end and the list of effect-free library functions.")
prop("C30", "The types keep read-only data read-only and refuse unsafe conversions",
 "No expression of the public interface turns read-only text, a read-only span or a read-only blob into a writeable one, writes through a view to constant data, reads a value into a constant, serializes an object which owns memory as raw bytes, or silently converts between views in a way that loses const; all such programs are refused by the compiler. Conversely the documented conversions compile; views and spans stay trivially copyable values; and copying or moving a view does not throw.",
 ["inputs"], "all programs built from one application of any operation of the public interface to any combination of const and non-const operands; C++11 to C++20, clang and gcc",
 "A test is a program which compiles: it cannot notice that a program which should be refused compiles as well.",
 ["src/c4/substr.hpp", "src/c4/span.hpp", "src/c4/blob.hpp", "src/c4/charconv.hpp", "src/c4/format.hpp", "src/c4/base64.hpp", "src/c4/std/string.hpp", "src/c4/std/vector.hpp"],
 [("const propagation", "substr.hpp basic_substring, C4_REQUIRE_RW; span.hpp; blob.hpp"), ("triviality", "charconv.hpp, format.hpp static assertions")],
 technique="type-level witnesses: static assertions, detection of ill-formed expressions and compile-fail programs decided by the type checkers of clang and gcc",
 note="Each obligation is decided by the compiler's type checker on the current headers; a compile-fail witness is paired with a control program which must compile, so that an unrelated error is not taken for a refusal. Covers the enumerated expressions only.")
prop("C31", "Enabling assertions changes nothing for permitted inputs",
 "In a build with assertions enabled, every operation on strings, numbers, spans, base64, code points, enums, bitmasks, standard containers, dumps and arenas that is given arguments its documentation permits returns, with the result its specification states: no assertion fires and none alters the result.",
 ["inputs"], "the inputs of the repeated properties: all values, texts and positions within their bounds, except documented preconditions",
 "An assertion which is too strict fires for one boundary argument; tests use ordinary arguments, and the release tests skip assertions altogether.",
 ["src/c4/substr.hpp", "src/c4/charconv.hpp", "src/c4/span.hpp", "src/c4/base64.cpp", "src/c4/format.hpp", "src/c4/memory_resource.cpp"],
 [("assertions", "error.hpp C4_ASSERT, C4_XASSERT, C4_ASSERT_MSG and all their uses")])
prop("C32", "With assertions on, bad positions are reported before leaving the string",
 "In a build with assertions enabled, any slice, element access, search, in-place edit or span selection, given any position and count whatever (up to the largest size), either is reported as an error or yields a view or element inside the original string or array; and it reads and writes nothing outside.",
 ["inputs"], "any string length, any positions and counts in the full range of their type, pairs of related or unrelated views",
 "The assertions are the only guard of the interface; one which compares the wrong bound, or wraps around, is noticed only with a bad argument close to it.",
 ["src/c4/substr.hpp", "src/c4/span.hpp"],
 [("guards", "substr.hpp C4_ASSERT in sub, range, first, last, offs, left_of, right_of, operator[], front, back, find and kin; span.hpp subspan, range, first, last, operator[]")])
