import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=state
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
IND=["src/induce%sbit.cpp"%w for w in (32,40,48,56,64)]
SAI=["src/sais%sbit.cpp"%w for w in (32,40,48,56,64)]
p("C01","The in-memory transform is the exact BWT of every byte string",
 "For every byte string of length n >= 1 the in-memory transform returns the Burrows-Wheeler transform of the string followed by a unique end marker smaller than every byte: n+1 rows, each row holding the byte that precedes the suffix of that rank, together with the rank of the row that holds the end marker. This holds for all 256 byte values including 0 and 255, for lengths 1 and 2, for monotone, periodic, run-heavy and deeply repetitive strings, and however many distinct or equal pieces the string decomposes into. The content of the marked row itself is unspecified.",
 ["inputs"],"every byte string of length at least 1",
 "The tests transform a single 15-byte ASCII string; the construction branches on byte order, run structure, number and length of substrings, collisions and recursion depth, none of which a few samples exercise.",
 ["src/flbwt.cpp","src/hashtable.cpp"]+IND+SAI,
 [("decomposition, sorting, naming and reduction","src/flbwt.cpp extract_LMS_strings/sort_LMS_strings/create_shortened_string"),("suffix sorting of the reduced string","src/sais32bit.cpp"),("induction of the transform with queues","src/induce32bit.cpp")],
 ["result of bwt_string"])
p("C02","The file transform is lossless",
 "For every non-empty file, inverting the output of the file transform (rank header plus transform bytes) yields exactly the original file: every byte, in order, nothing added or lost. This holds for any content, including binary data, embedded and trailing zero bytes, line ends and files of many megabytes.",
 ["inputs"],"every non-empty regular input file",
 "The tests never call the file interface at all, and no test inverts a transform.",
 ["src/flbwt.cpp","examples/bwt.cpp"],
 [("reading the whole file and appending the terminator","src/flbwt.cpp bwt_file"),("writing rank and both halves around the marked row","src/flbwt.cpp bwt_file")],
 ["bytes of the output file"])
p("C03","The output file has exactly the documented layout",
 "A successful file transform of an n-byte input leaves an output file of exactly n+8 bytes: the rank of the end-marker row as a 64-bit big-endian number, then the n transform bytes in row order with the marked row left out, equal to what the in-memory transform returns for the same content. Any earlier content of the output path is completely replaced, also when it was longer or when it is the input file itself, and the input file is otherwise unchanged. Ranks and lengths above 2^32 use the same layout.",
 ["inputs","configurations"],"every input content, every rank position (first, middle, last row, beyond 32 bits), every prior state of the output path",
 "No test reads an output file; the header bytes above the lowest few and the split around the marked row depend on the rank value.",
 ["src/flbwt.cpp"],
 [("big-endian rank header","src/flbwt.cpp bwt_file rank[0..7]"),("row skipping","src/flbwt.cpp bwt_file last == 0 / last == n / otherwise")],
 ["bytes of the output file","bytes of the input file"])
p("C04","No input makes the library touch memory it does not own or run into UB",
 "For every byte string (followed by the terminating zero byte that callers provide) and every file, the library reads and writes only memory it owns or was handed, never uses memory after releasing it or releases it twice, never writes to the caller's text, and performs no operation with undefined behaviour.",
 ["inputs"],"every byte string and file content",
 "The tests run without sanitizers on short strings, so an access just outside a buffer or through a stale pointer after a resize goes unnoticed.",
 ["src/flbwt.cpp","src/hashtable.cpp","src/packed_array.cpp","src/queue.cpp"]+IND+SAI,
 [("space accounting of the substring buffer","src/hashtable.cpp insert_string rest/bufsize"),("space for head and end records","src/flbwt.cpp sort_LMS_strings space_required"),("word count of packed arrays","src/packed_array.cpp PackedArray"),("array sizes for the suffix sorter","src/flbwt.cpp bwt_is total_substring_count")],
 ["sanitizer reports, guard pages"])
p("C05","Ownership is honoured and every resource is released",
 "The caller's text is never modified; it is released exactly once when the caller hands it over and never otherwise. After the caller releases the result, no memory allocated by a call stays allocated, and after the file transform returns or throws, no memory, file descriptor or stray file is left behind, whatever the input and however often it is repeated.",
 ["inputs","histories","fault_sequences"],"every input, both ownership choices, sequences of calls, successful and failing file transforms",
 "The tests neither count allocations nor open descriptors, and never hand over ownership of the text.",
 ["src/flbwt.cpp","src/container.cpp","src/hashtable.cpp","src/queue.cpp"]+IND+SAI,
 [("release of the text","src/flbwt.cpp bwt_is free_T"),("release of intermediate structures","src/flbwt.cpp bwt_is; src/induce*.cpp; src/container.cpp"),("bucket arrays of the suffix sorter","src/sais*.cpp fs < k"),("error paths of the file transform","src/flbwt.cpp bwt_file")],
 ["allocation ledger","/proc/self/fd","directory contents","text bytes"])
p("C06","The result depends on the text alone",
 "The rank and every row except the marked one are a function of the text bytes only: they do not depend on earlier calls in the process, on the contents of fresh or recycled heap memory, on the address or alignment of the text, on what follows its terminator, on whether ownership is handed over, or on the state of the process such as its rounding mode, locale, calling thread or errno.",
 ["inputs","histories","configurations"],"every text, every call history, every heap content and buffer placement",
 "The tests run one call per fresh heap state; buffers allocated without being cleared usually hold zeros there.",
 ["src/packed_array.cpp","src/hashtable.cpp","src/flbwt.cpp"]+IND,
 [("uncleared packed arrays are fully written before being read","src/packed_array.cpp"),("fields after each record are reset","src/hashtable.cpp insert_string"),("arrays of the suffix sorter are initialised","src/sais*.cpp")],
 ["result of bwt_string under different heap contents and histories"])
p("C07","Concurrent calls do not affect each other",
 "Any number of threads may transform texts at the same time, including the same read-only text, and each call returns exactly what it returns when run alone; there is no data race between calls.",
 ["schedules","inputs"],"every interleaving of calls on distinct or shared texts",
 "All tests are single-threaded.",
 ["src/flbwt.cpp","src/hashtable.cpp"]+IND+SAI,
 [("all state is local to a call","no mutable globals in src/*.cpp")],
 ["results of concurrent calls","race detector"])
p("C08","Invalid arguments and unusable files are rejected without side effects",
 "A null text or a length of zero, an input path that cannot be opened, has no content, cannot be sized or cannot be read, and an output path that cannot be opened each make the call throw a standard exception derived from std::exception: invalid_argument for bad arguments and for paths that cannot be opened, runtime_error for input that cannot be read. Nothing is returned, the process stays usable, and when the input is unusable an existing output file keeps its content and a missing one is not created.",
 ["inputs","configurations"],"every kind of invalid argument and of unusable input or output path, in any order between valid calls",
 "No test passes an invalid argument or calls the file interface.",
 ["src/flbwt.cpp"],
 [("argument check","src/flbwt.cpp bwt_string"),("open, size, read checks before the output is opened","src/flbwt.cpp bwt_file")],
 ["exception type","output path state","later calls"])
p("C09","An I/O fault never yields a success with incomplete output",
 "Whenever the file transform returns normally, the complete and correct output has been handed to the file system; if any read of the input fails or is cut short, any write, flush or close of the output fails, or the memory for the text cannot be obtained, it throws instead of returning. This holds for a failure at every point of the reading and of the writing.",
 ["fault_sequences","inputs"],"every point at which reading, writing, flushing, closing or allocating the text buffer can fail, for every input",
 "No test injects a fault, and every test environment has space and readable files.",
 ["src/flbwt.cpp"],
 [("short reads are detected","src/flbwt.cpp bwt_file fread"),("short writes and failing close are detected","src/flbwt.cpp bwt_file fwrite/fclose")],
 ["exception or return","output bytes"])
p("C10","Every internal index width computes the same transform",
 "The library switches between five index widths (32, 40, 48, 56 and 64 bits) depending on how much working storage a text needs; for every text each of the five computes the identical, correct transform, and the width chosen always suffices for the values stored.",
 ["inputs","configurations"],"every text in each of the five index widths",
 "The only transformed text is tiny and uses the 32-bit code; the wide variants are separate copies of the code that need texts of gigabytes to petabytes to be reached.",
 ["src/flbwt.cpp"]+IND+SAI,
 [("width dispatch","src/flbwt.cpp bwt_is bits"),("split-array accessors","include/sais40bit.hpp, include/sais48bit.hpp, include/sais56bit.hpp")],
 ["result of bwt_string in each width"])
p("C11","Inputs and working storage beyond 2^31 and 2^32 bytes are handled exactly",
 "Texts longer than 2^31 and 2^32 bytes, and texts whose working storage or offsets pass 2^31, 2^32, 2^39, 2^40 or more, are transformed exactly like small ones; nothing wraps, truncates or changes sign at those boundaries.",
 ["inputs","configurations"],"every text size and every storage offset up to the supported limit, in particular next to the powers of two where representations change",
 "Tests would need gigabytes of memory per case; support for files above 4 GB is the stated reason for this project, and no test covers it.",
 ["src/flbwt.cpp","src/hashtable.cpp","src/packed_array.cpp"]+IND+SAI,
 [("64-bit lengths, offsets and counters","src/flbwt.cpp, src/hashtable.cpp"),("choice of index width from the largest stored value","src/flbwt.cpp bwt_is sa_max_value, position_of_msb"),("packed queue entries sized by the offset range","src/flbwt.cpp bwp_width")],
 ["result of bwt_string and bwt_file"])
p("C12","Suffix sorting of integer sequences is exact in every width",
 "For every integer sequence over an alphabet 0..k-1, given in packed form with any sufficient element width or as plain integers of the index width, each of the five suffix sorters fills its output with the suffix array of the sequence: a permutation of all positions in strictly increasing suffix order, where a proper prefix sorts first. This holds for any amount of extra workspace granted, and nothing outside the output and that workspace is written.",
 ["inputs","configurations"],"every integer sequence, alphabet size, element width, workspace size and index width",
 "No test calls a sorter directly and the one transformed text never recurses; the reduction step recurses only for repetitive sequences and uses other storage when workspace is available.",
 SAI+["include/sais40bit.hpp","include/sais48bit.hpp","include/sais56bit.hpp"],
 [("induced sorting","src/sais*.cpp induce_SA"),("naming and recursion inside the output array","src/sais*.cpp STAGE 2"),("buckets in spare workspace","src/sais*.cpp k <= fs")],
 ["output arrays of the sorters"])
p("C13","The shortened string preserves equality and order of the text's suffixes",
 "Replacing each piece of the decomposed text by its name gives a shorter string in which equal pieces have equal names, different pieces different names, names follow the lexicographic order of the pieces (a piece that extends another one sorts before it), and the suffixes of the shortened string sort in the same order as the corresponding suffixes of the text. It starts with the name of the leading part, which is unique and the largest, and ends with the unique smallest name 0.",
 ["inputs"],"every byte string of length at least 1",
 "No test looks at the shortened string; only the transform of one 15-byte text depends on it.",
 ["src/flbwt.cpp","src/hashtable.cpp"],
 [("order of pieces","src/flbwt.cpp sort_LMS_strings LMS_comparison"),("name lookup","src/hashtable.cpp find_name"),("shortened string","src/flbwt.cpp create_shortened_string")],
 ["shortened string, sorted table"])
p("C14","The decomposition statistics are exact",
 "For every byte string the decomposition reports exactly: how often each byte value occurs, how many of its occurrences are followed by a smaller suffix, how many pieces start with each byte value, the total and the distinct number of pieces, and where the leading part of the text ends.",
 ["inputs"],"every byte string of length at least 1",
 "The tests check the piece counts of two short ASCII texts and none of the per-byte statistics.",
 ["src/flbwt.cpp","src/container.cpp"],
 [("right-to-left type scan","src/flbwt.cpp extract_LMS_strings")],
 ["statistics after the decomposition"])
p("C15","The substring table behaves like a set with names",
 "For every sequence of insertions, naming and lookups, and every table and block size, the table reports an insertion as new exactly when that substring (of at least three bytes, as the decomposition produces) was not inserted before, keeps every stored substring, its preceding sentinel and its name intact while it grows, enumerates each stored substring exactly once, finds every stored substring with the name last given to it, and reports a substring that was never inserted as missing instead of returning a name.",
 ["histories","inputs","configurations"],"every operation sequence, substring length and content, hash table size and block size",
 "The tests insert a few short strings; block chains, resizes, collisions and lengths of several bytes need many or long colliding strings.",
 ["src/hashtable.cpp","include/hashtable.hpp"],
 [("scan of a bucket chain","src/hashtable.cpp insert_string/find_name"),("block chaining","src/hashtable.cpp set_pointer/get_pointer"),("space accounting","src/hashtable.cpp rest")],
 ["return values, stored records"])
p("C16","Packed integer arrays behave like plain arrays",
 "For every length, every element width from 1 to 64 bits and every sequence of writes of values that fit, reading any element gives the value last written to it, writing one element never changes another one or memory outside the array, and length and width are reported as constructed.",
 ["histories","inputs","configurations"],"every length, width and sequence of reads and writes",
 "The tests write a few values in a few widths.",
 ["src/packed_array.cpp","include/packed_array.hpp"],
 [("split of an element over two words","src/packed_array.cpp set_value/get_value"),("masks","include/packed_array.hpp BIT_MASK")],
 ["return values"])
p("C17","The work queues behave like double-ended queues",
 "For every element width and every sequence of insertions at the back, insertions at the front and removals from the front, removals give exactly the elements of the abstract queue in order, the emptiness test is exact after every step, and any number of elements, crossing storage blocks in either direction, is supported.",
 ["histories","configurations"],"every sequence of queue operations and every element width from 1 to 63 bits",
 "There is no test for the queue.",
 ["src/queue.cpp","include/queue.hpp"],
 [("block list and offsets","src/queue.cpp enqueue/enqueue_l/dequeue")],
 ["return values"])
p("C18","Every number stored in a compact encoding is read back exactly",
 "Lengths (of at least 1), positions and names stored in the substring records, and index values stored in split arrays of 40, 48 and 56 bits, are read back unchanged for every representable value (negative ones included for indices) without disturbing neighbouring data; the number of bytes announced for a length is the least that holds it, and the bit width reported for a number is exact for every non-zero 64-bit value.",
 ["inputs"],"every representable value of each encoding",
 "The tests use a few small values; boundaries at multiples of 256, at sign bits and at each byte count are untested.",
 ["src/hashtable.cpp","include/sais40bit.hpp","include/sais48bit.hpp","include/sais56bit.hpp","include/utility.hpp"],
 [("length, pointer and name encodings","src/hashtable.cpp set_length/get_length/set_pointer/get_pointer/set_name/get_name"),("split-array accessors","include/sais*bit.hpp"),("bit width","include/utility.hpp position_of_msb")],
 ["values read back"])
p("C19","The work done grows about linearly with the text",
 "On texts up to a megabyte of every ordinary kind (random, natural-language-like, periodic, run-heavy, deeply nested repetitive) the number of executed steps is bounded by a constant plus a constant times the text length, and doubling the text does not much more than double the work.",
 ["inputs"],"texts of the generated families with doubling lengths; texts built to collide in the hash table are excluded",
 "The tests use texts of a few dozen bytes, where quadratic work is invisible.",
 ["src/flbwt.cpp","src/hashtable.cpp"]+IND+SAI,
 [("linear scans and induction","src/flbwt.cpp, src/induce*.cpp, src/sais*.cpp"),("hashing spreads distinct pieces","src/hashtable.cpp hash_function")],
 ["count of executed basic blocks"])
p("C20","Peak memory stays within a small multiple of the text",
 "The heap used during a transform never exceeds a fixed constant plus a small constant number of bytes per text byte, for every kind of text up to several megabytes; when ownership of the text is handed over the text's memory is given back before the output is built, and it is not part of the peak of that later phase; a file transform needs no more than the in-memory transform of a text that is handed over.",
 ["inputs","configurations"],"every text family and both ownership choices",
 "The tests do not measure memory; being lightweight is a named feature.",
 ["src/flbwt.cpp","src/hashtable.cpp","src/queue.cpp","src/packed_array.cpp"]+IND+SAI,
 [("one copy per distinct piece","src/hashtable.cpp insert_string"),("early release of text, names and suffix array","src/flbwt.cpp bwt_is; src/induce*.cpp"),("queue blocks freed when drained","src/queue.cpp dequeue")],
 ["peak of live heap bytes"])
p("C21","The command-line program transforms its file or fails visibly",
 "Run with exactly two arguments the example program transforms the first file into the second one and exits with status 0 if and only if the complete output was written; with any other number of arguments it prints its usage, touches no file and exits with a non-zero status; every failure to read or write also ends in a non-zero status.",
 ["inputs","configurations","fault_sequences"],"every argument count and every input and output path state",
 "No test runs the program.",
 ["examples/bwt.cpp","src/flbwt.cpp"],
 [("argument check","examples/bwt.cpp main"),("errors surface as exceptions","src/flbwt.cpp bwt_file")],
 ["exit status, standard output, files"])
p("C22","A call has no effect beyond its result and its output file",
 "A transform, successful or rejected, prints nothing and leaves everything else in the process as it was: working directory, environment, file creation mask, locale, signal actions and mask, resource limits, timers, rounding mode, random number state, standard streams, threads, children and descriptors; it leaves no file besides its output, and results of earlier calls stay as they were until the caller releases them.",
 ["histories","configurations"],"every sequence of successful and rejected calls in every process state",
 "The tests look at results only.",
 ["src/flbwt.cpp","include/flbwt.hpp"],
 [("no global state, errors by exceptions","src/flbwt.cpp bwt_file, bwt_string"),("a result is a fresh allocation","src/induce*.cpp")],
 ["state of the process around each call"])
p("C23","Stack use does not grow with the text",
 "A transform needs no more than a fixed small amount of stack for every text, however long, repetitive or deeply nested it is, so that it can be called from a thread with an ordinary or small stack.",
 ["inputs","configurations"],"every text and each index width, in memory and through files",
 "The tests use tiny texts, for which even recursion over all pieces or arrays of the size of the text on the stack would go unnoticed.",
 ["src/flbwt.cpp","src/hashtable.cpp"]+IND+SAI,
 [("recursion only to a logarithmic depth","src/sais*.cpp"),("work areas on the heap","src/flbwt.cpp, src/sais*.cpp, src/induce*.cpp")],
 ["bytes of stack touched by a call"])
import sys
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
