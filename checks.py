"""Which parts decide which property, and what is said about each."""


def parts(flavour, tus, *names, **opts):
    return [(flavour, list(tus), n, opts) for n in names]


CHECKS = {
    "SELF": parts("fast", ["p_self.cpp"], "self_ref"),
    "C01": parts("fast", ["p_core.cpp"], "c01_exh", "c01_rand", "c01_chain", "c01_big", "c01_giant"),
    "C02": parts("fast", ["p_file.cpp"], "c02_exh", "c02_rand", "c02_big"),
    "C03": parts("fast", ["p_file.cpp"], "c03_state", "c03_rank", "c03_huge"),
    "C04": parts("asan", ["p_mem.cpp"], "c04_exh", "c04_text", "c04_big", "c04_file")
    + parts("msan", ["p_ms.cpp"], "c04_uexh", "c04_uninit", "c04_ubig", optional=True)
    + parts("asan", ["p_sais.cpp"], "c12_exh", "c12_rand", scale=0.06)
    + parts("asan", ["p_lms.cpp"], "c13_rand", scale=0.03)
    + parts("asan", ["p_table.cpp"], "c15_hist", scale=0.06)
    + parts("asan", ["p_packed.cpp"], "c16_small", scale=0.1)
    + parts("asan", ["p_queue.cpp"], "c17_ops", "c17_single", scale=0.02)
    + parts("asan", ["p_enc.cpp"], "c18_record", "c18_split", scale=0.05)
    + parts("fast", ["p_mem.cpp"], "c04_guard")
    + parts("fuzz", ["p_mem.cpp"], "c04_fuzz", runs=4000, runs_thorough=150000, max_len=600,
            rule="coverage-guided inputs (libFuzzer, ASan and UBSan, result inverted); non-trivial: entries of the final corpus, each reached new code or a new count of it"),
    "C06": parts("fast", ["p_core.cpp"], "c06_det", "c06_big"),
    "C10": parts("fast", ["p_core.cpp"], "c10_exh", "c10_rand", "c10_big", "c10_choice"),
    "C11": parts("fast", ["p_big.cpp"], "c11_arena", "c11_edge", "c11_rle", "c11_period") + parts("fast", ["p_big.cpp"], "c11_preal", "c11_real", budget=800),
    "C13": parts("fast", ["p_lms.cpp"], "c13_exh", "c13_rand", "c13_big"),
    "C14": parts("fast", ["p_lms.cpp"], "c14_exh", "c14_rand", "c14_big"),
    "C15": parts("fast", ["p_table.cpp"], "c15_hist", "c15_long"),
    "C16": parts("fast", ["p_packed.cpp"], "c16_small", "c16_fill", "c16_huge") + parts("asan", ["p_packed.cpp"], "c16_small", scale=0.3),
    "C17": parts("fast", ["p_queue.cpp"], "c17_ops", "c17_single", "c17_long", "c17_grow", "c17_giant"),
    "C18": parts("fast", ["p_enc.cpp"], "c18_record", "c18_entry", "c18_split", "c18_far", "c18_msb"),
    "C12": parts("fast", ["p_sais.cpp"], "c12_exh", "c12_rand", "c12_big", "c12_giant"),
    "C05": parts("fast", ["p_own.cpp"], "c05_exh", "c05_text", "c05_ro", "c05_hist"),
    "C07": parts("tsan", ["p_thr.cpp"], "c07_first", "c07_race") + parts("thr", ["p_thr.cpp"], "c07_first", "c07_stress"),
    "C08": parts("fast", ["p_fail.cpp"], "c08_args", "c08_file"),
    "C09": parts("fast", ["p_fail.cpp"], "c09_write", "c09_read", "c09_limit", "c09_pipe", "c09_text", "c09_alloc"),
    "C19": parts("cov", ["p_cost.cpp"], "c19_grow"),
    "C20": parts("fast", ["p_cost.cpp"], "c20_peak"),
    "C21": parts("fast", ["p_cli.cpp"], "c21_args", "c21_run", cli=True),
    "C22": parts("fast", ["p_side.cpp"], "c22_calls"),
    "C23": parts("fast", ["p_side.cpp"], "c23_stack"),
}

LEVEL = {"C09": "fault_enumeration"}

TECHNIQUE = {
    "C01": "property-based testing: bounded-exhaustive and structured random texts against a naive BWT and complete inversion",
    "C02": "property-based testing: round trip through an independent decoder on generated files",
    "C03": "stateful property-based testing: file model, metamorphic relation with the in-memory result, substituted transform for huge ranks",
    "C04": "coverage-guided fuzzing (libFuzzer) and property-based testing under ASan, UBSan and MSan, guard pages",
    "C05": "stateful property-based testing with an allocation ledger, descriptor and directory model, allocation-failure injection",
    "C06": "metamorphic property-based testing: heap contents, history, placement and ownership vary, result must not",
    "C07": "property-based testing of generated concurrent workloads under ThreadSanitizer and against sequential results",
    "C08": "stateful property-based testing over path states against an exception and file model",
    "C09": "fault injection driven by property-based generators: every read, write, flush, close and allocation point",
    "C10": "differential property-based testing of the five index widths against naive BWT and inversion",
    "C11": "property-based testing with sparse working storage and run-length inputs of gigabytes against a closed-form oracle",
    "C12": "property-based testing of the suffix sorters against a reference suffix array",
    "C13": "property-based testing against a model of the decomposition (names and suffix order)",
    "C14": "property-based testing against a counting model",
    "C15": "model-based stateful property-based testing of the substring table",
    "C16": "model-based stateful property-based testing of the packed array",
    "C17": "model-based stateful property-based testing of the queues",
    "C18": "property-based round-trip testing with boundary-value generators",
    "C19": "property-based testing of counted work on generated families of growing length",
    "C20": "property-based testing of measured peak heap against a linear bound",
    "C22": "stateful property-based testing with a comparison of the process state around each call",
    "C23": "property-based testing of the measured stack use, relative to that of a short text",
    "C21": "property-based testing of the built program over generated arguments, path states and write limits",
}
_EXPL = "Sampled inputs beyond the stated bounds are not covered. Trusts the harness oracles (self-tested against each other by `run.py SELF`), the compilers and libc."
NOTE = {
    "C01": "All texts over small alphabets up to the stated lengths, plus a random search of structured texts up to 2 MB and texts of tens of megabytes. " + _EXPL,
    "C02": "All short files over small alphabets, structured files to 40 kB, and files to 12 MB (30 MB thorough). " + _EXPL,
    "C03": "Sequences of calls over states of the output path; every rank position of short files; files of 2^32..2^43 bytes with the transform replaced and the streams without storage (this part skips itself if the library stops using stdio streams or an internal call of bwt_string). " + _EXPL,
    "C04": "Absence of sanitizer reports on the generated inputs; uninitialised reads as reported by MemorySanitizer in the library, which is left out if the library uses stateful functions of libstdc++. " + _EXPL,
    "C05": "Every block allocated through malloc, calloc, realloc or new is tracked. " + _EXPL,
    "C06": "Patterns are written into fresh and recycled heap memory and the stack below the call. " + _EXPL,
    "C07": "Schedules are those of the machine, the first call of a process included; ThreadSanitizer reports races between accesses that were executed whatever their order was. " + _EXPL,
    "C08": "Path states of a local file system and special files that exist in the sandbox. " + _EXPL,
    "C09": "Faults are injected at every offset class of the input and output through replaced streams, resource limits, /dev/full and pipes. " + _EXPL,
    "C10": "The width is forced by raising the largest stored position seen by the dispatch, so all five code paths run on the same texts; the choice itself is checked for numbers of pieces and positions up to 2^62 with the transform cut off behind it. " + _EXPL,
    "C11": "Working storage is placed in a sparse arena up to 2^46 bytes; run-length and periodic texts; real texts beyond 2^31 and a few beyond 2^32 bytes in the quick tier (more in the thorough one). " + _EXPL,
    "C12": "Sequences to some thousand elements for each width, element encoding and workspace. " + _EXPL,
    "C13": "Texts to tens of kilobytes, small tables as well as the real one. " + _EXPL,
    "C14": "Texts to megabytes. " + _EXPL,
    "C15": "Operation sequences against a map model with tables of 1..500 buckets. " + _EXPL,
    "C16": "Operation sequences for every width 1..64. " + _EXPL,
    "C17": "Operation sequences against std::deque, up to hundreds of thousands of elements, and sparse queues beyond 2^16 and 2^32 elements. " + _EXPL,
    "C18": "Boundary values of every byte count and random values. " + _EXPL,
    "C19": "Counts executed basic blocks, never time. The bound has slack of several times over the current behaviour, so only changes of growth or large factors are seen. " + _EXPL,
    "C20": "Counts requested heap bytes. The bound has slack over the current behaviour. " + _EXPL,
    "C22": "Looks at the listed parts of the process state after each call, not at changes that are undone before it returns. " + _EXPL,
    "C23": "Touched pages of a fresh thread stack, texts to three million bytes. " + _EXPL,
    "C21": "Runs the real program, linked from the tree, in a scratch directory. " + _EXPL,
}
PROPERTY_RULES = {}
ASSUMPTIONS = {}
NOT_APPLICABLE = {}
