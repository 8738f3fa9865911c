"""Which jobs decide which property, with case counts per tier."""
ASSUME = [
    'The frozen reference (/verif/ref) is a copy of the repaired library at the pinned commit; it was compared with the published mapping tables, glibc iconv and Python codecs when it was frozen (DESIGN.md).',
    'Checks run on little-endian x86-64 Linux with gcc 13; other platforms are not explored.',
]
def J(job, quick, thorough=None, variant='fast', **kw):
    d = dict(job=job, quick=quick, thorough=thorough if thorough is not None else quick * 50, variant=variant); d.update(kw); return d
ALL = 10**12
CHECKS = {
    'C01': dict(src=['c01.cpp'], rule='Every byte sequence the decoder can need (trie of incomplete prefixes, complete per 1-2 byte prefix and for all valid longer ones, sampled beyond) in each decoder state reached by a context prefix; every repertoire character encoded by the reference after each context; all published table entries; generated sequences. All sequences of up to four shift sequences, line ends and codes; texts of all lengths up to 300 and around powers of two up to 131073. Every escape value of C99 and JAVA; every UTF-7 unit in every phase with paddings and terminators. Non-trivial: at least one character is decoded; distinct by input bytes and encoding.',
        jobs=[J('c01_states', ALL, ALL), J('c01_len', ALL, ALL), J('c01_trie', ALL, ALL), J('c01_rep', ALL, ALL), J('c01_tables', ALL, ALL), J('c01_escapes', ALL, ALL), J('c01_utf7', ALL, ALL), J('c01_seq', 2000000, 100000000)]),
    'C02': dict(src=['c02.cpp'], rule='Every code point U+0000..U+10FFFF singly in every encoding, every repertoire character after each encoder-state context, all reversible published table entries, generated texts. All sequences of three or four representative characters and combinations; texts of all lengths up to 300 and around powers of two up to 131073. Non-trivial: output is produced for a non-ASCII or multi-character text; distinct by text and encoding.',
        jobs=[J('c02_states', ALL, ALL), J('c02_len', ALL, ALL), J('c02_all', ALL, ALL), J('c02_ctx', ALL, ALL), J('c02_tables', ALL, ALL), J("c02_seq", 6000000, 100000000)]),
    'C03': dict(src=['c03.cpp'], rule='Every character of an encoding\'s round-trip repertoire after each encoder-state context, generated texts (encode, decode, compare) and generated valid byte strings (decode, encode, decode). All sequences of three or four representative characters and combinations; long texts. Code points outside the frozen repertoire, should they be encoded; every code of one or two bytes and the longer ones they begin, decoded, encoded and decoded. Non-trivial: more than one character; distinct by text and encoding. Texts that the definition itself does not bring back (canonical composition, escapes, marks) are counted under labels.',
        jobs=[J('c03_states', ALL, ALL), J('c03_len', ALL, ALL), J('c03_sweep', ALL, ALL), J('c03_any', ALL, ALL), J('c03_codes', ALL, ALL), J('c03_text', 5000000, 200000000), J('c03_bytes', 2500000, 100000000)]),
}
CHECKS['C04'] = dict(src=['c04.cpp'], rule='For each of the 198 x 198 ordered pairs, generated inputs (text both have, text one has, valid and malformed bytes, a long text) with both flag values; then generated pairs. Direct conversion compared with decode-then-encode in the library itself and with the reference. Every pair over the whole repertoire of its source (BMP and samples beyond for full-Unicode sources on quick). Non-trivial: different encodings and more than one byte; distinct by input and pair.',
    jobs=[J('c04_rep', ALL, ALL), J('c04_all', ALL, ALL), J('c04_rand', 5000000, 50000000)])
CHECKS['C05'] = dict(src=['c05.cpp'], rule='For every encoding as source and as target: generated stress inputs (valid, truncated, malformed) converted with every single cut, every constant output room 0..14 and combinations of piece size and room, then random divisions; each result compared with the one-call result (itself compared with the reference). Every repertoire character as source and target in single bytes and little room; streams of up to 70000 characters in small pieces. Non-trivial: more than two input bytes; distinct by input, pair and flag.',
    jobs=[J('c05_rep', ALL, ALL), J('c05_long', ALL, ALL), J('c05_cuts', ALL, ALL), J('c05_rand', 5000000, 100000000)])
CHECKS['C06'] = dict(src=['c06.cpp'], rule='Every repertoire character after each encoder-state context with every output capacity from 0 to what it needs (and resets likewise); every character as input cut to every length in an exactly sized buffer; random call histories with arbitrary lengths and capacities, also under AddressSanitizer; written output compared with the conversion of the consumed prefix. Long inputs with capacities around need and powers of two. Non-trivial: multi-call history, or a partial conversion, or a swept character; distinct by input, pair and context.',
    jobs=[J('c06_long', ALL, ALL), J('c06_room', ALL, ALL), J('c06_input', ALL, ALL), J('c06_rand', 2000000, 80000000), J('c06_prefix', 1500000, 50000000), J('c06_rand', 500000, 20000000, 'asan')])
CHECKS['C07'] = dict(src=['c07.cpp'], rule='Every two-byte unit behind valid text and before more text in every encoding; all truncations of generated valid inputs (never illegal, resumable); all capacities for generated texts (monotone, resumable); step-wise conversion of malformed inputs with skipping after each error. Oracle: metamorphic resumption, and outcome and position of the reference. Every repertoire character cut everywhere, with damaged bytes and every room; errors behind up to 131072 characters. Non-trivial: an error occurred (or a text of several characters was cut everywhere); distinct by input and pair.',
    jobs=[J('c07_rep', ALL, ALL), J('c07_far', ALL, ALL), J('c07_two', ALL, ALL), J('c07_trunc', 800000, 40000000), J('c07_full', 800000, 40000000), J('c07_skip', 2500000, 100000000)])
CHECKS['C08'] = dict(src=['c08.cpp'], rule='Every code point of the BMP and plane 14 (others sampled on quick) that each target lacks, singly; generated texts mixing representable, lacking and tag characters from 11 source encodings; the same with little output room, call by call; held-back last characters at the reset. Oracle: a model over the frozen repertoires. Up to 131073 lacking characters in one text for every target. Non-trivial: at least one character is substituted, dropped or stops the conversion; distinct by text and pair.',
    jobs=[J('c08_long', ALL, ALL), J('c08_all', ALL, ALL), J('c08_beyond', ALL, ALL), J('c08_text', 3000000, 100000000), J('c08_room', 1500000, 50000000), J('c08_pending', 1000000, 30000000)])
CHECKS['C09'] = dict(src=['c09.cpp'], rule='Every two-byte unit between valid text in every encoding; every code point that each target lacks (planes 0 and 14 completely, others sampled on quick) between characters it has; generated malformed and mixed inputs for generated pairs in one call, in small pieces, and through the one-shot C and C++ forms. Oracle: the same input without discarding, skipping by hand one unit per error and filtering by the frozen repertoires; also the reference. Every repertoire character with a damaged, missing or extra byte; tens of thousands of illegal units in one input. Non-trivial: something is dropped; distinct by input and pair.',
    jobs=[J('c09_damage', ALL, ALL), J('c09_long', ALL, ALL), J('c09_units', ALL, ALL), J('c09_lack', ALL, ALL), J('c09_rand', 3000000, 100000000), J('c09_room', 1500000, 50000000), J('c09_oneshot', 1000000, 30000000)])
CHECKS['C10'] = dict(src=['c10.cpp'], rule='Every ordered triple of representative characters and every repertoire character after each context, written in each escape- or shift-based encoding; generated texts (representable or not, with and without discarding, in any pieces). Oracle: grammar monitors written from the RFCs and JIS/ISO standards, an independent reader, and glibc iconv where its reader follows the standard. Texts of up to 131072 characters with line ends. Non-trivial: the output contains a shift or designation; distinct by text and encoding.',
    jobs=[J('c10_long', ALL, ALL), J('c10_trans', ALL, ALL), J('c10_rep', ALL, ALL), J('c10_text', 3000000, 100000000), J('c10_any', 3000000, 100000000), J('c10_glibc', 2000000, 50000000)])
CHECKS['C11'] = dict(src=['c11.cpp'], rule='Generated histories of texts on one descriptor, each ended by a reset (with room, with little room repeated, or without an output buffer), every room from 0 up; every character that can be pending. Oracle: a fresh descriptor with the learned byte order, and the reference. 70000 texts on one descriptor for every encoding. Non-trivial: the reset writes something or the history has several texts; distinct by inputs and pair.',
    jobs=[J('c11_many', ALL, ALL), J('c11_last', ALL, ALL), J('c11_fresh', 3000000, 80000000), J('c11_room', 4000000, 80000000)])
CHECKS['C12'] = dict(src=['c12.cpp'], rule='Every 16-bit unit (and the edges of the 32-bit space) in every position class for the 16 Unicode forms, every code point encoded, all cuts around marks; generated histories of texts with marks of both orders across calls, resets and one-shot conversions. Oracle: a model of the Unicode encoding forms written independently. Marks behind up to 70000 characters. Non-trivial: a mark occurs or an order is learned; distinct by input and pair.',
    jobs=[J('c12_far', ALL, ALL), J('c12_units', ALL, ALL), J('c12_enc', ALL, ALL), J('c12_cuts', ALL, ALL), J('c12_hist', 4000000, 100000000), J('c12_oneshot', 3000000, 80000000)])
CHECKS['C13'] = dict(src=['c13.cpp', 'c20.cpp'], rule='Generated inputs for generated pairs, flags and earlier use of the descriptor: predicted size, fixed-size conversion with every buffer size around the prediction, the allocating form with and without a block, long inputs around internal buffer sizes; inputs whose output ends exactly at internal buffer boundaries. Oracle: streaming with a final reset, in the library and in the reference. Every repertoire character both ways; texts of all lengths up to 300 and around powers of two; the allocating form with each of its allocations failing. Non-trivial: more than two input bytes and output produced or an error; distinct by input and pair.',
    jobs=[J('c13_rep', ALL, ALL), J('c13_len', ALL, ALL), J('c13_edges', ALL, ALL), J('c13_small', 3000000, 60000000), J('c13_long', 300000, 10000000), J('c13_small', 200000, 10000000, 'asan'), J('c13_long', 40000, 1000000, 'asan'), J('c20_alloc', 500000, 10000000)])
CHECKS['C16'] = dict(src=['c16.cpp'], rule='Every published name with generated letter cases and separators; every single edit of every name, every short string, names with numbers exchanged, generated strings of any length and content. Oracle: the frozen list of names. Different names one after the other in the same memory. Non-trivial: a spelling other than the canonical one, or an unknown name; distinct by string.',
    jobs=[J('c16_inplace', 1500000, 40000000), J('c16_edits', ALL, ALL), J('c16_short', ALL, ALL), J('c16_numbers', ALL, ALL), J('c16_variants', 3000000, 100000000), J('c16_other', 2000000, 50000000), J('c16_other', 100000, 5000000, 'asan')])
CHECKS['C17'] = dict(src=['c17.cpp'], rule='All 2^32 code page numbers looked up; all pairs of supported code pages opened and compared with opening by name on generated inputs; generated supported and unsupported numbers in every function that takes them. Oracle: a frozen list of code pages. Non-trivial: at least one supported number, or a number near one; distinct by numbers and input.',
    jobs=[J('c17_all', ALL, ALL), J('c17_all', ALL, ALL, 'ubsan'), J('c17_pairs', ALL, ALL), J('c17_open', 3000000, 100000000)])
CHECKS['C18'] = dict(src=['c18.cpp'], rule='Every published name as target and as source with every suffix; generated known and unknown names of any length with suffixes in any letter case, followed by generated call histories on the descriptor; many descriptors opened and closed in any order. Oracle: the native interface and the reference with the names\' frozen meaning, call by call. Strings that resemble the ignore suffix, and the suffix on the source name. Non-trivial: every open; distinct by the two names.',
    jobs=[J('c18_suffix', ALL, ALL), J('c18_names', ALL, ALL), J('c18_open', 3000000, 60000000), J('c18_many', 1500000, 30000000), J('c18_open', 150000, 6000000, 'asan')])
CHECKS['C14'] = dict(src=['c14.cpp', 'c20.cpp'], rule='Every name, code page and constant of every encoding compared with every other; every ordered pair of encodings and generated pairs, named in generated ways, with generated convertible, partly convertible and malformed inputs and both flags; generated unknown names and code pages. Oracle: the C one-shot conversion in the library, streaming in the reference, frozen lists; allocation balance after each call. Every repertoire character both ways. Each allocation of generated C++ calls made to fail, with the allocations balanced afterwards. Non-trivial: more than one input byte (or two ways of naming compared); distinct by input, pair and flag.',
    jobs=[J('c14_rep', ALL, ALL), J('c14_ways', ALL, ALL), J('c14_pairs', ALL, ALL), J('c14_conv', 2500000, 60000000), J('c14_objects', 2000000, 60000000), J('c14_conv', 150000, 6000000, 'asan'), J('c20_cxx', 500000, 10000000)])
CHECKS['C15'] = dict(src=['c15.cpp'], rule='Generated interleavings of streaming calls, resets and one-shot conversions on up to 30 descriptors opened and closed in between, with unrelated calls; histories of one-shot conversions with failures; every kind of failure before every kind of one-shot call for every target. Oracle: the same calls on one descriptor alone, a fresh descriptor, the reference. Up to 1500 descriptors at a time; 20000 one-shot calls per encoding from and to the same memory. For each encoding and direction, one descriptor brought into each state by sequences of one or two elements before every such sequence on a fresh one. Non-trivial: at least two descriptors are used, or at least two one-shot calls; distinct by the history.',
    jobs=[J('c15_leak', ALL, ALL), J('c15_same', ALL, ALL), J('c15_mass', 8000, 200000), J('c15_shift', ALL, ALL), J('c15_oneshot', 2500000, 60000000), J('c15_inter', 2000000, 50000000)])
CHECKS['C19'] = dict(src=['c19.cpp'], py=['msan', 'fuzz'], rule='Generated sequences of all public calls with valid and hostile names, code pages, bytes, lengths and capacities on several descriptors, and every ordered pair of encodings with malformed input and little room, every code point into every encoding and every two-byte unit (and what it begins) out of it in its decoder states, under AddressSanitizer and UndefinedBehaviorSanitizer, under guard pages with allocation accounting, and (C part) under MemorySanitizer; libFuzzer on thorough. Each call must consume, produce or report. Non-trivial: at least one conversion of a non-empty input; distinct by the inputs of the sequence.',
    technique='property-based testing and fuzzing: generated call sequences under sanitizers and guard pages, with shrinking; libFuzzer on thorough',
    jobs=[J('c19_codes', ALL, ALL, 'ubsan'), J('c19_units', ALL, ALL, 'ubsan'), J('c19_pairs', ALL, ALL, 'ubsan'), J('c19_calls', 120000, 8000000, 'ubsan'), J('c19_calls', 500000, 30000000)])
CHECKS['C20'] = dict(src=['c20.cpp'], level='fault_enumeration', rule='Every ordered pair of encodings and generated pairs, inputs, flags and calls: each allocation of the call made to fail in turn, and every allocation from that one on; then the call repeated with memory. Oracle: the result without failures; allocation balance; the caller\'s block. Non-trivial: the call allocates; distinct by call, pair and input.',
    jobs=[J('c20_pairs', ALL, ALL), J('c20_fail', 5000000, 100000000)])
CHECKS['C21'] = dict(src=None, py=['locale'], jobs=[], rule='The locale query compiled in ten platform configurations (langinfo, environment, FreeBSD table, Haiku, BeOS, Android, Windows with and without console, Cygwin), driven through generated histories of setlocale, environment and code page changes over locales compiled with every charmap of this system; every published name as charset suffix with and without modifier; every Windows code page. Oracle: a model of the locale rules over frozen name lists. Non-trivial: every history of changes; distinct by configuration and history.',
    assume=['Windows, Cygwin, Haiku, BeOS, Android and FreeBSD are stand-ins: only the platform macros and the two Windows calls are provided; Mac OS X cannot be compiled here.'])
CHECKS['C22'] = dict(src=['c22.cpp'], py=['generators'], rule='Every public constant in both languages against its frozen meaning and every name of that encoding, converting the whole repertoire both ways; generated conversions between generated constants; the three maintainer tools built and run on the tree and on generated encoding lists (names, indexes, aliases, lower case, non-ASCII) and misused. Oracle: frozen constants and names, the reference, the generated list itself. Non-trivial: more than one byte converted, or one list entry compared; distinct by constants and input.',
    jobs=[J('c22_const', ALL, ALL), J('c22_conv', 3000000, 60000000)])
CHECKS['C24'] = dict(src=['c24.cpp'], py=['first'], rule='Two to four threads with generated scripts of opens, conversion calls, one-shot conversions, lookups and C++ calls on their own descriptors (often the same scripts), under ThreadSanitizer and at full speed; every encoding in both directions over its repertoire from four threads; descriptors handed from thread to thread between calls; several threads making the first calls of a process. Oracle: ThreadSanitizer\'s happens-before analysis, and the same calls alone. Non-trivial: at least two threads use the library (or a descriptor changes threads); distinct by the inputs of the scripts.',
    technique='property-based testing and fuzzing: generated thread scripts under ThreadSanitizer, differential against single-threaded execution, with shrinking',
    jobs=[J('c24_enc', ALL, ALL, 'tsan', extra=['--flaky']), J('c24_rand', 40000, 2000000, 'tsan', extra=['--flaky']), J('c24_hand', 30000, 1000000, 'tsan', extra=['--flaky']), J('c24_rand', 300000, 20000000, extra=['--flaky']), J('c24_hand', 200000, 10000000, extra=['--flaky'])])
CHECKS['C23'] = dict(src=['c23.cpp'], rule='Texts of 1 to 8 GiB made of a generated unit repeated (mapped again and again from a small block), with generated heads and tails, around the 2^30, 2^31, 2^32 boundaries of input, output and runs without output; in one call, with too little room, predicted, fixed-size, allocating and C++; a fixed list of units and boundaries per function, and generated ones. Oracle: the reference on few repetitions, extrapolated after checking linearity: counts, positions, errors, all of the output. Non-trivial: input or output of at least 1 GiB; distinct by pair, unit, head, tail, repetitions and function.',
    jobs=[J('c23_fixed', ALL, ALL, extra=['--cpu', '90', '--confirm', '1']), J('c23_rand', 40, 1500, extra=['--cpu', '90', '--confirm', '1'])])
NOT_APPLICABLE = {}
