#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
       "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

CONV="lib/converters/*.h"
p("C01","Decoding follows every encoding's published character map",
  "For each of the supported encodings, decoding any byte sequence yields exactly the Unicode characters that the encoding's definition assigns to it, in every shift state and next to any neighbouring characters. A byte sequence that the definition does not assign is rejected, never silently decoded to some character, and every assigned sequence is accepted.",
  ["inputs"],"all 198 encodings x all byte sequences, in any decoder state",
  "The suite sweeps single characters of about 120 encodings from the initial state; about 75 encodings (all EBCDIC/IBM ones, CP943, C99, JAVA, the ISO-2022 family beyond one snippet each, UCS-2/4 variants) and all multi-character contexts are not swept.",
  [CONV,"lib/encodings.h.snippet","lib/all_encodings.h"],
  [("per-encoding multibyte-to-wide-char functions and tables",CONV),("encoding list binds names to functions","lib/encodings.h.snippet")],
  ["reiconv_iconv converting to UCS-4BE / UTF-32BE"])
p("C02","Encoding follows every encoding's published character map",
  "For each of the supported encodings, encoding any sequence of Unicode code points yields exactly the bytes that the encoding's definition assigns, including the shift sequences, base-plus-combining compositions and variant selection that the definition calls for. A code point that the definition does not contain, not even as a compatibility mapping to a look-alike, is never encoded as another character.",
  ["inputs"],"all 198 encodings x all code-point sequences (every code point U+0000..U+10FFFF singly; generated sequences)",
  "The suite encodes each code point singly, for about 120 encodings; it encodes hardly any sequence and no code point at all for the EBCDIC/IBM family and the programming-language escapes.",
  [CONV,"lib/encodings.h.snippet","lib/converters/cjk_variants.h","lib/converters/cns11643_inv.h"],
  [("per-encoding wide-char-to-multibyte functions and inverse tables",CONV)],
  ["reiconv_iconv converting from UCS-4BE / UTF-32BE"])
p("C03","Text that an encoding can represent survives a round trip",
  "Encoding any text whose characters the target encoding contains and decoding the result gives back the same text, whatever the order and mixture of characters. Conversely, decoding any valid byte string, encoding the text back in the same encoding and decoding again always gives the same text as the first decoding. Only where an encoding itself composes letters with combining marks (CP1255, CP1258, TCVN), interprets escapes (C99, JAVA) or byte-order marks is the text recovered up to that interpretation.",
  ["inputs"],"all encodings x all texts over the encoding's own repertoire; all valid byte strings",
  "Tests compare tables character by character; none decodes what the encoder produced for a sequence, so stateful, composing and escaping encoders are exercised by one snippet each.",
  [CONV],[("encoder and decoder tables are inverse",CONV),("shift-state and composition handling","lib/converters/iso2022_*.h, hz.h, utf7.h, cp1255.h, cp1258.h, tcvn.h, big5hkscs*.h, *jisx0213.h, iso2022_jp3.h")],
  ["reiconv_iconv there and back"])
p("C04","A conversion between any two encodings equals going through Unicode",
  "For every ordered pair of encodings, converting text directly gives the same bytes, the same success or failure, and the same count of substituted characters as decoding it to Unicode code points and encoding those code points. No pair of encodings is special.",
  ["inputs","configurations"],"all 198 x 198 ordered pairs of encodings x all input texts, with and without discarding",
  "Tests only convert between one encoding and a Unicode form; 39,000 other pairs are never opened.",
  ["lib/loop_unicode.h","lib/iconv.c","lib/all_encodings.h",CONV],
  [("conversion loop with Unicode pivot","lib/loop_unicode.h"),("descriptor set-up picks decoder and encoder","lib/iconv.c: reiconv_open_from_index")],
  ["reiconv_iconv, reiconv_open_from_index"])
p("C05","Splitting the stream or the output buffer never changes the result",
  "However the input is cut into successive calls (carrying unconsumed bytes over) and however small the output pieces are (as long as one character fits), the concatenated output, the final success or error with its position in the whole stream (shift sequences and byte-order marks directly before the offending character may count as consumed or not), and the total count of substitutions, when every call succeeds and so reports it, are the same as for one call with a large buffer. This holds in every encoding, including cuts inside a character, a shift sequence or a surrogate pair.",
  ["inputs","histories"],"all pairs of encodings x all inputs x all cut points x all output capacities per call",
  "The test drivers feed one byte more at a time into a fresh buffer for a few encodings, or whole files with fixed 4 KiB buffers; no test varies the cut points together with output capacity.",
  ["lib/loop_unicode.h",CONV,"lib/reiconv_defines.h"],
  [("decoder state kept in the descriptor, rolled back on E2BIG","lib/loop_unicode.h"),("shift-only return codes consume partial sequences","lib/reiconv_defines.h: RET_TOOFEW, RET_SHIFT_ILSEQ")],
  ["reiconv_iconv"],[("istate/ostate/ibyteorder","what must be carried between calls","lib/reiconv_defines.h")])
p("C06","Buffers are respected and the accounting is exact",
  "A conversion call reads only inside the given input range, never changes the input, and writes only inside the given output capacity. The input and output pointers advance by exactly the amounts by which the remaining counts decrease, and the bytes between the old and new output pointers are the complete conversion of the bytes between the old and new input pointers.",
  ["inputs","histories"],"all pairs x all inputs x all input lengths and output capacities, including zero",
  "Overruns of a byte or two are invisible to tests that use large static buffers without guard zones, and tests never use tight capacities.",
  ["lib/loop_unicode.h","lib/iconv.c",CONV],
  [("n checks in each converter, RET_TOOSMALL / RET_TOOFEW",CONV),("pointer write-back","lib/loop_unicode.h")],
  ["reiconv_iconv on exactly sized heap blocks with guard bytes"])
p("C07","Errors are classified right and leave the stream at the right place",
  "Invalid input is reported as an illegal sequence with the input position at the offending sequence; input that merely ends inside a character or shift sequence is reported as incomplete with the position at its start; a full output buffer is reported as such with the position at the first unconverted character. Everything before that position has been converted and delivered, and continuing from there (more input, more room, or skipping) gives the conversion of the rest.",
  ["inputs","histories"],"all encodings x all valid, truncated and malformed inputs x all output capacities",
  "Tests check that errors occur for single malformed characters of some encodings, not their position, their class after shift sequences, or that conversion can be continued.",
  ["lib/loop_unicode.h","lib/reiconv_defines.h",CONV],
  [("error classification in the loop","lib/loop_unicode.h"),("RET_ILSEQ / RET_TOOFEW / RET_SHIFT_ILSEQ",CONV)],
  ["reiconv_iconv return value, errno, *inbuf, *outbuf"])
p("C08","Characters the target lacks are replaced, counted or reported",
  "Without discarding, each character that the target encoding lacks becomes U+FFFD if the target can represent that and adds one to the returned count; otherwise the call fails as an illegal sequence positioned at that character with everything before it delivered. Unicode language-tag characters (U+E0000..U+E007F) that the target lacks vanish without being counted, and characters the target has never add to the count.",
  ["inputs"],"all target encodings x all texts mixing representable, unrepresentable and tag characters",
  "The suite has no test of substitution, of the returned count or of tag characters.",
  ["lib/loop_unicode.h"],[("unencodable handling in convert and reset","lib/loop_unicode.h")],
  ["reiconv_iconv return value and output"])
p("C09","Discard mode drops exactly the unconvertible parts and never gets stuck",
  "With discarding requested, a conversion never fails because of illegal input or characters the target lacks: the output is the conversion of the input with each illegal unit (four bytes in 32-bit encodings, two in 16-bit ones, one otherwise) and each character the target lacks removed, every dropped target-lacking character adding one to the count. Valid input converts exactly as without discarding, and only truncated input or a full output buffer is still reported.",
  ["inputs"],"all pairs of encodings x all byte sequences, in streaming, one-shot and C++ use",
  "One small test feeds a handful of inputs in four encodings.",
  ["lib/loop_unicode.h","lib/iconv.c","lib/reiconv.cpp"],
  [("discard branches of the loop","lib/loop_unicode.h"),("flag set-up","lib/iconv.c: reiconv_open_from_index, reiconv_open")],
  ["reiconv_iconv, reiconv_convert, reiconv::convert with DISCARD_ILSEQ"])
p("C10","Output in a stateful encoding is always well-formed and self-contained",
  "Whatever text is converted to an escape- or shift-based encoding (ISO-2022 variants, HZ, UTF-7), the finished output obeys that encoding's rules: only its own designations and shifts, needed designations before use and per line where the standard requires it, 7-bit bytes only, and the initial state at the end. An independent reader of the same encoding recovers the text.",
  ["inputs","histories"],"all stateful encodings x all texts over their repertoire x all ways to chunk them",
  "One fixed snippet per encoding is converted; mixtures of character sets, line ends and control characters are not.",
  ["lib/converters/iso2022_*.h","lib/converters/hz.h","lib/converters/utf7.h"],
  [("shift state machine and reset","lib/converters/iso2022_*.h, hz.h, utf7.h")],
  ["bytes written by reiconv_iconv including the final reset"])
p("C11","Resetting flushes what is pending and starts a new conversion",
  "Ending a conversion with a reset emits the held-back character, if any, and the bytes that return the output to its initial state, after which the descriptor converts a new text exactly like a freshly opened one except for an already learned input byte order. If there is no room the reset reports a full buffer, writes nothing beyond the room given, and can be repeated with more room for the same total output; a reset without an output buffer just forgets the state.",
  ["inputs","histories","fault_sequences"],"all pairs x all texts x resets at any point with any output capacity, then any further text",
  "Tests reset at most once at the end of a whole file with ample room.",
  ["lib/loop_unicode.h","lib/converters/flushwc.h",CONV],
  [("loop reset, flushwc and per-encoding reset","lib/loop_unicode.h: unicode_loop_reset")],
  ["reiconv_iconv with a null input"],[("istate/ostate","state cleared by reset","lib/reiconv_defines.h")])
p("C12","Byte order and byte-order marks of Unicode encodings are honoured",
  "Decoding UTF-16, UTF-32, UCS-2 and UCS-4 honours a byte-order mark in either order, defaults to big-endian, never delivers the mark as text, and keeps the learned order for the life of the descriptor, across calls and resets; the explicit BE/LE, internal and swapped forms never interpret a mark. Encoding UTF-16 and UTF-32 writes exactly one big-endian mark at the start of each text that has content, UCS-2 and UCS-4 are written big-endian without a mark, and the BE/LE forms differ only by byte swapping.",
  ["inputs","histories"],"all Unicode-form encodings x all texts x marks at any position x any chunking and resets",
  "One test checks one reset for a few encodings; marks in the middle, repeated marks, split marks and mark emission after resets are not covered.",
  ["lib/converters/utf16*.h","lib/converters/utf32*.h","lib/converters/ucs2*.h","lib/converters/ucs4*.h","lib/loop_unicode.h"],
  [("ibyteorder / ostate","lib/converters/utf16.h, utf32.h, ucs2.h, ucs4.h")],["reiconv_iconv"],
  [("ibyteorder","learned input byte order","lib/reiconv_defines.h")])
p("C13","One-shot C conversions agree with streaming and with predicted sizes",
  "For any input the predicted result size is exactly the number of bytes that a complete streaming conversion including the final reset produces; converting into a buffer of at least that size succeeds, writes exactly those bytes and leaves the rest of the buffer unchanged, and any smaller buffer fails with a full-buffer error. Only the fixed-size form accepts input that ends inside a character: it converts what precedes that. The allocating form returns the same bytes and length in a new or resized block, and input that streaming rejects (or that ends inside a character, for sizing and allocating) makes it fail with an error code and without a new block; so does a null place for the block.",
  ["inputs"],"all pairs x all inputs x all buffer sizes x both flag values x null and non-null initial blocks",
  "Only a few successful conversions go through these functions in the tests.",
  ["lib/iconv.c"],[("two-pass sizing and conversion","lib/iconv.c: reiconv_result_size, reiconv_convert_static_size, reiconv_convert")],
  ["reiconv_result_size, reiconv_convert_static_size, reiconv_convert"])
p("C14","The C++ interface matches the C one and reports every failure by exception",
  "For every pair of encodings, given by name, code page or constant, and every input, the C++ conversion returns exactly the bytes of the C conversion with the same flag, and throws std::system_error carrying the C error code when and only when the C conversion fails. Constructing an encoding from an unknown name or code page throws std::invalid_argument, equal encodings compare equal however they were named, and no call leaks memory or descriptors, whether it returns or throws.",
  ["inputs","histories"],"all pairs x all inputs, names, code pages and constants",
  "The tests call the C++ function for successful conversions only.",
  ["lib/reiconv.cpp","include/cppp/reiconv.hpp.in"],[("wrapper over the C API","lib/reiconv.cpp")],
  ["reiconv::convert, reiconv::Encoding"])
p("C15","Descriptors are independent and reusable",
  "What a descriptor produces depends only on the calls made on that descriptor: interleaving calls on any number of descriptors, opening and closing others in between, gives each the result it would have alone. One-shot conversions are independent of what was done with the descriptor before: after any earlier calls, one-shot or streaming, successful or failed or left unfinished, the next one-shot call gives the result a fresh descriptor gives, except for a learned input byte order.",
  ["histories","inputs"],"all interleavings of operations over several descriptors x all pairs; all histories of one-shot calls incl. failing ones",
  "Tests use one descriptor at a time and never reuse one after a failure.",
  ["lib/iconv.c","lib/loop_unicode.h"],[("all state lives in the descriptor","lib/reiconv_defines.h: conv_struct"),("states returned to initial after one-shot calls","lib/iconv.c")],
  ["all C API functions"])
p("C16","Encoding names resolve to the right encoding, and only they do",
  "Every published name and alias of an encoding, in any letter case and with any hyphens and underscores added or removed, resolves to that encoding in every name-taking function, and any other string, of any length and content, is reported as unknown without other effect. Canonicalising a name upper-cases letters, drops hyphens and underscores, keeps everything else and returns the length.",
  ["inputs"],"all 840 names x all case and punctuation variations; all other strings of any length",
  "Tests look up only the names they convert with; no test checks unknown, long, non-ASCII or near-miss names, nor the complete alias list.",
  ["lib/iconv.c","lib/generated/aliases.h","lib/encodings.h.snippet"],
  [("canonicalisation and perfect-hash lookup","lib/iconv.c, lib/generated/aliases.h")],
  ["reiconv_lookup_from_name, reiconv_name_canonicalize, reiconv_open_from_name, reiconv::Encoding"])
p("C17","Code pages resolve to the right encoding, and only they do",
  "Every supported code page number resolves to the encoding that the code page denotes, so that opening by code page converts exactly like opening by that encoding's name. Any other number, negative or arbitrarily large, is reported as unknown by every function that takes a code page, with the invalid-argument error where an error code is promised.",
  ["inputs"],"all 2^32 integers as code pages, singly and in pairs",
  "No test looks up a code page that is not supported.",
  ["lib/iconv.c","lib/codepage_to_ei.h","lib/encodings.h.snippet"],
  [("code page table","lib/codepage_to_ei.h")],["reiconv_lookup_from_codepage, reiconv_open_from_codepage, reiconv::Encoding(int)"])
p("C18","The iconv-compatible entry points behave as iconv does",
  "Opening with target and source names gives a descriptor that converts exactly like one opened from the same names in the native interface, with discarding on exactly when the target or the source name carries the ignore suffix (in any letter case). An unknown target or source name fails with the invalid-argument error whatever the names' lengths or contents, and each successful open can be closed, with success.",
  ["inputs","histories"],"all pairs of names and aliases x suffixes x arbitrary other strings",
  "Tests open with plain names; suffix handling and failures are not exercised.",
  ["lib/iconv.c","include/iconv.h.in"],[("suffix parsing","lib/iconv.c: reiconv_open")],["reiconv_open, reiconv_iconv, reiconv_handle_close"])
p("C19","No input or call sequence corrupts memory, crashes or hangs",
  "Any sequence of documented calls on any bytes, names, code pages, lengths and capacities, valid or hostile, in any encoding pair, terminates, never aborts, and performs no out-of-bounds or uninitialised access, no leak and no undefined arithmetic. Each conversion call that has input and room either consumes input, produces output or reports an error.",
  ["inputs","histories"],"all API call sequences x all byte strings",
  "Tests feed almost only valid data and run without sanitizers.",
  ["lib/iconv.c","lib/loop_unicode.h",CONV,"lib/reiconv.cpp","lib/generated/aliases.h"],
  [("bounds and state checks throughout",CONV)],["whole API under AddressSanitizer/UBSan/MSan"])
p("C20","Running out of memory is reported, not fatal",
  "If any single memory allocation, or every allocation from some point on, fails during a library call, that call reports failure (out-of-memory error code, or an exception in C++) without crashing or leaking, and any block the caller passed in is either still the caller's or freed and cleared. After memory is available again, the same call on the same descriptor succeeds with the right result.",
  ["fault_sequences","inputs"],"all allocating calls x each allocation index as the failing one x any input",
  "No test makes an allocation fail.",
  ["lib/iconv.c","lib/reiconv.cpp"],[("malloc/realloc result checks","lib/iconv.c: reiconv_open_from_index, reiconv_convert")],
  ["return values, errno, exceptions under an interposed allocator"])
p("C21","The locale's character set is reported by a usable name",
  "The locale query returns, for every setting of the process locale, a non-empty name that names the character set the locale uses and that the library itself can look up whenever it knows that character set under the platform's name for it; the C and C++ forms agree. The answer follows later changes of the locale, and a charset suffix in a locale name with a modifier does not leak the modifier into the result.",
  ["configurations","histories"],"all locale environment settings x all platform configurations that can be compiled here",
  "No test calls the locale query at all.",
  ["lib/locale_charset.c","lib/locale_charset.cpp","lib/localecharset/*.h"],
  [("langinfo / environment lookup and name tables","lib/locale_charset.c")],["locale_charset, reiconv::locale_charset"])
p("C22","Public encoding constants, name tables and generators agree",
  "Every public encoding constant of the C and C++ headers denotes the same encoding as the name it is spelled after, in both languages, and the two header lists agree. The maintainers' generator tools, run on the tree, reproduce the committed constants and list exactly the names that the library resolves, each to the encoding that the tool's output says.",
  ["inputs","configurations"],"all constants and all generated table entries; any well-formed encoding list",
  "Tests use two constants; the generators are only compiled.",
  ["lib/generated/indexes.h.shippet","lib/generated/indexes.hpp.shippet","tools/genindexes.cpp","tools/genaliases.cpp","include/cppp/encodings/reiconv.h.in"],
  [("generated enums and alias table","lib/generated/*")],["ENCODING_* / reiconv::Encodings constants; generator output"])
p("C23","Size arithmetic holds for inputs of several gigabytes",
  "Conversions, size prediction and error positions are exact for inputs, outputs and runs of shift sequences larger than 2 and 4 GiB: no count wraps, no byte is lost or repeated and no call hangs or crashes. The result equals that of converting the same text piecewise.",
  ["inputs"],"all lengths up to the address space, across the 2^31 and 2^32 boundaries",
  "Test inputs are below 1 MiB.",
  ["lib/loop_unicode.h","lib/iconv.c","lib/converters/hz.h","lib/converters/utf7.h","lib/converters/iso2022_*.h"],
  [("size_t lengths in the loop, int return codes of the converters with a count limit","lib/loop_unicode.h, lib/reiconv_defines.h: RET_COUNT_MAX")],
  ["reiconv_iconv, reiconv_result_size"])
p("C24","Conversions on different descriptors may run in parallel",
  "Threads that use different descriptors, and threads that look up names, code pages or versions, never interfere: each gets the result it would get alone, under every schedule, and there is no data race inside the library. A descriptor may be handed from one thread to another between calls without changing its behaviour.",
  ["schedules","histories"],"all schedules of threads over disjoint descriptors and read-only lookups",
  "The tests are single-threaded.",
  ["lib/iconv.c","lib/loop_unicode.h",CONV,"lib/reiconv.cpp"],
  [("no mutable global state; const tables","lib/*")],["all API functions from several threads under ThreadSanitizer"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
