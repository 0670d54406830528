#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the long text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
B64, HEX, B32, UU, UN, VS = ["crates/%s/src/" % c for c in
    ("base64-simd", "hex-simd", "base32-simd", "uuid-simd", "unicode-simd", "vsimd")]
S = "The tests feed random buffers of a few lengths; a wrong lane, table entry or tail rule shows only for particular byte values at particular positions."

p("C01", "Base64 encoding equals RFC 4648 for every input",
  "For every byte string and every provided variant (standard or URL-safe alphabet, with or without padding), encoding yields exactly the RFC 4648 base64 text of that string. The result has exactly the length the encoded-length function announces, and every way of encoding (into a buffer, as str, to an owned string, vector or boxed slice, appended) yields the same text.",
  ["inputs", "configurations"], "all byte strings, four variants, every encoding entry point, every CPU the code dispatches on",
  S, [B64+"encode.rs", B64+"lib.rs", B64+"heap.rs", B64+"multiversion.rs"],
  [("vector and scalar encoders", B64+"encode.rs"), ("length formula", B64+"encode.rs encoded_length_unchecked"), ("owned/append forms", B64+"heap.rs")])
p("C02", "Base64 decoding accepts exactly the canonical text and returns its bytes",
  "Decoding with a variant succeeds exactly when the text is the canonical RFC 4648 encoding under that variant (alphabet, mandatory or forbidden padding, zero unused bits) and then returns exactly the bytes it encodes. Any other text is rejected with an error.",
  ["inputs", "configurations"], "all byte strings as text, four variants, copying and owned decoding, every CPU the code dispatches on",
  "Tests decode what the encoder produced plus a handful of malformed strings; almost all of the 256^n malformed texts, and the position of the bad byte relative to a vector block, are never tried.",
  [B64+"decode.rs", B64+"alsw.rs", B64+"lib.rs", B64+"heap.rs", "crates/vsimd/src/alsw.rs"],
  [("vector decode with lookup check", B64+"decode.rs"), ("final group and padding rules", B64+"decode.rs decode_extra / decoded_length"), ("lookup tables", B64+"alsw.rs")])
p("C03", "Base64 check and length queries agree with decoding",
  "For every text and variant, the check function reports success exactly when decoding the text succeeds. The decoded-length query, whenever decoding succeeds, equals the number of bytes decoding produces, and the estimated decoded length of n is never below the decoded size of any text of n characters.",
  ["inputs"], "all byte strings as text, four variants; all lengths for the estimate",
  "check and decode run different vector code and are only compared on a few strings.",
  [B64+"check.rs", B64+"decode.rs", B64+"lib.rs"],
  [("check path", B64+"check.rs"), ("decoded_length", B64+"decode.rs")])
p("C04", "Forgiving base64 decode follows the WHATWG algorithm",
  "For every byte string, forgiving decoding strips ASCII whitespace, drops up to two trailing pad characters only when the remaining length is a multiple of four, rejects a remainder of one or any character outside the standard alphabet, ignores unused trailing bits, and returns exactly the bytes the WHATWG algorithm yields. The in-place, into-buffer and to-vector forms give the same verdict and bytes.",
  ["inputs"], "all byte strings, three entry points, every CPU the code dispatches on",
  "Whitespace position, pad count and remainder interact; tests cover a fixed list.",
  [B64+"forgiving.rs", B64+"ascii.rs", B64+"decode.rs"],
  [("whitespace search/removal", B64+"ascii.rs"), ("pad handling", B64+"forgiving.rs"), ("final group", B64+"decode.rs")])
p("C05", "Hex encoding is exact for every input and both cases",
  "For every byte string and letter case, hex encoding yields exactly two digits of that case per byte, in order. Buffer, str, owned, append and raw-pointer forms agree.",
  ["inputs", "configurations"], "all byte strings, both cases, all entry points, every CPU the code dispatches on",
  S, [HEX+"encode.rs", HEX+"lib.rs", HEX+"heap.rs", VS+"hex.rs"],
  [("vector encoders", HEX+"encode.rs"), ("nibble lookup", VS+"hex.rs")])
p("C06", "Hex decoding accepts exactly even-length hex text and inverts it",
  "Hex decoding succeeds exactly when the text has even length and consists only of hexadecimal digits of either case, and then returns exactly the bytes they denote; everything else is an error. Copying, in-place, owned and raw-pointer forms agree.",
  ["inputs", "configurations"], "all byte strings as text, all entry points, every CPU the code dispatches on",
  "A vector decoder can accept a stray byte value (one of 234) in one lane only; random tests of valid text never see it.",
  [HEX+"decode.rs", HEX+"lib.rs", HEX+"heap.rs", VS+"hex.rs"],
  [("vector decoders", HEX+"decode.rs"), ("digit classification", VS+"hex.rs")])
p("C07", "Hex check accepts exactly the texts made of hex digits",
  "For every byte string, the hex check succeeds exactly when every byte is a hexadecimal digit of either case, whatever the length; for even lengths this is exactly when decoding succeeds.",
  ["inputs"], "all byte strings, safe and raw-pointer form, every CPU the code dispatches on",
  S, [HEX+"check.rs", VS+"hex.rs", VS+"alsw.rs"],
  [("check kernels", HEX+"check.rs"), ("lookup classification", VS+"hex.rs")])
p("C08", "Base32 encoding equals RFC 4648 for every input",
  "For every byte string and every provided variant (base32 or base32hex alphabet, with or without padding), encoding yields exactly the RFC 4648 base32 text, with exactly the length the encoded-length function announces, through every encoding entry point.",
  ["inputs", "configurations"], "all byte strings, four variants, every entry point, every CPU the code dispatches on",
  S, [B32+"encode.rs", B32+"lib.rs", B32+"heap.rs"],
  [("vector and scalar encoders", B32+"encode.rs")])
p("C09", "Base32 decoding accepts exactly the canonical text and returns its bytes",
  "Decoding with a variant succeeds exactly when the text is the canonical RFC 4648 base32 encoding under that variant (upper-case alphabet, mandatory or forbidden padding, possible length, zero unused bits), and then returns exactly the bytes it encodes; any other text is rejected.",
  ["inputs", "configurations"], "all byte strings as text, four variants, copying and owned decoding, every CPU the code dispatches on",
  "The padding/length/unused-bit rules have five remainders and two alphabets; tests try a few strings of each.",
  [B32+"decode.rs", B32+"alsw.rs", B32+"lib.rs", B32+"heap.rs"],
  [("vector decode", B32+"decode.rs"), ("padding count and length", B32+"decode.rs decoded_length"), ("final group", B32+"decode.rs decode_extra")])
p("C10", "Base32 check and length queries agree with decoding",
  "For every text and variant, the check function reports success exactly when decoding succeeds. The decoded-length query, whenever decoding succeeds, equals the number of bytes decoding produces, and the estimated decoded length of n is never below the decoded size of any text of n characters.",
  ["inputs"], "all byte strings as text, four variants; all lengths for the estimate",
  "check and decode run different vector code and are only compared on a few strings.",
  [B32+"check.rs", B32+"decode.rs", B32+"lib.rs"],
  [("check path", B32+"check.rs"), ("decoded_length", B32+"decode.rs")])
p("C11", "UUID parsing accepts exactly the documented text forms",
  "UUID parsing succeeds exactly on the documented forms (32 hex digits; 8-4-4-4-12 with hyphens; and for the general parser also the hyphenated form in braces or after urn:uuid:), letter case of digits ignored, and returns exactly the sixteen bytes denoted. Every other text of any length is an error; the single-form parsers accept only their own form, and the extension methods on the UUID type agree.",
  ["inputs", "configurations"], "all byte strings of every length, three parsers and their UUID-type forms, every CPU the code dispatches on",
  "Tests parse random valid UUIDs and few malformed ones; a wrong byte accepted at one separator or digit position goes unseen.",
  [UU+"parse.rs", UU+"lib.rs", UU+"ext.rs", UU+"spec.rs"],
  [("hyphenated vector gather", UU+"parse.rs / spec.rs"), ("form dispatch on length", UU+"lib.rs parse")])
p("C12", "UUID formatting is exact for every value and case",
  "For every sixteen bytes and letter case, simple formatting gives the 32 hex digits and hyphenated formatting the 8-4-4-4-12 form; the display and hex adapters of the UUID type print the same text, and parsing the text gives the value back.",
  ["inputs", "configurations"], "all 2^128 values, both cases, all adapters, every CPU the code dispatches on",
  S, [UU+"format.rs", UU+"lib.rs", UU+"ext.rs", UU+"spec.rs"],
  [("hyphen scatter", UU+"format.rs / spec.rs"), ("adapters", UU+"ext.rs")])
p("C13", "ASCII validation is exact",
  "For every byte string, the ASCII test is true exactly when every byte is below 128, and the ASCII-to-str conversion returns the same bytes as text in exactly those cases and nothing otherwise.",
  ["inputs", "configurations"], "all byte strings of every length and alignment, every CPU the code dispatches on",
  "One non-ASCII byte at one offset of one tail shape is enough to break it.",
  [UN+"ascii.rs", UN+"lib.rs"], [("block, overlap and tail scans", UN+"ascii.rs")])
p("C14", "UTF-32 validation is exact",
  "For every slice of 32-bit units, the UTF-32LE validator is true exactly when every unit is a Unicode scalar value (below 0x110000 and not a surrogate).",
  ["inputs", "configurations"], "all slices of 32-bit values, every CPU the code dispatches on",
  "Tests sample a few code points; the boundaries must hold in every lane and tail.",
  [UN+"utf32.rs", UN+"lib.rs"], [("lane comparison", UN+"utf32.rs")])
p("C15", "Endianness swapping reverses every unit and nothing else",
  "For every slice of 16-bit or 32-bit units, the copying and in-place swaps replace each unit by its byte-reversal, in place and order, and the copying form leaves its source unchanged.",
  ["inputs", "configurations"], "all slices, both widths, copying and in-place, every CPU the code dispatches on",
  S, [VS+"bswap.rs", UN+"utf16.rs", UN+"utf32.rs", UN+"lib.rs"], [("block and tail swap", VS+"bswap.rs")])
p("C16", "Safe entry points never touch memory outside their buffers",
  "Whatever a caller passes to the safe functions, execution reads only initialized bytes inside the given input, writes only inside the given destination or memory it allocated itself, frees what it allocated exactly once with the right size, and never executes undefined behaviour. The same holds for the raw-pointer functions under their documented preconditions.",
  ["inputs", "configurations"], "all safe entry points, all inputs, lengths and buffer alignments, every CPU the code dispatches on",
  "Out-of-range vector loads and stores usually hit mapped memory and pass; Miri and ASan runs see only the executed inputs, and Miri not every CPU path.",
  [B64+"*.rs", HEX+"*.rs", B32+"*.rs", UU+"*.rs", UN+"*.rs", VS+"tools.rs"],
  [("unchecked reads/writes", "decode.rs/encode.rs/check.rs of each crate"), ("uninitialised allocation", VS+"tools.rs"), ("owned buffers", "heap.rs of each crate")])
p("C17", "Results do not depend on CPU features or build configuration",
  "Every public function gives the same verdict, and on success the same bytes, on every x86-64 processor, whether vector extensions are detected at run time or fixed at compile time, and with or without the standard library. No instruction of an extension is executed on a processor (or operating system) that does not support it.",
  ["configurations", "inputs"], "CPU levels SSE2, SSSE3, SSE4.1, AVX, AVX2 crossed with run-time and compile-time selection, all inputs",
  "A test machine has one CPU: only its best path ever runs through dynamic dispatch.",
  [VS+"native.rs", VS+"macros.rs", VS+"isa.rs", B64+"multiversion.rs", HEX+"multiversion.rs", B32+"multiversion.rs", UU+"multiversion.rs", UN+"multiversion.rs"],
  [("run-time dispatch cache", VS+"macros.rs"), ("feature tests", VS+"isa.rs / native.rs")])
p("C18", "No panics: short destinations and bad input give errors",
  "On every input the codec functions either succeed or return an error and never panic, abort or overflow an arithmetic check, except where the documentation announces a panic. A destination too short for the result gives an error, one that is long enough for it (for forgiving decoding: as long as the source) does not, and in a separate destination the bytes beyond the returned result keep their old value.",
  ["inputs"], "all codec functions of the five crates, all inputs, all destination lengths",
  "Tests rarely pass destinations of every length or look past the returned slice.",
  [B64+"lib.rs", B64+"forgiving.rs", B64+"parallel.rs", HEX+"lib.rs", B32+"lib.rs", UU+"lib.rs", UN+"lib.rs"],
  [("destination length checks", "lib.rs of each crate"), ("error macros", "error.rs of each crate")])
p("C19", "Appending keeps the existing contents",
  "Appending an encoding or decoding to a string or vector leaves every previously stored byte unchanged and adds exactly the result, for any prior length and spare capacity; when decoding fails, length and contents are exactly as before. Owned results hold exactly the result.",
  ["inputs", "histories"], "all prior contents and capacities, all sources, base64, hex and base32",
  "Tests append once to a short prefix and rarely through the failing path or a reallocation.",
  [B64+"heap.rs", HEX+"heap.rs", B32+"heap.rs"],
  [("reserve, write past length, set length", "heap.rs of each crate")])
p("C20", "Length calculations are right on the whole 64-bit range",
  "For every length that fits half the address space, the encoded-length functions return exactly the RFC 4648 (or doubled) size without wrapping, and panic for exactly the larger lengths; estimated decoded lengths never wrap and are never below the decoded size of any text of that length, and decoded lengths never exceed the text length.",
  ["inputs"], "all 2^64 values of the length argument, every variant",
  "Tests use small lengths; wrapping or a too-narrow limit appears only near the top of the range.",
  [B64+"encode.rs", B64+"lib.rs", HEX+"lib.rs", B32+"encode.rs", B32+"lib.rs"],
  [("length formulas", "encode.rs / lib.rs of each crate")])
p("C21", "In-place decoding equals decoding into a separate buffer",
  "For every text, decoding in place (base64, hex, base32) gives the same verdict and the same bytes as decoding the same text into a separate buffer, and on success the result is the beginning of the given buffer.",
  ["inputs", "configurations"], "all texts, all variants, every CPU the code dispatches on",
  "The source is overwritten while it is read; whether a write overtakes a read depends on the vector width and the tail shape.",
  [B64+"decode.rs", HEX+"decode.rs", B32+"decode.rs"], [("aliasing decode loops", "decode.rs of each crate")])
p("C22", "Encoding then decoding returns the original bytes",
  "For every byte string and every codec variant (base64, hex in either case, base32, UUID text), the encoded text passes the check function, decodes successfully, and gives back exactly the original bytes, also through the forgiving base64 decoder for the standard alphabet.",
  ["inputs", "configurations"], "all byte strings, all variants, every CPU the code dispatches on",
  S, [B64+"encode.rs", B64+"decode.rs", HEX+"encode.rs", HEX+"decode.rs", B32+"encode.rs", B32+"decode.rs", UU+"format.rs", UU+"parse.rs"],
  [("encoder/decoder pairs", "encode.rs and decode.rs of each crate")])
p("C23", "Parallel base64 encoding equals sequential encoding",
  "For every input, variant, thread count and order in which chunks are processed, parallel base64 encoding produces exactly the sequential text, and a destination that is too short gives an error instead of a panic.",
  ["schedules", "inputs"], "all inputs, four variants, every thread count and chunk order",
  "The test uses one pool size and the schedule it happens to get.",
  [B64+"parallel.rs"], [("chunk sizing and disjoint destinations", B64+"parallel.rs")])
p("C24", "Vector operations have the same lane-wise meaning on every instruction set",
  "Each operation of the vector layer (loads, stores, splats, lane arithmetic, saturation, comparisons, shifts, shuffles, interleaving, byte reversal, mask tests, bit tests) computes its documented lane-wise result for every operand, identically for each supported x86 instruction set and width.",
  ["inputs", "configurations"], "all operand values of every operation, for each instruction-set token of x86-64",
  "Operand space is 2^128 to 2^512; the tests cover a few operations on a few vectors and most instruction-set fallbacks never run on the test machine.",
  [VS+"simd128.rs", VS+"simd256.rs", VS+"unified.rs", VS+"scalable.rs", VS+"mask.rs", VS+"table.rs"],
  [("per-instruction-set bodies and fallbacks", VS+"simd128.rs / simd256.rs / unified.rs"), ("mask tests", VS+"mask.rs")])
p("C25", "Vector-layer text helpers classify and convert every byte correctly",
  "For every vector of bytes: ASCII case conversion changes exactly the letters of the other case; hex check, hex encode and hex decode blocks agree with the digit-by-digit definition; and table-driven classification of any byte matches its alphabet, independent of the neighbouring lanes. Swapping a slice of 2-, 4- or 8-byte units by vectors equals swapping unit by unit, and the native dispatcher runs its closure exactly once.",
  ["inputs", "configurations"], "all vector contents, each x86-64 instruction-set token",
  "Vector-wide helpers can leak bits between lanes; tests check single bytes or a few vectors.",
  [VS+"ascii.rs", VS+"hex.rs", VS+"alsw.rs", VS+"bswap.rs"],
  [("range tricks", VS+"ascii.rs"), ("hex kernels", VS+"hex.rs"), ("hashed lookup tables", VS+"alsw.rs")])
p("C26", "All codecs and vector operations behave the same on AArch64 NEON",
  "On 64-bit ARM, where the NEON code paths are compiled in, every encoder, decoder, check, in-place decoder, UUID parser and formatter, ASCII test, UTF-32 check and byte swap gives the results, verdicts and lengths its definition prescribes, for every input, without touching memory outside its arguments and without panicking; every vector operation has its documented lane-wise meaning.",
  ["inputs", "configurations"], "all inputs, all codec variants, AArch64 with NEON",
  "The NEON bodies are not even compiled on the machine that runs the tests.",
  [VS+"simd128.rs", VS+"unified.rs", VS+"mask.rs", VS+"tools.rs", B64+"multiversion.rs", HEX+"multiversion.rs", B32+"multiversion.rs", UU+"multiversion.rs"],
  [("NEON bodies", VS+"simd128.rs"), ("NEON mask tests", VS+"mask.rs"), ("static dispatch", VS+"macros.rs")])
p("C27", "All codecs and vector operations behave the same on WebAssembly",
  "On 32-bit WebAssembly, both with SIMD128 and with scalar code only, every encoder, decoder, check, in-place decoder, UUID parser and formatter, ASCII test, UTF-32 check and byte swap gives the results, verdicts and lengths its definition prescribes, for every input, without touching memory outside its arguments and without panicking; length formulas do not overflow 32-bit sizes; every vector operation has its documented lane-wise meaning.",
  ["inputs", "configurations"], "all inputs, all codec variants, wasm32 with and without simd128, 32-bit lengths",
  "The WASM bodies and 32-bit lengths are not even compiled on the machine that runs the tests.",
  [VS+"simd128.rs", VS+"unified.rs", VS+"mask.rs", VS+"tools.rs", B64+"multiversion.rs", HEX+"multiversion.rs", B32+"multiversion.rs", UU+"multiversion.rs"],
  [("WASM bodies", VS+"simd128.rs"), ("WASM mask tests", VS+"mask.rs"), ("32-bit length arithmetic", B64+"encode.rs / decode.rs")])
p("C28", "Concurrent and repeated calls behave like single calls",
  "Calls made from several threads at once, including first calls that race to detect the processor's features, and calls made after any earlier calls, give exactly the result each would give alone in a fresh process; no two threads access the library's own memory without synchronisation.",
  ["schedules", "histories", "inputs"], "all interleavings of calls from different threads, all inputs, any earlier calls, every CPU the code dispatches on",
  "Each public function resolves its implementation on first use and stores it in shared memory; the tests call one function at a time and cannot choose the interleaving.",
  [VS+"macros.rs", VS+"isa.rs", UU+"ext.rs"],
  [("cached function pointers", VS+"macros.rs (dispatch!)"), ("feature detection", VS+"isa.rs")])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write(
    "".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    assert x["statement"].count(". ") <= 2, x["id"]
