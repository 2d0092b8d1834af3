#!/usr/bin/env python3
# Generates properties.jsonl (run by hand; the committed properties.jsonl is its output).
import json
I=["inputs"]; IC=["inputs","configurations"]
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=state
    d["anchors"]["hook_needed"]=None
    P.append(d)
B="crates/base64-simd/src/"; T="crates/base32-simd/src/"; H="crates/hex-simd/src/"; U="crates/uuid-simd/src/"; N="crates/unicode-simd/src/"; V="crates/vsimd/src/"
p("C01","Base64 encoding is exactly RFC 4648 for every input",
 "For every byte string and each of the four base64 variants (standard/URL-safe alphabet, with/without padding), encoding into a sufficiently large buffer succeeds and yields exactly the RFC 4648 text, of exactly the announced encoded length, in the first bytes of the buffer. If the destination is shorter than the encoded length, an error is returned instead. The string-typed form returns the same bytes.",
 IC,"all source byte strings of every length, all destination sizes, all four variants, every x86-64 instruction-set path and the scalar fallback",
 "Tests encode random strings shorter than 128 bytes with the ISA of one machine; length is unbounded and each block position/byte value/tail combination differs per instruction set.",
 [B+"encode.rs",B+"lib.rs",B+"multiversion.rs",V+"simd256.rs",V+"simd128.rs"],
 [("vector kernels and scalar tails",B+"encode.rs: encode_simd, encode_fallback, encode_extra, split_bits_x1/x2, encode_values"),("length computation",B+"encode.rs: encoded_length_unchecked"),("public entry",B+"lib.rs: Base64::encode, encode_as_str")],
 ["Base64::encode","Base64::encode_as_str"])
p("C02","Strict base64 decoding accepts exactly the canonical strings",
 "For each base64 variant, decoding succeeds exactly when the input is the RFC 4648 encoding of some byte string in that variant (right alphabet, exact padding discipline, zero trailing bits) and the destination can hold the result. On success it returns exactly the bytes whose encoding is the input. Every other input, whatever the position of the offending byte, is rejected with an error.",
 IC,"all inputs of every length and content, all destination sizes, four variants, all ISA paths",
 "Tests decode a few valid texts and a handful of bad ones; a wrong byte may be at any of unboundedly many positions in SIMD blocks, scalar blocks or tails.",
 [B+"decode.rs",B+"alsw.rs",B+"lib.rs",V+"alsw.rs"],
 [("block decode with table/ALSW classification",B+"decode.rs: decode_simd, decode_fallback, decode_ascii8/4, decode_extra, merge_bits_x2"),("classification tables",B+"alsw.rs, "+V+"alsw.rs: decode_ascii_xn"),("padding and length",B+"decode.rs: decoded_length")],
 ["Base64::decode"])
p("C03","Base64 check, in-place decode and length query agree with decoding",
 "For each base64 variant and every input, validation succeeds exactly when decoding (with room) succeeds; in-place decoding succeeds on exactly the same inputs and leaves the same bytes at the front of the buffer; and the decoded-length query, whenever decoding succeeds, returns exactly the decoded size.",
 IC,"all inputs, four variants, all ISA paths",
 "In-place decoding reads and writes one buffer with overlapping wide stores; agreement is a relation over all inputs, tests compare a few short valid ones and almost no invalid ones.",
 [B+"check.rs",B+"decode.rs",B+"lib.rs",V+"alsw.rs"],
 [("validation loops",B+"check.rs: check_simd, check_fallback"),("in-place aliasing order",B+"lib.rs: decode_inplace + "+B+"decode.rs"),("length",B+"decode.rs: decoded_length")],
 ["Base64::check","Base64::decode_inplace","Base64::decoded_length"])
p("C04","Forgiving base64 implements the WHATWG forgiving-base64 algorithm",
 "Forgiving decoding removes exactly the ASCII whitespace (tab, LF, FF, CR, space) wherever it occurs, then at most two '=' when the remaining length is a multiple of four, fails when the remainder is 1 modulo 4 or contains a byte outside the standard alphabet, and otherwise returns the decoded bytes discarding leftover bits. The in-place, copying and allocating forms give the same result for the same input.",
 IC,"all inputs (any interleaving of whitespace, padding and text), all lengths, the three API forms, all ISA paths",
 "Five literal strings are tested; whitespace can appear anywhere relative to 16/32-byte vector blocks, in runs, and inside or after padding.",
 [B+"forgiving.rs",B+"ascii.rs",B+"decode.rs"],
 [("whitespace search",B+"ascii.rs: find_non_ascii_whitespace_*"),("compaction",B+"ascii.rs: remove_ascii_whitespace_*"),("forgiving strictness switch",B+"decode.rs: decode_extra, decoded_length")],
 ["forgiving_decode","forgiving_decode_inplace","forgiving_decode_to_vec"])
p("C05","Hex encoding is exact in both cases for every input",
 "For every byte string and both letter cases, hex encoding into a destination of at least twice the length succeeds and yields exactly two digits per byte, high nibble first, in the requested case; with less room it returns an error. The raw-pointer and string-typed forms produce the same text.",
 IC,"all inputs of every length, both cases, all destination sizes, all ISA paths",
 "Tests use random strings of limited length; every nibble value in every lane, block and tail must map correctly on each ISA.",
 [H+"encode.rs",H+"lib.rs",V+"hex.rs"],
 [("vector and scalar encoders",H+"encode.rs"),("lookup kernels",V+"hex.rs: encode_bytes16/32, sse2::encode16")],
 ["hex_simd::encode","encode_raw","encode_as_str"])
p("C06","Hex decoding and checking accept exactly hexadecimal digits",
 "Hex decoding succeeds exactly when the input has even length, consists only of 0-9, a-f, A-F (mixed case allowed) and the destination has room, and then yields the byte denoted by each pair; every other input is an error. Checking succeeds exactly when all bytes are hex digits, and the in-place and raw forms agree with the copying form.",
 IC,"all inputs of every length and content, all ISA paths",
 "Tests reject only a few malformed strings; each of the 234 non-digit byte values at any of unboundedly many positions must be rejected by every kernel.",
 [H+"decode.rs",H+"check.rs",H+"lib.rs",V+"hex.rs",V+"alsw.rs"],
 [("decode loops and error accumulation",H+"decode.rs"),("check loops",H+"check.rs"),("digit classification",V+"hex.rs: unhex, decode_ascii16/32, check_xn, sse2::decode_nibbles")],
 ["hex_simd::decode","decode_inplace","decode_raw","check","check_raw"])
p("C07","Base32 encoding is exactly RFC 4648 for every input",
 "For every byte string and each base32 variant (base32 / base32hex alphabet, with/without padding), encoding into a large enough buffer succeeds and yields exactly the RFC 4648 text, of exactly the announced encoded length; with less room it returns an error.",
 IC,"all inputs of every length, four variants, all destination sizes, all ISA paths",
 "Random short strings on one machine; unbounded length, five tail classes, and per-ISA bit-splitting kernels.",
 [T+"encode.rs",T+"lib.rs"],
 [("vector kernel, scalar block and tails",T+"encode.rs: encode_simd, split_bits, encode_values, encode_fallback, encode_extra"),("length",T+"encode.rs: encoded_length_unchecked")],
 ["Base32::encode","Base32::encode_as_str"])
p("C08","Strict base32 decoding accepts exactly the canonical strings",
 "For each base32 variant, decoding succeeds exactly when the input is the RFC 4648 encoding of some byte string in that variant (right alphabet, exact padding, zero trailing bits) and the destination has room; it then returns exactly those bytes, and every other input is rejected with an error.",
 IC,"all inputs of every length and content, four variants, all destination sizes, all ISA paths",
 "A few valid and invalid strings; offending byte may be anywhere, and pad bytes may be anywhere in the last block.",
 [T+"decode.rs",T+"alsw.rs",T+"lib.rs",V+"alsw.rs"],
 [("block decode and tails",T+"decode.rs: decode_simd, decode_fallback, decode_bits, decode_extra"),("padding and length",T+"decode.rs: decoded_length"),("classification tables",T+"alsw.rs")],
 ["Base32::decode"])
p("C09","Base32 check, in-place decode and length query agree with decoding",
 "For each base32 variant and every input, validation succeeds exactly when decoding (with room) succeeds, in-place decoding succeeds on exactly the same inputs and leaves the same bytes at the front of the buffer, and the decoded-length query returns exactly the decoded size whenever decoding succeeds.",
 IC,"all inputs, four variants, all ISA paths",
 "Agreement is relational over all inputs; in-place decoding overlaps wide stores with later loads.",
 [T+"check.rs",T+"decode.rs",T+"lib.rs"],
 [("validation",T+"check.rs"),("in-place order",T+"lib.rs: decode_inplace, "+T+"decode.rs")],
 ["Base32::check","Base32::decode_inplace","Base32::decoded_length"])
p("C10","UUID parsing accepts exactly the four documented text forms",
 "Parsing accepts exactly: 32 hex digits; 36-character hyphenated form with hyphens at the four fixed positions; that form in braces; and that form after 'urn:uuid:'; the form-specific functions accept exactly their own form. On success the 16 bytes are those denoted by the digits in order; everything else (any other length, misplaced hyphen, non-hex byte, missing brace or prefix) is an error.",
 IC,"all byte strings of every length, all ISA paths",
 "A few UUIDs are tested; each of 32 digit positions times 256 byte values and every wrong length must be decided correctly on each ISA.",
 [U+"parse.rs",U+"spec.rs",U+"lib.rs",U+"ext.rs",V+"hex.rs"],
 [("form selection",U+"lib.rs: parse, parse_simple, parse_hyphenated"),("kernels",U+"parse.rs, "+U+"spec.rs")],
 ["uuid_simd::parse","parse_simple","parse_hyphenated","UuidExt::parse*"])
p("C11","UUID formatting is exact in every form and case",
 "For every 128-bit value and both cases, simple formatting yields the 32 hex digits in order and hyphenated formatting yields them with hyphens at positions 8, 13, 18 and 23; the display and hex-format adapters print exactly these texts (display is lower case).",
 IC,"all 2^128 values, both cases, both forms, all ISA paths",
 "Tests format a couple of UUIDs; lane shuffles for hyphen insertion differ per ISA.",
 [U+"format.rs",U+"spec.rs",U+"lib.rs",U+"ext.rs",V+"hex.rs"],
 [("kernels",U+"format.rs"),("adapters",U+"ext.rs")],
 ["uuid_simd::format_simple","format_hyphenated","UuidExt"])
p("C12","ASCII validation is exact",
 "The ASCII test returns true exactly when every byte is below 0x80, for every length including zero and wherever the offending byte is, and the string conversion returns that very slice exactly when the test is true.",
 IC,"all byte strings of every length, all ISA paths",
 "Tests cover lengths below 256 with one flipped byte pattern; overlapping tail loads and 64-byte blocks need every length class and position.",
 [N+"ascii.rs",N+"lib.rs"],
 [("length-class kernels",N+"ascii.rs: is_ascii_sse2 (check_tiny/short/medium/long), is_ascii_simd_v256, is_ascii_fallback")],
 ["unicode_simd::is_ascii","from_ascii"])
p("C13","UTF-32 validation accepts exactly sequences of Unicode scalar values",
 "The UTF-32LE test returns true exactly when every 32-bit element is at most 0x10FFFF and not a surrogate (0xD800-0xDFFF), for every length and position.",
 IC,"all u32 sequences of every length, all ISA paths",
 "There is no test for it at all.",
 [N+"utf32.rs",N+"lib.rs",V+"simd256.rs",V+"simd128.rs"],
 [("range trick and max accumulation",N+"utf32.rs: is_utf32le_simd, is_utf32le_fallback")],
 ["unicode_simd::is_utf32le"])
p("C14","UTF-16/UTF-32 byte swapping swaps every element, in and out of place",
 "Endianness swapping reverses the bytes of every element and nothing else, for every length, both widths, in place and into a separate buffer; the out-of-place form returns exactly the first elements of the destination and refuses (by its documented assertion) a destination shorter than the source. Every supported instruction-set level produces the result rather than aborting.",
 IC,"all u16/u32 sequences of every length, both forms, every x86-64 ISA level",
 "There is no test for these functions in the unicode crate; the SSSE3-only level is run by no test configuration.",
 [N+"utf16.rs",N+"utf32.rs",N+"lib.rs",V+"bswap.rs",V+"simd128.rs",V+"simd256.rs"],
 [("swap loops",V+"bswap.rs: bswap_fallback, bswap_simd"),("lane shuffles",V+"simd128.rs, "+V+"simd256.rs: *_bswap")],
 ["utf16_swap_endianness*","utf32_swap_endianness*"])
p("C15","No operation touches memory outside its buffers or beyond its result",
 "For every input and every destination size, every codec, validator and formatter reads only bytes of its source, writes only bytes of its destination, and never writes past the end of the region that holds its result (encoders and strict decoders leave destination bytes beyond the result untouched). No result depends on uninitialised destination contents.",
 IC,"all inputs, lengths and destination sizes of every public operation, all ISA paths",
 "Out-of-bounds vector loads/stores occur only for particular lengths relative to block sizes and are silent under ordinary tests; sanitizer and Miri runs cover only the tested lengths.",
 [B+"encode.rs",B+"decode.rs",B+"check.rs",B+"ascii.rs",H+"encode.rs",H+"decode.rs",H+"check.rs",T+"encode.rs",T+"decode.rs",T+"check.rs",U+"parse.rs",U+"format.rs",N+"ascii.rs",N+"utf32.rs",V+"bswap.rs",V+"tools.rs",V+"native.rs"],
 [("loop guards leaving room for wide loads/stores","all *_simd functions"),("length checks before unsafe calls","lib.rs of each crate")])
p("C16","No operation panics, overflows or hangs on any input",
 "Every public codec, validator and formatter returns normally for every input and destination size, with debug assertions and overflow checks enabled, except for the documented assertions (length above half the address space; destination shorter than source in out-of-place swapping). No arithmetic overflow, failed assertion, unreachable code or non-terminating loop is reachable on any supported instruction-set level.",
 IC,"all inputs, lengths and destination sizes, all ISA levels",
 "A panic hides behind one length class or one ISA level (SSSE3-only is never run by the test matrix); termination is a for-all statement.",
 [B+"lib.rs",H+"lib.rs",T+"lib.rs",U+"lib.rs",N+"lib.rs",V+"simd128.rs",V+"simd256.rs",V+"unified.rs",V+"bswap.rs"],
 [("exhaustive ISA selection with unreachable!() fallthrough",V+"simd128.rs, "+V+"simd256.rs, "+V+"unified.rs"),("checked arithmetic","lib.rs, encode.rs, decode.rs")])
p("C17","Allocating and appending forms give the same bytes and keep the rest",
 "The allocating encode/decode forms return exactly what the slice forms would (and fail exactly when they fail); the appending forms keep the previous contents, add exactly the encoded or decoded bytes at the end, and leave the vector's length and contents unchanged when the input is invalid.",
 I,"all inputs, all prior vector contents, lengths and capacities, base64, base32 and hex",
 "Heap tests use small literals with empty or short vectors; prior length/capacity and failure are not varied.",
 [B+"heap.rs",T+"heap.rs",H+"heap.rs",V+"tools.rs",B+"forgiving.rs"],
 [("uninitialised allocation then fill",V+"tools.rs: alloc_uninit_bytes, assume_init, boxed_str"),("reserve, fill, set length","heap.rs: *_append_vec"),("boxing","heap.rs: *_to_boxed_*")],
 ["encode_type","decode_type","encode_append","decode_append","encode_to_string","decode_to_vec"])
p("C18","Dispatch runs only instruction sets the CPU has, with one result",
 "With and without run-time detection, an operation executes a code path compiled for an instruction-set extension only if that extension is enabled at compile time or (with detection) reported by the CPU, on the first call and on every later call from any thread; whichever path is chosen, the result is the same as that of the portable fallback.",
 ["inputs","configurations","schedules"],"all CPU feature sets, first and later calls, all inputs",
 "Tests run on one CPU with one feature set; a path for a smaller feature set is never selected there.",
 [V+"macros.rs",V+"isa.rs",B+"multiversion.rs",T+"multiversion.rs",H+"multiversion.rs",U+"multiversion.rs",N+"multiversion.rs",V+"native.rs"],
 [("resolver and cached function pointer",V+"macros.rs: dispatch! (resolve, init_ifunc, auto)"),("feature tests",V+"isa.rs: is_enabled")],
 state=[dict(name="cached function pointer",meaning="implementation selected for this process",where=V+"macros.rs: IFUNC")])
p("C19","Every vector operation is lane-exact on every instruction-set level",
 "Each 128-bit and 256-bit vector operation of the SIMD layer (add, subtract, saturating ops, compares, min/max, shifts, multiplies, shuffles, blends, masks, zips, byte swaps, loads/stores, splats) returns, for all operand values, exactly the lane-wise mathematical result its name denotes, identically at every x86-64 instruction-set level that offers it.",
 IC,"all operand values (2^128..2^512), every operation, every ISA level",
 "Tests run a few operations on fixed vectors; operand space is astronomically large and several ISA levels have separate emulation code.",
 [V+"simd128.rs",V+"simd256.rs",V+"unified.rs",V+"scalable.rs",V+"vector.rs"],
 [("per-ISA implementations and emulations",V+"simd128.rs, "+V+"simd256.rs, "+V+"unified.rs")])
p("C20","Encoding followed by decoding is the identity, in every variant",
 "For every byte string, decoding its own encoding in the same base64, base32 or hex variant (hex: either case), by any decoding form, returns the original bytes; and for every text a strict decoder accepts, re-encoding the result gives back that text (hex: up to letter case). UUID formatting followed by parsing returns the same value.",
 I,"all byte strings and all accepted texts, all variants",
 "Round-trip tests sample short random strings; identity must hold for every length and content.",
 [B+"encode.rs",B+"decode.rs",T+"encode.rs",T+"decode.rs",H+"encode.rs",H+"decode.rs",U+"parse.rs",U+"format.rs"],
 [("encoder/decoder pairs meeting inverse specifications","encode.rs/decode.rs of each crate")])
p("C21","Vector text kernels match their scalar meaning on every byte",
 "The vector building blocks for text - ASCII case conversion, hex digit check/decode/encode, whole-vector byte classification and decoding by hashed lookup tables, high-bit and all-zero tests - agree lane by lane with their scalar definitions for every vector value, on every instruction-set level that offers them.",
 IC,"all vector values, every x86-64 ISA level",
 "Case conversion and classification tests use selected strings; every byte value in every lane must be right, on ISA levels not run in tests too.",
 [V+"ascii.rs",V+"hex.rs",V+"alsw.rs",V+"mask.rs",V+"table.rs"],
 [("case conversion",V+"ascii.rs"),("hex kernels",V+"hex.rs"),("ALSW",V+"alsw.rs"),("mask tests",V+"mask.rs")])
p("C22","Parallel base64 encoding equals sequential encoding",
 "For every input and destination, parallel base64 encoding returns the same result as sequential encoding: the same bytes when the destination is large enough, and an error - not a crash - when it is too short.",
 ["inputs","schedules"],"all inputs and destination sizes, all thread schedules",
 "One test with one random length; chunk boundaries and too-short destinations are not varied.",
 [B+"parallel.rs",B+"lib.rs"],
 [("chunking",B+"parallel.rs: par_encode")])
p("C23","Length calculations are exact or safe upper bounds for every length",
 "For every length up to half the address space, the encoded-length functions return exactly the size of the encoding (larger lengths hit the documented assertion); the estimated decoded length is never smaller than the size of any successful decoding of an input of that length; hex's decoded length is exactly half for even lengths and an error for odd ones. None of them overflows on any argument within its documented range.",
 I,"all 2^64 length arguments, all variants",
 "Tests use small lengths; rounding and overflow at the extremes need a for-all argument.",
 [B+"lib.rs",B+"encode.rs",T+"lib.rs",T+"encode.rs",H+"lib.rs"],
 [("length arithmetic","encoded_length, estimated_decoded_length, decoded_length in each crate")])
ALLC=[B+"lib.rs",B+"encode.rs",B+"decode.rs",B+"check.rs",B+"forgiving.rs",B+"ascii.rs",T+"lib.rs",T+"encode.rs",T+"decode.rs",T+"check.rs",H+"lib.rs",H+"encode.rs",H+"decode.rs",H+"check.rs",U+"parse.rs",U+"format.rs",N+"ascii.rs",N+"utf32.rs",V+"bswap.rs",V+"simd128.rs",V+"simd256.rs",V+"unified.rs",V+"alsw.rs",V+"hex.rs",V+"ascii.rs",V+"mask.rs",V+"macros.rs"]
p("C24","On AArch64 (NEON) all codecs and vector operations are exact too",
 "Compiled for 64-bit ARM, where the NEON paths are selected, base64 (including forgiving decoding), base32, hex, UUID and Unicode operations give for every input exactly the results, errors, lengths and buffer effects they give on x86-64, without out-of-bounds access, panic or overflow; and each vector operation and text kernel of the SIMD layer offered for NEON returns, for all operand values, exactly the lane-wise result its name denotes.",
 IC,"all inputs, lengths, destination sizes and operand values, on aarch64 with NEON",
 "The test machine is x86-64: none of the NEON code is compiled, let alone run, by the tests.",
 ALLC,[("NEON implementations of vector operations",V+"simd128.rs, "+V+"simd256.rs"),("NEON-specific kernels",B+"encode.rs, "+B+"decode.rs, "+U+"parse.rs, "+U+"format.rs, "+V+"table.rs, "+V+"mask.rs"),("compile-time selection",V+"isa.rs, "+V+"macros.rs")])
p("C25","On WebAssembly (simd128) all codecs and vector operations are exact too",
 "Compiled for 32-bit WebAssembly with simd128, base64 (including forgiving decoding), base32, hex, UUID and Unicode operations, and the length calculations with a 32-bit usize, give for every input exactly the results, errors, lengths and buffer effects their contracts state, without out-of-bounds access, undocumented panic or overflow; and each vector operation and text kernel of the SIMD layer offered for simd128 returns, for all operand values, exactly the lane-wise result its name denotes.",
 IC,"all inputs, all 32-bit lengths, destination sizes and operand values, on wasm32 with simd128",
 "The test machine is x86-64: none of the simd128 code is compiled by the tests, and no test runs with a 32-bit usize.",
 ALLC,[("simd128 implementations of vector operations",V+"simd128.rs, "+V+"simd256.rs"),("simd128-specific kernels",B+"encode.rs, "+V+"table.rs, "+V+"mask.rs"),("length arithmetic on a 32-bit usize",B+"encode.rs, "+T+"encode.rs")])
p("C26","On 32-bit x86 and on scalar-only targets of either byte order too",
 "Compiled for 32-bit x86 (with run-time detection, every instruction-set level), for a big-endian 64-bit machine and for a 32-bit machine without SIMD (the portable fallback code), base64 (including forgiving decoding), base32, hex, UUID and Unicode operations and the length calculations give for every input exactly the results, errors, lengths and buffer effects their contracts state, without out-of-bounds access, undocumented panic or overflow. (Not stated: what is_utf32le means for the native u32 values of a big-endian machine.)",
 IC,"all inputs, lengths and destination sizes, on i686, powerpc64 (big-endian) and wasm32 without simd128",
 "The tests run on 64-bit little-endian x86: byte-order conversions are never exercised the other way round, the portable code only sees short tails there, and usize is never 32 bits.",
 ALLC,[("byte-order conversions in the scalar kernels",B+"encode.rs, "+B+"decode.rs, "+T+"encode.rs, "+T+"decode.rs"),("portable fallback kernels","*_fallback functions"),("length arithmetic on a 32-bit usize",B+"encode.rs, "+T+"encode.rs")])
with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
