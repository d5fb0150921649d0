#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing (writes both, validates if jsonschema is there)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, quant, why, files, mech, observe, level_note, claim=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, note=level_note, claim=claim, na=na))

I, C, H, F, PR = "inputs", "configurations", "histories", "fault_sequences", "programs"
D = "src/implementations/"
X = "revision-derive/src/expand/"

prop("P01", "Integer wire format is the documented one, round-trips, and is checked",
 "Every integer of every built-in width is written in the documented layout (compact tagged form or fixed width, zig-zag for signed values) and reads back as itself, consuming exactly the bytes written. Decoding an integer from arbitrary bytes returns the value the layout assigns to them or an error, never a different value, a truncated value, a panic, or more bytes than the layout says.",
 [I, C], "all values of u8..u128, i8..i128, usize, isize; all byte strings up to 18 bytes; both integer encodings; with and without overflow checks",
 "The unit tests try extremes and a few middle values per type; the class boundaries (250/251, 2^16, 2^32, 2^64) times every width and every corrupt tag are a product no list samples.",
 [D+"primitives.rs"], [("tagged compact integers", D+"primitives.rs encode_u64/decode_u64/encode_u128/decode_u128"), ("zig-zag", D+"primitives.rs zigzag_64/zigzag_128"), ("narrowing", D+"primitives.rs try_into -> IntegerOverflow"), ("fixed-width helpers", D+"primitives.rs fixed_le_helpers!")],
 ["to_vec / from_slice"], "All values and all inputs up to the bound, both encodings, checked and unchecked arithmetic builds.")

prop("P02", "Scalars, text, time and structural types round-trip exactly",
 "Encoding a boolean, character, float, string, path, duration, system time, tuple, array, option, result, bound, range, wrapper or smart pointer and decoding it yields an equal value (bit-identical for floats) and consumes exactly the encoding, whatever bytes follow. No proper prefix of such an encoding decodes successfully.",
 [I, C], "all values of the listed types, strings up to 4 arbitrary bytes plus the lengths around the one-byte length limit, every trailing byte, every cut point; both integer encodings",
 "Tests round-trip a handful of constants per type; equality for every bit pattern, every char and every cut point is a universal claim.",
 [D+f for f in ("primitives.rs","string.rs","path.rs","duration.rs","system_time.rs","tuple.rs","arrays.rs","option.rs","result.rs","bound.rs","range.rs","wrapping.rs","reverse.rs","cow.rs","boxes.rs","arc.rs")],
 [("per-type encoders and decoders", D)], ["SerializeRevisioned / DeserializeRevisioned of the types"], "All values within the size bounds; floats compared by bit pattern.")

prop("P03", "Collections round-trip",
 "Encoding a vector, hash map, ordered map, hash set, ordered set or binary heap of any content and decoding it yields a collection with the same content (same order for vectors), consumes exactly the encoding, and no proper prefix of the encoding decodes successfully.",
 [I, C], "collections of up to 3 elements with arbitrary keys and values (element types with compact, raw, string and nested encodings), any key order; both integer encodings; bulk encoding on and off",
 "Tests use one or two literal collections each; duplicates, order and element values are universally quantified.",
 [D+"collections.rs", D+"vecs.rs"], [("length prefix then entries", D+"collections.rs"), ("vector dispatch", D+"vecs.rs")], ["SerializeRevisioned / DeserializeRevisioned of the collections"], "All contents up to 3 elements; hash tables with a fixed hasher.")

prop("P04", "Built-in decoders and skippers are total on malformed input",
 "Decoding or skipping any built-in type from an arbitrary byte string returns a value or an error: it never panics, never overflows, never reads outside the input and always terminates. A successful result never claims more bytes than the input holds.",
 [I, C], "every byte string up to 10..18 bytes per type; a corrupt length prefix that asks for more memory than exists is documented as the caller's business and ends the path",
 "The corruption tests truncate and flip selected bytes; totality is a claim about every byte string.",
 [D, "src/slice_reader.rs", "src/lib.rs"], [("input validation in each decoder", D), ("bounds checks of the slice reader", "src/slice_reader.rs")], ["from_slice, skip_slice, skip_reader"], "Every input up to the stated lengths; memory safety and arithmetic overflow are checked on every path.")

prop("P05", "Skipping consumes exactly what decoding consumes",
 "For every built-in type and every input that decodes successfully, each skipping entry point (over a reader, over a slice, plain or checking) succeeds and consumes exactly the bytes decoding consumes. A checking skip accepts an input only if decoding accepts it.",
 [I, C], "every byte string up to the bound, per built-in type; reader and slice variants; both integer encodings; bulk encoding on and off",
 "Skip tests compare consumed lengths for a few encodings; agreement on every input, including non-canonical and corrupt ones, is universal.",
 [D+"skip.rs", "src/lib.rs", "src/slice_reader.rs"], [("per-type skip", D+"skip.rs"), ("slice variants", "src/slice_reader.rs"), ("entry points", "src/lib.rs skip_slice/skip_check_slice")], ["skip_slice, skip_check_slice, skip_reader, skip_check_reader"], "Every input up to the stated lengths.")

prop("P06", "Decoding does not depend on how the reader delivers bytes",
 "Decoding or skipping from a reader that delivers its bytes in arbitrary pieces, with interruptions anywhere, gives exactly the result of decoding the whole slice. A reader that fails or ends at any point yields an error (never a panic, a hang or a wrong value), and an early end is distinguishable from success.",
 [I, F], "every piece length and interruption at every read call, failure at every byte position, for values of every built-in family and derived types within the size bounds",
 "Tests read from slices and cursors, which always deliver everything asked for.",
 [D, "src/slice_reader.rs"], [("read_exact everywhere", D+"primitives.rs read_buffer"), ("bulk reads", D+"specialised.rs"), ("chunked skipping", "src/slice_reader.rs advance_read")], ["from_reader, skip_reader"], "The fault schedule is symbolic; up to the stated number of bytes.")

prop("P07", "A write error or a short write never loses data silently",
 "Encoding into a writer that accepts only part of each write, or is interrupted, delivers exactly the bytes that encoding into memory produces. If the writer refuses data at any point, encoding returns an error.",
 [I, F], "every acceptance length at every write call and a failure at every byte position, for values of every built-in family and derived types",
 "All tests write into a Vec, which accepts everything.",
 [D, "src/lib.rs", "src/optimised/envelope.rs"], [("write_all everywhere", D), ("envelope buffering", "src/optimised/envelope.rs")], ["to_writer / SerializeRevisioned"], "The fault schedule is symbolic; up to the stated number of bytes.")

prop("P08", "Bulk-encoded vectors keep their documented layout",
 "With bulk encoding enabled, a vector of numbers or booleans is written as its length followed by raw little-endian elements (booleans packed eight per byte, low bit first), and reads back, skips and walks consistently; every other vector is written as length then each element's own encoding. A per-field bulk encoding uses the same layout whether or not the global option is enabled.",
 [I, C], "all element values, vectors up to 3 elements (booleans up to 17), every numeric element type; option on and off",
 "Tests compare round trips of sample vectors; the layout for each element type and length modulo 8 is not pinned.",
 [D+"specialised.rs", D+"vecs.rs"], [("bulk read/write per element type", D+"specialised.rs"), ("type dispatch", D+"vecs.rs")], ["bytes of SerializeRevisioned for Vec"], "All element values up to the stated lengths.")

prop("P09", "The compact tag and its envelope are encoded and checked as documented",
 "A tag byte carries the variant number and size class it was built from and reads back the same; an envelope of any class is read, sliced and skipped consistently with what was written, and an oversized or truncated length yields an error. Reserved tag bit patterns are rejected.",
 [I], "all 256 tag bytes, all variant numbers and classes, all payloads up to 4 bytes, all length prefixes",
 "Tests pick a few variant numbers and one overrun.",
 ["src/optimised/tag.rs", "src/optimised/envelope.rs"], [("tag packing", "src/optimised/tag.rs"), ("length-prefixed payload", "src/optimised/envelope.rs")], ["Tag, encode_*, read_*, skip_varlen"], "All tags; all payloads within the bound.")

prop("P10", "Indexed maps: encoding round-trips and every lookup is exact",
 "A map encoded with an offset table decodes to the same map, is skipped exactly, and a lookup for any key finds that key's value exactly when the map contains it, from any hint. Iteration yields every entry once, in ascending order of encoded key.",
 [I, H, C], "maps of sizes on both sides of the table threshold (0, 1, 2, 6 to 10 entries) and of the one-byte length limit, arbitrary keys, values, looked-up key and hint",
 "Tests look up a few present keys in one or two maps; absent keys, hints and every position need quantification.",
 ["src/optimised/indexed/serialize.rs", "src/optimised/indexed/map_walk.rs"], [("sorted key region + offset table", "src/optimised/indexed/serialize.rs serialize_indexed_entries"), ("binary search and hint", "src/optimised/indexed/map_walk.rs")], ["IndexedMapWalker, serialize/deserialize/skip_indexed_map"], "Sizes up to the bound; keys and values symbolic bytes.")

prop("P11", "Indexed sequences and sets: encoding round-trips and every element is reachable",
 "A sequence or set encoded with an offset table decodes to the same content, is skipped exactly, and element access at any index returns exactly that element's encoding, or an error beyond the end.",
 [I, C], "sequences of sizes on both sides of the table threshold (0, 1, 2, 6 to 10 elements) and of the one-byte length limit, arbitrary element values and index",
 "Tests read every element of one fixed sequence.",
 ["src/optimised/indexed/serialize.rs", "src/optimised/indexed/seq_walk.rs"], [("offset table", "src/optimised/indexed/serialize.rs serialize_indexed_seq_iter"), ("element access", "src/optimised/indexed/seq_walk.rs")], ["IndexedSeqWalker, serialize/deserialize/skip_indexed_seq/set"], "Sizes up to the bound; element values symbolic.")

prop("P12", "Indexed structs: fields are reachable in any order and equal decoding",
 "For a struct written with a field offset table, each field's bytes can be fetched in any order and are exactly that field's encoding; whole decoding, skipping and walking agree with each other and consume the same bytes.",
 [I, H], "all field values within the bound, every access order of the fields",
 "Tests access fields of fixed instances in one order.",
 ["src/optimised/indexed/struct_walk.rs", X+"optimised/struct_codegen.rs"], [("offset table", X+"optimised/struct_codegen.rs"), ("field slices", "src/optimised/indexed/struct_walk.rs")], ["IndexedStructWalker, derived walker"], "All field values within the bound.")

prop("P13", "Corrupt indexed payloads never panic or read out of bounds",
 "Opening and using the validating indexed struct, map and sequence readers, or the non-validating map reader, over an arbitrary payload returns values or errors: no panic, no arithmetic overflow, no access outside the payload. Opening the non-validating struct and sequence readers is equally total (their accessors document that corrupt offsets panic), and so is decoding and skipping an indexed map or sequence from arbitrary bytes.",
 [I], "every payload up to the stated length, every index, hint and predicate outcome",
 "Corruption tests alter chosen offsets of one payload.",
 ["src/optimised/indexed/map_walk.rs", "src/optimised/indexed/seq_walk.rs", "src/optimised/indexed/struct_walk.rs", "src/optimised/validation.rs", "src/optimised/indexed/serialize.rs"], [("prologue validation", "src/optimised/validation.rs"), ("checked slicing", "src/optimised/indexed")], ["from_payload, from_payload_unvalidated, accessors"], "Every payload up to the stated length.")

prop("P14", "Walking agrees with decoding under every sequence of choices",
 "For options, results, sequences, maps, leaves and nested combinations, any sequence of walk, decode and skip choices made through the walkers yields the same values as decoding, and leaves the reader exactly where decoding leaves it. Where decoding fails, walking fails too instead of yielding a wrong value.",
 [I, H], "every input up to the bound and every sequence of choices per element",
 "Tests drive one fixed sequence of calls over one value.",
 ["src/walk.rs", D+"walk.rs"], [("cursor discipline", "src/walk.rs"), ("walker selection per type", D+"walk.rs")], ["WalkRevisioned walkers"], "Every input up to the bound and every choice sequence.")

prop("P15", "Map walking: search and entry order are exact and misuse is an error",
 "Searching a walked map asks the predicate about the keys in wire order until it answers equal (the search returns that entry, positioned at its value) or greater (nothing is found), and where nothing is found the whole map has been consumed. An entry's key and value are available in that order only: a value operation before the key, or a key operation twice, is an error and never yields misaligned data.",
 [I, H], "every map up to 3 entries, every predicate outcome sequence, every order of operations on an entry",
 "Tests search for present keys and make one or two misuse calls.",
 ["src/walk.rs"], [("entry cursor", "src/walk.rs MapEntry::expect_cursor"), ("find/find_bytes", "src/walk.rs MapWalker")], ["MapWalker, MapEntry"], "Every map within the bound.")

prop("P16", "Old encodings of an evolving struct decode to the documented value",
 "A struct value encoded by any earlier revision of its type decodes in the current revision with retained fields unchanged, removed fields handed to their conversion, and added fields set by their default, in revision order. Encoding always uses the current revision's layout.",
 [I, H, PR], "all field values of all historical revisions of representative evolving structs (named, tuple, unit, nested; added, removed, renamed-by-conversion, start/end ranges; legacy and compact layouts; more than 250 revisions)",
 "Migration tests decode one literal per revision.",
 [X+"de.rs", X+"ser.rs", X+"common.rs"], [("revision dispatch", X+"de.rs"), ("per-revision field sets", "revision-derive/src/ast")], ["derived SerializeRevisioned/DeserializeRevisioned"], "All field values of the listed type shapes; the macro is exercised on representative shapes, not all programs.")

prop("P17", "Old encodings of an evolving enum decode to the documented value",
 "An enum value encoded by any earlier revision decodes in the current revision to the same variant with retained payloads unchanged, removed variants handed to their conversion, and added fields defaulted. A discriminant unknown at the encoded revision is an error.",
 [I, H, PR], "all payloads of all variants of all historical revisions of representative evolving enums",
 "Migration tests decode one literal per variant.",
 [X+"de.rs", X+"ser.rs"], [("discriminant assignment", "revision-derive/src/ast"), ("variant dispatch", X+"de.rs")], ["derived SerializeRevisioned/DeserializeRevisioned"], "All payload values of the listed type shapes.")

prop("P18", "Unknown revisions are rejected everywhere",
 "Input whose revision number is zero or newer than the type's current revision is rejected by decoding, checking, skipping and walking alike, for derived structs and enums in both layouts, and never read as some other revision.",
 [I, PR], "every revision number from 0 to 65535 outside the known range, every following byte",
 "Tests try one future revision.",
 [X+"de.rs", X+"skip.rs", X+"walk.rs", X+"optimised"], [("revision match", X+"de.rs")], ["from_slice, skip_*, walk_revisioned"], "Every revision number.")

prop("P19", "Derived decoders are total on arbitrary input",
 "Decoding a derived type from an arbitrary byte string returns a value or an error; it never panics, overflows, reads outside its input or fails to terminate, in both layouts. Re-encoding and decoding a decoded value gives the same value again.",
 [I, PR], "every byte string up to the bound per representative type",
 "Corruption tests truncate a few encodings.",
 [X+"de.rs", X+"optimised"], [("generated decoder", X+"de.rs")], ["derived DeserializeRevisioned"], "Every input up to the bound.")

prop("P20", "Derived skipping consumes exactly what derived decoding consumes",
 "For every derived type and every encoding any of its revisions wrote, skipping over a reader or a slice, plain or checking, succeeds and consumes exactly the bytes decoding consumes. In the legacy layout, whose skip visits every field, this holds for every input that decodes, written by an encoder or not.",
 [I, PR, H], "every value of every revision of representative types in both layouts; every input up to the bound for the legacy ones",
 "Skip tests compare one value per type.",
 [X+"skip.rs", X+"optimised"], [("generated skip", X+"skip.rs")], ["derived SkipRevisioned / SkipCheckRevisioned"], "Every input up to the bound.")

prop("P21", "Struct walkers return the same field values as decoding",
 "Walking a derived struct field by field, with any mix of decoding, skipping and descending per field, yields the values full decoding gives (a field the revision did not have is its default) and ends at the same position, for the current revision and for older ones, in both layouts. The bytes of a field are its encoding. Descending into a field that is not there in place, or is in an encoding of its own, is an error and never misreads.",
 [I, H, PR], "all field values, every choice per field, every revision of representative structs",
 "Walker tests follow one path over one value.",
 [X+"walk.rs", "src/walk.rs"], [("generated walker", X+"walk.rs")], ["derived walkers"], "All field values of the listed shapes.")

prop("P22", "Enum walkers report the variant and payload that decoding gives",
 "Walking a derived enum reports the revision, number and name of the variant that decoding yields, and only that variant; decoding its payload through the walker gives what decoding gives, the view of a payload is its encoding, and any operation for another variant is an error. This holds for the current revision and older ones, in both layouts.",
 [I, H, PR], "all payloads of every variant and revision of representative enums",
 "Walker tests check one value per variant.",
 [X+"walk.rs", X+"optimised/enum_codegen.rs"], [("generated walker", X+"walk.rs")], ["derived walkers"], "All payloads of the listed shapes.")

prop("P23", "Per-field encodings are honoured by every operation",
 "A field marked for fixed-width, bulk or indexed encoding is written in that encoding and is decoded, skipped and walked with the same one in every revision where the mark applies, independent of the global integer-encoding and bulk options (what is read is always what was written, in the revision that wrote it).",
 [I, C, PR], "all values of the marked fields, every option combination, both layouts",
 "Tests round-trip marked fields in one configuration.",
 [X+"ser.rs", X+"de.rs", X+"skip.rs", X+"walk.rs", X+"optimised"], [("field codec selection", X+"common.rs")], ["derived implementations"], "All values of the listed shapes.")

prop("P24", "Compact and legacy layouts of the same type are interchangeable",
 "A type that switches layout between revisions decodes values of either layout to the same logical value, and within the compact layout a variant's declared size class matches the bytes written, so a payload can be skipped without decoding it.",
 [I, H, PR], "all values of representative types across the layout switch, every size class",
 "Tests switch layout for one literal.",
 [X+"optimised/struct_codegen.rs", X+"optimised/enum_codegen.rs"], [("layout dispatch per revision", X+"de.rs"), ("size classes", X+"optimised/enum_codegen.rs")], ["derived implementations, read_optimised_tag"], "All values of the listed shapes.")

prop("P25", "The slice reader honours its contract",
 "Peeking shows exactly the next bytes, advancing moves by exactly the amount asked or fails without reading outside, consumed and remaining always sum to the input length, and a sub-reader can never reach beyond its window. Reading, taking and skipping n bytes agree for every n.",
 [I, H], "every sequence of up to 4 operations with arbitrary amounts on inputs up to 8 bytes; skip lengths around the internal chunk size",
 "Tests call each operation once or twice.",
 ["src/slice_reader.rs"], [("cursor arithmetic", "src/slice_reader.rs")], ["SliceReader, BorrowedReader, advance_read, read_borrowed_bytes"], "Every operation sequence within the bound.")

prop("P26", "Third-party value types round-trip exactly",
 "Encoding a date, time, timestamp, signed duration, decimal, UUID, coordinate or other geometry, byte buffer, not-NaN float or persistent collection and decoding it yields an equal value and consumes exactly the encoding.",
 [I, C], "all values of the listed types within the size bounds, including leap-second and extreme values",
 "Tests use minima, maxima and one literal per type.",
 [D+f for f in ("chrono.rs","decimal.rs","uuid.rs","geo.rs","bytes.rs","notnan.rs","imbl.rs")], [("per-type encoders and decoders", D)], ["SerializeRevisioned / DeserializeRevisioned of the types"], "All values within the size bounds.")

prop("P27", "Third-party value types are safe on malformed input and skip consistently",
 "Decoding, skipping or walking any supported third-party type from arbitrary bytes returns a value or an error without panicking; what decodes is skipped by exactly the same length, and a checking skip accepts only what decoding accepts.",
 [I, C], "every byte string up to the bound per type",
 "Corruption tests do not cover these types.",
 [D+f for f in ("chrono.rs","decimal.rs","uuid.rs","geo.rs","bytes.rs","notnan.rs","imbl.rs","skip.rs")], [("validation in each decoder", D), ("skip", D+"skip.rs")], ["from_slice, skip_*"], "Every input up to the bound.")

prop("P28", "Regular expressions and compressed bitmaps round-trip and reject bad input",
 "A regular expression or compressed bitmap decodes to an equal value, and arbitrary bytes are either decoded or rejected without a panic.",
 [I], "all patterns and bitmaps", "Tests use one pattern and one bitmap.",
 [D+"regex.rs", D+"roaring.rs"], [("delegation to the crates", D)], ["SerializeRevisioned / DeserializeRevisioned of Regex, RoaringBitmap, RoaringTreemap"], "",
 claim=False, na="The decisive code is the regex compiler and the roaring container format (third-party; loops over symbolic patterns build automata, SIMD-dispatched container code): path exploration of either from symbolic bytes does not finish for even a few bytes, and stubbing them would leave a one-line delegation with nothing to decide.")

prop("P29", "Values beyond 4 GiB are refused or encoded faithfully",
 "A payload, element or field too large for the 32-bit lengths and offsets of the compact and indexed layouts is refused with a serialisation error rather than written with a truncated length, what fits is written with true lengths and offsets, and the layouts without such lengths take any size.",
 [I], "an element of any length from 64 KiB to 4 GiB + 4 KiB, at every position among eight elements of a sequence, set or map (as key or as value) and as a field of a struct or variant",
 "No test allocates that much.",
 ["src/optimised/indexed/serialize.rs", X+"optimised/struct_codegen.rs", X+"optimised/enum_codegen.rs"], [("u32::try_from / checked_add on lengths", "src/optimised/indexed/serialize.rs"), ("payload length", X+"optimised")], ["serialize_indexed_seq, serialize_indexed_set_iter, serialize_indexed_entries, derived serialize_revisioned"], "Every length within the bound.")

prop("P30", "Unsound declarations are compile errors, all others are accepted",
 "The macro accepts exactly the declarations whose history it can represent: revisions numbered from 1 without gap or repetition and given in one place; start and end within the history; a conversion wherever something ends; no option given twice to a field or variant; distinct variant numbers at every revision; at revisions in the compact layout at most 32 variants, numbered below 32, each with a size class; and per-field encodings only where they are defined and one at a time. Anything else is a compile error, never an ambiguous encoding.",
 [I], "declarations with symbolic revision numbers, life spans, options, orders, variant numbers and counts (see the evidence for the bounds)",
 "The compile-fail tests are a handful of fixed declarations; the space of declarations is not enumerable.",
 ["revision-derive/src/ast/attributes.rs", "revision-derive/src/expand/validate_version.rs", X+"common.rs"], [("resolve_history, build_history_entry, finish", "revision-derive/src/ast/attributes.rs"), ("ValidateRevision, ValidateOptimised", X+"validate_version.rs"), ("CalcDiscriminant, GatherOverrides", X+"common.rs")], ["#[revisioned(...)] expansion"], "Every declaration within the bounds.")
prop("P31", "How a declaration is spelled does not change the code; the item is kept",
 "`revision = N` and N plain entries in any order expand to the same code, as do options in any order, together or in several attributes, and a history on the macro or on the item. The item itself is emitted as written, without the macro's own attributes and without the fields and variants that are not alive at the current revision. Serialisation, deserialisation, skipping and walking are implemented exactly as the switches say, wherever they are given.",
 [I], "declarations with symbolic life spans, in every arrangement within the bounds, and all switch combinations",
 "A test compares a few pairs of spellings of fixed declarations.",
 ["revision-derive/src/ast/attributes.rs", "revision-derive/src/ast/mod.rs", X+"mod.rs", X+"reexport.rs"], [("resolve_history", "revision-derive/src/ast/attributes.rs"), ("Reexport", X+"reexport.rs"), ("switches", X+"mod.rs")], ["#[revisioned(...)] expansion"], "Every declaration within the bounds.")

def main():
    schema = None
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
              "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    props = json.load(open(os.path.join(V, "props.json")))
    checks, na = [], []
    for p in P:
        if p["claim"] and p["id"] in props:
            checks.append({"property": p["id"], "quick_cmd": f"./check.py {p['id']} quick", "thorough_cmd": f"./check.py {p['id']} thorough", "technique": "symbolic execution of the compiled code's LLVM IR, decided by Z3 (bit-vectors), counterexamples replayed natively",
              "level": "model_checking", "level_note": p["note"] + " Within these bounds: " + props[p["id"]]["bounds"] + ". Nothing is claimed outside them. Trusts rustc's IR as the meaning of the source, the executor (validated per run by replaying sampled paths natively) and Z3."})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "Check not built yet."})
    m = {"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: everything is driven through the public API. engine/ is the symbolic executor, harness/ the harness crate, check.py the driver."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
    except ImportError:
        return
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("valid;", len(checks), "claimed,", len(na), "not applicable")

main()
