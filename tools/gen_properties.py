#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))

PARSE = "boxcars::ParserBuilder::new(bytes)...parse()"

prop("C01", "Parsing is total: any bytes, any options, always an answer",
 "For every byte string and every combination of CRC and network options, parsing terminates and returns either a replay or an error. It never panics, aborts, overflows arithmetic or the stack, and never loops without consuming input; formatting the returned error never panics either.",
 ["inputs", "configurations"], "all byte strings up to a small length, and every bounded corruption (each byte value at each offset, each boundary integer at each offset, each truncation, each short bit stream, nesting to great depth) of a set of feature-covering replays, under every option combination",
 "The suite parses 136 good replays, 7 fuzz finds; a panic needs one particular malformed field at one particular place, which none of them has to contain.",
 ["src/parser.rs", "src/core_parser.rs", "src/header.rs", "src/network/mod.rs", "src/network/frame_decoder.rs", "src/network/attributes.rs", "src/errors.rs"],
 [("length checks before every read", "src/core_parser.rs"), ("list and text limits", "src/core_parser.rs"), ("lookahead checks before unchecked bit reads", "src/network")], [PARSE])

prop("C02", "Header properties decode to exactly the encoded tree",
 "For every well-formed header, the decoded versions, game type and property list equal what the file encodes: same keys in the same order, duplicates kept, every value of the right kind with the exact encoded value, arrays and structs nested as encoded, and byte properties of kind None skipped. Declared property sizes and padding never influence the result, and an unknown property kind is rejected, as are properties nested beyond a fixed depth limit (64).",
 ["inputs"], "all property lists up to a length bound over an alphabet of every property kind and boundary values, all nestings to a depth bound, all version triplets around the thresholds",
 "Snapshots fix the headers of real replays only; unusual kinds, orders, nestings, duplicates and size fields do not occur in them.",
 ["src/header.rs", "src/models.rs"],
 [("property loop", "src/header.rs: parse_rdict"), ("version dependent mode", "src/header.rs: parse_header")], [PARSE + ".properties", "Replay::{major,minor,net}_version, game_type"])

prop("C03", "Body and footer sections decode to exactly the encoded lists",
 "For every well-formed body, levels, keyframes, debug info, tick marks, packages, objects, names, class indices and the class net cache are returned with exactly the encoded elements in the encoded order, whatever the number of elements (up to the accepted maximum of 25000) and whatever the other sections and the network bytes contain. A list declared larger than the maximum, or with a negative size, is rejected.",
 ["inputs"], "all combinations of section sizes up to a bound with boundary element values, every list length up to several hundred, and the lengths around the maximum for every section",
 "Real replays contain a few list lengths per section and no debug info edge cases; the limits are touched by one fuzz file.",
 ["src/parser.rs", "src/core_parser.rs"],
 [("section order", "src/parser.rs: parse_body"), ("list limit", "src/core_parser.rs: repeat")], [PARSE])

prop("C04", "Text decodes by its declared encoding, for every content and length",
 "A text with a positive size decodes byte for byte as windows-1252 and one with a negative size as UTF-16 with unpaired surrogates replaced, in both cases without its terminator; identifier strings decode as UTF-8 and are rejected when invalid. Header and footer texts of more than 10000 characters and network texts that do not fit 1024 bytes are rejected, and everything up to those limits is accepted.",
 ["inputs"], "every windows-1252 byte, every UTF-16 code unit, every surrogate pattern, every UTF-8 sequence class, every length around the limits, in header, footer and network positions",
 "Unit tests decode four strings; 256 byte values, 65536 code units and the limits are quantified over.",
 ["src/parsing_utils.rs", "src/core_parser.rs", "src/network/attributes.rs"],
 [("decode_str / decode_utf16 / decode_windows1252", "src/parsing_utils.rs"), ("limits", "src/core_parser.rs: parse_text; src/network/attributes.rs: decode_text")], [PARSE])

prop("C05", "The published CRC equals the Rocket League CRC for every input",
 "For every byte string the CRC function returns the CRC-32 with polynomial 0x04c11db7, initial value 0x10340dfe, no reflection and final inversion, independent of the length of the input and of where its bytes lie in memory.",
 ["inputs"], "all lengths up to several hundred bytes with every byte value at every position on several backgrounds, all strings of up to two (thorough: three) bytes, all slice alignments, and large lengths",
 "Two unit tests compute one value each; a wrong table entry or tail step shows only for particular lengths and bytes.",
 ["src/crc.rs"], [("slice by 16 with a byte wise tail", "src/crc.rs: calc_crc")], ["boxcars::crc::calc_crc"])

prop("C06", "CRC options decide when and how corruption is reported",
 "With checking always on, a section whose checksum differs is reported as a checksum mismatch carrying expected and computed values, whatever its content; with checking on error (the default), a failing section with a wrong checksum is reported as a corrupt replay naming the section, and one with a right checksum with its own error; with checking off, checksums never matter. The header is judged before the body, a section that parses is never rejected for its checksum unless checking is always on, and the last option set on the builder wins.",
 ["inputs", "configurations", "histories"], "the full product of section state (good, malformed) and checksum state (right, wrong) for header and body, network state, all CRC and network options, and all builder call sequences up to a length bound",
 "The suite exercises three cells of this product on one file.",
 ["src/parser.rs"], [("crc_section", "src/parser.rs")], [PARSE])

prop("C07", "With checking always on, corrupted sections are never accepted",
 "Under always-check, if any one bit, any two bits, or any burst of up to 32 consecutive bits (most significant bit of each byte first) of a valid replay's header section, body section or one of their stored checksums is changed, parsing fails. It also never fails for the unmodified replay.",
 ["fault_sequences", "inputs"], "every single-bit flip, every pair of flips and every short burst pattern at every bit position of the section bytes and checksum words of several replays",
 "One corrupted file is tested; coverage of which bytes enter the checksum needs every position.",
 ["src/parser.rs", "src/crc.rs"], [("section slices given to the checksum", "src/parser.rs: parse")], [PARSE])

prop("C08", "Truncated input is rejected; bytes after the replay are ignored",
 "For every well-formed replay, every proper prefix that cuts into the header, the body or their size and checksum words is rejected with an error under every option. Appending any bytes after the end of the replay leaves the result unchanged.",
 ["fault_sequences", "inputs"], "every truncation point of a set of feature-covering replays (including real ones in the thorough tier), every option, and appended suffixes of every short length and byte value",
 "The tests contain a handful of short files; each cut point is a separate case.",
 ["src/core_parser.rs", "src/parser.rs"], [("view_data / take", "src/core_parser.rs")], [PARSE])

prop("C09", "Options never change what is decoded, only what is checked or skipped",
 "Header, body and footer of a successful parse are identical under every option combination. Skipping network data yields no frames and succeeds whenever header and body do; requiring network data yields frames or the network error; ignoring network errors yields exactly the required-mode frames when those exist and no frames otherwise, never a partial list and never a failure.",
 ["configurations", "inputs"], "all 9 option pairs on every replay of an explored family with good and bad network data of every failure kind",
 "Snapshots are taken under one option set per file; the relation between option sets is never compared.",
 ["src/parser.rs"], [("network mode dispatch", "src/parser.rs: parse")], [PARSE])

prop("C10", "Frames replay the exact spawn, update and delete history of actors",
 "For every sequence of frames, each with any sequence of spawns, attribute updates and deletions, the decoded frames list exactly the encoded events in order, each update attributed to the object the actor id was most recently spawned as, for every actor id that the channel limit allows. Re-spawning a live or deleted id rebinds it, state carries over from frame to frame, and an update for an id that was never spawned is rejected. (What an update of a deleted id means until it is spawned again is left open.)",
 ["histories"], "all event sequences up to a depth bound over actor ids on both sides of every internal table boundary, several classes and frame boundaries",
 "Real replays use small actor ids and regular histories; interleavings of spawn, delete and re-spawn across frames and large ids are not enumerated by any test.",
 ["src/network/frame_decoder.rs"], [("actor table", "src/network/frame_decoder.rs: SegmentedArray"), ("decode loop", "src/network/frame_decoder.rs: decode_frame")], [PARSE + ".network_frames"],
 state=[dict(name="actors", meaning="actor id -> (object id, attribute table)", where="src/network/frame_decoder.rs: decode_frames")])

prop("C11", "Every attribute kind decodes to exactly the encoded payload",
 "For each kind of network attribute and every payload, the decoded attribute has the matching kind and exactly the encoded field values, consumes exactly its own bits so that whatever follows is unaffected, and an attribute whose bits run out is rejected. A rigid body carries velocities if and only if it is not sleeping; an attribute without a known decoder is rejected rather than misread.",
 ["inputs"], "for every attribute kind, boundary values for every field (all combinations up to a deviation bound), every bit alignment, followed by further data, and every truncation",
 "Real replays contain common values; rare kinds and boundary values of each field are never seen, and a wrong width shows only for large values.",
 ["src/network/attributes.rs"], [("AttributeDecoder::decode and the per kind decoders", "src/network/attributes.rs")], [PARSE + ".network_frames"])

prop("C12", "Decoding is independent of bit alignment and of distance to the end",
 "The decoded frames of a network stream do not depend on the bit offset at which a record happens to start nor on how many bytes follow it: the same record gives the same value at every alignment and whether or not it is close to the end of the data. A stream cut before the end of a record is rejected, never completed with invented bits.",
 ["inputs", "fault_sequences"], "every record kind at all 8 alignments with 0 to 40 trailing bytes of both polarities, and every bit-level cut",
 "Fast paths are taken except in the last 16 bytes of a replay, so the tail paths see almost no test data.",
 ["src/network/models.rs", "src/bits.rs", "src/network/frame_decoder.rs"], [("Vector3i::decode / eof_decode", "src/network/models.rs"), ("Rotation::decode two paths", "src/network/models.rs")], [PARSE, "boxcars::Vector3i::decode", "boxcars::Rotation::decode", "boxcars::Quaternion::decode"])

prop("C13", "Attributes resolve through the class hierarchy as the replay declares",
 "A stream id read for an actor resolves to the property that the replay's net cache declares for the actor's class or its nearest ancestor, own declarations overriding inherited ones, and is read with a width set by the largest id visible to that class. Resolution does not depend on the order of the object list or the cache, the first of several equal names counts, placed-object names resolve regardless of stadium prefix or numeric suffix, and every known class and attribute name keeps its type.",
 ["inputs"], "every known attribute name, every known parent link, all orders of small object lists and caches, overriding and duplicate declarations, all name decorations",
 "Each real replay has one object order and one cache; most of the 584 known names do not matter to any snapshot.",
 ["src/network/mod.rs", "src/network/object_index.rs", "src/network/models.rs", "src/data.rs"], [("net_traversal", "src/network/mod.rs"), ("ObjectIndex::hierarchy", "src/network/object_index.rs"), ("normalize_object", "src/network/models.rs"), ("ATTRIBUTES, PARENT_CLASSES", "src/data.rs")], [PARSE])

prop("C14", "Bounded integers use the exact width and cover every legal value",
 "For every channel limit declared in the header and every largest stream id declared in the net cache, each representable actor id and stream id decodes to itself and consumes exactly the bits its encoding has: one extra bit if and only if it could matter. The same holds for vector sizes and legacy paint and team values.",
 ["inputs"], "all limits up to 2100 and around every power of two up to 32 bits, all values (or boundary values for large limits), all alignments",
 "All tested replays use a channel limit of 1023 or 2047 and the stream id limits of real classes.",
 ["src/bits.rs", "src/network/mod.rs", "src/network/frame_decoder.rs"], [("read_bits_max_computed / peek_bits_max_computed", "src/bits.rs"), ("width precomputation", "src/network/mod.rs")], [PARSE])

prop("C15", "Memory stays proportional to the input whatever counts it declares",
 "Peak memory used by a parse is bounded by a constant plus a constant multiple of the input length, for every input: declared list sizes, text sizes, frame counts, channel limits, nesting and per-attribute counts cannot make the parser reserve or build more than that. A frame count larger than the number of network bytes is rejected.",
 ["inputs"], "every count field of feature-covering replays set to every boundary value, nested and repeated up to the format's limits",
 "Tests never measure memory; two fuzz files show that oversized counts were once a problem.",
 ["src/core_parser.rs", "src/network/mod.rs", "src/header.rs", "src/network/frame_decoder.rs"], [("list limit", "src/core_parser.rs: repeat"), ("frame limit", "src/network/mod.rs: parse")], ["allocator", PARSE])

prop("C16", "Frame decoding stops exactly where the replay says it does",
 "Decoded frames are those before the first of: the declared number of frames, the end marker (time and delta both zero), or the end of the data; anything after that point is ignored. A replay without a declared frame count has an empty frame list, and a frame with a negative or denormal-range time or delta is rejected.",
 ["inputs"], "all declared counts around the true count, all placements of the end marker and trailers, all time and delta boundary values, all versions with and without trailer",
 "Real replays end one way each.",
 ["src/network/mod.rs", "src/network/frame_decoder.rs"], [("decode_frames loop", "src/network/frame_decoder.rs"), ("NumFrames lookup", "src/header.rs: num_frames")], [PARSE + ".network_frames"])

prop("C17", "Decoded frames survive a JSON round trip unchanged",
 "Serializing any decoded frame, with any attribute and any finite numbers and any text, to JSON and deserializing it yields an equal value, bit for bit in every number including 64-bit integers. Deserializing is strict: 64-bit integers are accepted only as strings.",
 ["inputs"], "every attribute kind with boundary values for every field, every finite 32-bit float (thorough: all of them), every 64-bit boundary integer, every text class, frames of all small shapes",
 "The round trip test covers values in a few replays.",
 ["src/network/attributes.rs", "src/network/models.rs", "src/serde_utils.rs"], [("derive(Serialize, Deserialize)", "src/network"), ("display_it / parse_it", "src/serde_utils.rs")], ["serde_json::to_string(&Frame)", "serde_json::from_str::<Frame>"])

prop("C18", "Replay JSON is complete, order preserving and loss free where promised",
 "Serializing a replay to JSON yields every field under its public name with its exact value: property lists become maps in encoded order with duplicate keys kept, 64-bit integers become strings, texts keep every character, and lists keep their order and length. The output depends on the replay alone.",
 ["inputs"], "every property kind, duplicate keys, nested arrays and structs, all list shapes up to a bound, all attribute kinds",
 "Snapshot tests go through a JSON value type that loses duplicates and order.",
 ["src/models.rs", "src/serde_utils.rs"], [("impl Serialize for HeaderProp", "src/models.rs"), ("pair_vec", "src/models.rs")], ["serde_json::to_string(&Replay)"])

prop("C19", "Errors name the real cause, section, position and actors",
 "Each rejected input yields the error for the first thing that is wrong with it: the section name and byte offset at which decoding stopped, the needed and available byte counts, the offending size, kind, id or object, and the actor, object and stream of a bad attribute. Sources chain down to the innermost cause, and each error's message mentions its offending values. A failure inside the frames also reports how many frames were decoded before it and the last event decoded.",
 ["inputs", "fault_sequences"], "each single fault (each kind, at each field of feature-covering replays), each truncation, each network failure kind at each event position",
 "Five error messages are asserted in the suite.",
 ["src/errors.rs", "src/parser.rs", "src/core_parser.rs", "src/network/frame_decoder.rs"], [("error wrapping", "src/parser.rs"), ("FrameContext", "src/errors.rs")], ["ParseError value", "Display", "std::error::Error::source"])

prop("C20", "Parsing is a pure function of bytes and options",
 "Parsing the same bytes with the same options always gives the same result, serialization and error message, regardless of which other replays were parsed before, in which order, with which outcome, or on which threads at the same time. The input is never modified and a builder can be cloned and reused.",
 ["histories", "schedules"], "all call histories up to a length bound over replays chosen to collide (same names, different versions, failing and succeeding), and concurrent calls on shared inputs",
 "Each test parses once, in one order.",
 ["src/parser.rs", "src/network/mod.rs", "src/errors.rs"], [("no global mutable state; all state in the parser value", "src/parser.rs")], [PARSE])

prop("C21", "Positions, rotations and quaternions decode to the exact numeric value",
 "For every encoded vector, rotation and quaternion, the decoded components equal the value the format defines (bias-removed integers, hundredths for real-valued vectors, signed bytes, 18-bit smallest-three or 16-bit quaternion components with the largest component reconstructed), for every size class, sign and selector and both protocol generations.",
 ["inputs"], "all size classes with all values for small classes and boundary values for large ones, all 256 bytes per rotation axis and all presence masks, all 2^18 and 2^16 component values in every position and selector",
 "Unit tests decode one vector and one rotation; snapshots hash values from real play only.",
 ["src/network/models.rs"], [("Vector3i::decode, Quaternion::decode, Rotation::decode", "src/network/models.rs")], ["boxcars::Vector3i::decode", "boxcars::Vector3f::decode", "boxcars::Quaternion::decode", "boxcars::Quaternion::decode_compressed", "boxcars::Rotation::decode", PARSE])

prop("C22", "Player identities decode exactly on every platform",
 "For every platform (split screen, Steam, PlayStation, Xbox, QQ, Switch, PsyNet, Epic) and every protocol generation, unique ids, reservations and party leaders decode to the encoded online id, opaque bytes, name, local id and flags, consuming exactly the bits that platform and generation use. Unknown platforms are rejected, and a platform id of zero means no party leader.",
 ["inputs"], "all 256 platform bytes, all protocol generations around each threshold, boundary ids, names with terminators at every position, all alignments and truncations",
 "Real replays cover some platforms with one generation each.",
 ["src/network/attributes.rs"], [("decode_unique_id_with_system_id, decode_reservation, decode_party_leader", "src/network/attributes.rs")], [PARSE])

prop("C23", "Loadouts and online products decode exactly for every version and kind",
 "Loadouts of every loadout version carry exactly the fields that version defines, and online product lists decode to the encoded nesting of products, each value interpreted by the attribute class it names (color, paint, title, special edition, team edition) for the replay's version and as absent for any other class, consuming exactly the bits of that interpretation.",
 ["inputs"], "all 256 loadout versions, all product classes and versions around each threshold, all list shapes up to a bound, all object index layouts",
 "Real replays contain a few loadout versions and product combinations.",
 ["src/network/attributes.rs"], [("decode_loadout, ProductValueDecoder", "src/network/attributes.rs")], [PARSE])

prop("C24", "Version-dependent layouts switch at exactly the right versions",
 "For every combination of major, minor and net version, match type and build version, each version-dependent part of the format (net version presence, legacy property layout, actor names, camera transition, game mode width, reservation flags, product encodings, vector size limit, quaternion form, id layouts, server id form) uses the layout defined for that version, comparing versions as ordered triplets.",
 ["inputs", "configurations"], "the product of major, minor and net versions around every threshold with each version-dependent record, match types and build versions around the threshold",
 "The corpus has a few dozen of the possible versions, none exactly around most thresholds.",
 ["src/header.rs", "src/network/mod.rs", "src/network/attributes.rs", "src/network/frame_decoder.rs", "src/network/models.rs"], [("VersionTriplet comparisons", "src/network")], [PARSE])

prop("C25", "New actors carry the name, class and trajectory their class implies",
 "A spawned actor is reported with the encoded actor id, object id and, for versions and match types that encode it, name id; its initial location and rotation are present exactly as the nearest ancestor class with a known spawn layout prescribes and hold the encoded values. An object id outside the object list and an object that is no known class are rejected.",
 ["inputs"], "every known class with every ancestor subset present in the object list, all object id boundary values, all versions and match types, boundary trajectories",
 "Real replays contain the full ancestor set of common classes only.",
 ["src/network/mod.rs", "src/network/frame_decoder.rs", "src/network/models.rs", "src/data.rs"], [("spawn table", "src/network/mod.rs: parse"), ("parse_new_actor", "src/network/frame_decoder.rs"), ("Trajectory::from_spawn", "src/network/models.rs")], [PARSE])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
