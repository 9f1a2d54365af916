#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

p("C01", "PKG1 archives decode to exactly the directory tree they contain",
  "Opening and parsing a PKG1 .wz archive yields a tree with exactly the directories and images stored in it: every name, kind, nesting, data offset and size, and the contents each image yields when parsed. This holds for every header text length, with or without the encrypted-version field, for single-byte and UTF-16 names, for entries whose name is stored elsewhere in the file, and with placeholder entries skipped.",
  ["inputs"], "all well-formed PKG1 archives: any patch version, region key, header length, directory shape, entry order, name encoding, file layout",
  "The tests open two fixed sample archives; they cannot cover other directory shapes, name encodings, referenced names, header lengths or keys.",
  ["src/file.rs", "src/directory.rs", "src/header.rs", "src/util/offset.rs"],
  [("directory entry decoding", "src/directory.rs resolve_entry_pkg1/read_pkg1_entry"), ("offset decryption", "src/util/offset.rs read_wz_offset_pkg1"), ("header", "src/header.rs read_from_buf")],
  ["WzNode::from_wz_file_full + parse", "WzDirectory/WzImage offset and block_size"])
p("C02", "Patch version and key detection accept exactly the right decoding",
  "When no patch version or key is given, and the first entry's name and the entry list fit only one known key and version, the version and key found for a PKG1 archive make it decode to the same tree as when both are given explicitly, and the reported version is consistent with the archive's version field. An explicitly given wrong version is refused with an error instead of returning a wrong tree, and a wrong key given by the caller is replaced by the detected one. The public functions that check or guess a key for an archive or an image answer in the same way.",
  ["inputs", "configurations"], "all well-formed PKG1 archives × {version given, absent, wrong} × {key given, absent, wrong}, including archives without a version field",
  "Version guessing is a search over up to 2000 candidates with verification; the tests try one or two archives, so collisions, boundaries (version 1, 2000, 770-780 without version field) and wrong inputs are not reached.",
  ["src/file.rs", "src/util/version/pkg1.rs", "src/util/version/mod.rs", "src/util/string_decryptor/mod.rs", "src/header.rs"],
  [("version search", "src/file.rs parse_pkg1"), ("version hash", "src/util/version/pkg1.rs"), ("key check", "src/util/string_decryptor/mod.rs verify_decryptor_from_wz_file/guess_decryptor_from_wz_file")],
  ["WzFile.wz_file_meta", "parse result"])
p("C03", "PKG2 archives decode for every format profile and any cache history",
  "Opening and parsing a PKG2 archive (plain header, randomised 32-bit header or randomised 64-bit header) yields exactly the stored names, kinds, offsets and sizes for each supported format profile. The candidate hashes tried for a profile are exactly those that satisfy the profile's relation between the two header hashes, the search over several generations tries those of each, and archives opened earlier in the same process never change the result.",
  ["inputs", "histories"], "all well-formed archives per profile, and all sequences of opening archives of several profiles in one process",
  "No PKG2 sample is in the repository; unit tests check a handful of fixed hash values and never decode a PKG2 archive.",
  ["src/file.rs", "src/directory.rs", "src/header.rs", "src/util/offset.rs", "src/util/profile.rs", "src/util/version/pkg2.rs", "src/util/string_decryptor/pkg2_decryptor.rs"],
  [("profile search and cache", "src/file.rs parse_pkg2"), ("hash relations", "src/util/version/pkg2.rs"), ("offset and count decryption", "src/util/offset.rs")],
  ["WzNode::from_wz_file + parse", "Pkg2VersionGenV*::verify_hash / get_iter"])
p("C04", "An image parses to exactly the property tree it encodes",
  "Parsing an image yields one node per stored property, under the stored name, with the stored kind and value at every nesting level, and the ordered child list keeps the stored order. Integers in short and long form, strings stored inline or by offset, numbers at their limits, canvases, convexes, raw data, sounds, videos and links decode as stored; an extended property of unknown type becomes an empty value and leaves its siblings intact, and an image cut off inside a property list is an error.",
  ["inputs"], "all well-formed images for every key, at any offset inside a file",
  "Tests parse a few fixed images and hand-written byte strings of single properties.",
  ["src/util/parse_property.rs", "src/wz_image.rs", "src/reader.rs"],
  [("property list reader", "src/util/parse_property.rs parse_property_list/parse_property_node/parse_more"), ("string blocks", "src/reader.rs read_wz_string_block(_meta)")],
  ["WzNode::parse", "WzImage::resolve_children"])
p("C05", "Strings survive encryption and every read path agrees",
  "Any text encrypted with a key decodes to the same text with that key, whether through a string value built from text, a stored string property, a direct read or a deferred read; lengths of 126 to 129 and more, empty text and characters outside the basic plane included. Reading a string advances the cursor by exactly its stored size, reading at another offset leaves the cursor unmoved, and a string resolves to the same text every time.",
  ["inputs"], "all texts × keys × encodings × positions, all sequences of reads on one cursor",
  "Tests use a handful of short literal strings; length-form boundaries, long keystreams and surrogate pairs are not sampled.",
  ["src/reader.rs", "src/property/string.rs"],
  [("string decoding", "src/reader.rs resolve_wz_string_meta/read_wz_string*"), ("string encoding", "src/property/string.rs encrypt_str")],
  ["WzSliceReader", "WzString", "reader free functions"])
p("C06", "Keystreams are deterministic whatever the order of growth",
  "For every key the keystream is the AES-256 block chain of the format, and byte i is the same no matter in which order or to which lengths the stream was extended before; decrypting twice with the same stream restores the data. A zero key leaves data unchanged, and looking a key up by region, by vector or by kind gives equivalent decryptors.",
  ["inputs", "histories"], "all keys × all sequences of extend/index/decrypt requests",
  "Tests extend a stream once or twice to fixed sizes; growth histories and batch boundaries are not explored.",
  ["src/util/string_decryptor/ecb_decryptor.rs", "src/util/string_decryptor/pkg2_decryptor.rs", "src/util/string_decryptor/mod.rs", "src/util/maple_crypto_constants.rs"],
  [("stream growth", "src/util/string_decryptor/ecb_decryptor.rs ensure_key_size"), ("key lookup", "src/util/string_decryptor/mod.rs StringDecryptor")],
  ["Decryptor trait", "GLOBAL_STRING_DECRYPTOR"])
p("C07", "Primitive and compressed-number reads are exact and bounded",
  "Every fixed-width or compressed number read through a buffer reader, a cursor or a free function returns the little-endian value stored at that position, all three agree, and a cursor advances by exactly the encoded size. A read that does not fit the buffer is reported as an error, never a panic or a wrong value.",
  ["inputs"], "all buffers × positions × read kinds × sequences of reads, seeks and skips",
  "Tests read a few fixed positions inside one small buffer; the edges of the buffer and of the encodings are not covered.",
  ["src/reader.rs"], [("readers", "src/reader.rs WzBaseReader/WzSliceReader/free functions")],
  ["Reader trait", "WzSliceReader methods"])
p("C08", "Direct lookup inside an image equals parse-then-navigate",
  "Looking a path up directly in an unparsed image of properties, or through an archive without parsing, finds a node exactly when parsing the image and walking the same path finds one, and the node has the same name, kind, value and descendants; a link entry is found as the link it is stored as. In an image already parsed the node found is the one in the tree. A path that names nothing, or ends at the image itself, is reported as not found, and the lookup changes nothing in the tree.",
  ["inputs"], "all images × all paths, present and absent, through every container kind",
  "Tests look up two or three paths in one sample image; most container kinds, absent paths and prefixes of names are never tried.",
  ["src/util/parse_property.rs", "src/wz_image.rs", "src/util/node_util.rs"],
  [("skipping reader", "src/util/parse_property.rs get_node"), ("path split", "src/util/node_util.rs get_image_node_from_path/get_node_without_parse")],
  ["WzImage::at_path", "util::get_node_without_parse", "util::get_image_node_from_path"])
p("C09", "Link (UOL) entries resolve to the node their relative path names",
  "After an image is parsed, a link entry whose relative path names a node inside that image is replaced, under its own name, by that very node, with '..' going up and names going down; a link that names nothing, or a node the link itself lies in (directly or by way of other links), stays a link holding its path, and the textual resolution of a link path ('.' and '..' included) gives that node's path. Siblings and the target's own name, place and value are unaffected.",
  ["inputs"], "all images × link positions × relative paths (up, down, sideways, chained, dangling)",
  "Tests resolve one hand-built link; the interplay of depth, '..', document order and links to links is not sampled.",
  ["src/util/node_util.rs", "src/node.rs"], [("link resolution", "src/util/node_util.rs resolve_uol"), ("parse", "src/node.rs WzNode::parse")],
  ["children after WzNode::parse", "util::node_util::get_resolved_uol_path"])
p("C10", "Tree navigation and merging agree with a simple tree model",
  "After any sequence of adding, merging, re-parenting and removing nodes, lookups by name, by path, by relative path and by ancestor, and the full, from-root and from-image path strings, return what a plain tree with the same operations returns. Merging one node's children into another loses no path, keeps existing nodes, merges same-named subtrees and leaves every moved child's parent pointing at its new parent.",
  ["histories"], "all finite sequences of tree operations and queries",
  "Tests build one small tree by hand and query it once; operation histories and name clashes are not explored.",
  ["src/node.rs", "src/util/node_util.rs"], [("navigation", "src/node.rs at*/get_*path*/filter_parent"), ("merge", "src/node.rs transfer_childs"), ("parents", "src/util/node_util.rs resolve_childs_parent")],
  ["WzNode API"])
p("C11", "Parse, unparse and walk leave a tree that can be read again",
  "Any history of parsing, unparsing, re-parsing, path-parsing and walking an archive ends with every node that is parsed showing exactly the archive's content, and every node that was released showing none and parsing again to the same content. A forced walk visits every node of the archive exactly once, parents before children, and leaves every image released; an unforced walk visits exactly the nodes already present and changes nothing. A node whose content cannot be read stays unparsed and without children, and every later attempt to parse it, or to look something up by path through it, reports the failure again; the rest of the archive stays usable, and a walk passes by what it cannot read.",
  ["histories"], "all sequences of lifecycle operations on all archives",
  "Tests parse once, or walk one sample once; re-parsing after release and mixed histories are not covered.",
  ["src/node.rs", "src/util/walk.rs", "src/directory.rs", "src/file.rs"], [("lifecycle", "src/node.rs parse/unparse/at_path_parsed"), ("walk", "src/util/walk.rs")],
  ["WzNode::parse/unparse/at_path_parsed", "util::walk_node"])
p("C12", "Canvas links yield the pixels of the canvas they name",
  "Asking for the image of a canvas that carries an in-image or cross-archive link returns exactly the pixels of the linked canvas, parsing what is needed on the way, with the in-image link taking precedence; without a usable link the canvas's own pixels are returned, and a node that is not a canvas is refused.",
  ["inputs"], "all trees × link kinds × targets (present, absent, chained) × parse states",
  "Tests resolve at most one link of each kind on a fixed tree.",
  ["src/property/png.rs", "src/util/node_util.rs"], [("link following", "src/property/png.rs get_image"), ("link paths", "src/util/node_util.rs resolve_inlink/resolve_outlink")],
  ["property::get_image"])
p("C13", "Canvas pixels equal the reference decoding of the stored format",
  "For every supported pixel format, size (including sizes that are not multiples of a block) and pixel content, extracting a canvas gives an image of the stored size whose every pixel equals the format's definition, whether the data is stored as plain zlib or as encrypted chunks of any split. Unsupported formats are reported as errors.",
  ["inputs"], "formats × sizes × pixel data × compression form × chunk splits × keys",
  "Tests decode a couple of sample canvases of block-aligned size and compare nothing or a hash.",
  ["src/property/png.rs", "src/util/color.rs"], [("decoders", "src/property/png.rs get_image_from_*"), ("decompression", "src/property/png.rs get_raw_data"), ("colour conversion", "src/util/color.rs")],
  ["WzPng::extract_png"])
p("C14", "Sounds come out with the right type, duration and bytes",
  "For every stored sound the extracted buffer, the bytes written to a stream and the saved file are identical and equal the stored payload, preceded by a correct WAV header exactly when the sound is a WAV; type and duration equal what the stored header says.",
  ["inputs"], "headers × sizes × durations × payloads",
  "Tests check one sample sound's type; payloads, header variants and the agreement of the three outputs are not compared.",
  ["src/property/sound.rs", "src/util/parse_property.rs"], [("sound", "src/property/sound.rs")],
  ["WzSound::get_buffer/write_to/save"])
p("C15", "Scripts, texts, raw data and videos are returned byte for byte",
  "An encrypted script image yields exactly its source text for each region key, whatever its length or characters, wherever its bytes are text under that key alone; text images, packed property texts, raw-data and video properties yield exactly the stored bytes, and nothing beyond them.",
  ["inputs"], "payloads × lengths × region keys × positions",
  "Tests decode one ASCII script; text that is long or not ASCII, and the other payload kinds, are not covered.",
  ["src/wz_image.rs", "src/property/lua.rs", "src/property/raw_data.rs", "src/property/video.rs"], [("script decoding", "src/property/lua.rs"), ("text images", "src/wz_image.rs resolve_children")],
  ["WzLua::extract_lua", "WzRawData::get_buffer", "WzVideo::get_buffer"])
p("C16", "MS archives (version 1) decode to the stored entries and images",
  "Opening a version-1 .ms archive under its own file name yields exactly the stored entry names and metadata, and each entry's image decodes to exactly the stored bytes. The stream cipher used matches an independent implementation for every key and length, whatever the sizes of the reads.",
  ["inputs", "histories"], "ASCII file names × ASCII salts × entry lists × entry keys × payload sizes × read sizes",
  "There is no .ms sample in the repository; unit tests check the cipher against one or two fixed vectors.",
  ["src/ms/header.rs", "src/ms/file.rs", "src/ms/ms_image.rs", "src/ms/snow2_decryptor.rs", "src/ms/snow2_reader.rs"], [("header", "src/ms/header.rs from_ms_file"), ("entries", "src/ms/file.rs parse_v1"), ("image", "src/ms/ms_image.rs to_wz_image"), ("cipher", "src/ms/snow2_decryptor.rs")],
  ["MsFile", "MsImage::to_wz_image", "WzNode::from_ms_file + parse"])
p("C17", "MS archives (version 2) decode to the stored entries and images",
  "Opening a version-2 .ms archive under its own file name yields exactly the stored entry names and metadata, and each entry's image decodes to exactly the stored bytes, for every size around the encrypted prefix and the cipher block. A file that is neither version is refused.",
  ["inputs", "histories"], "file names × salts × entry lists × entry keys × payload sizes × read sizes",
  "There is no .ms sample in the repository; nothing decodes a whole version-2 archive.",
  ["src/ms/header.rs", "src/ms/file.rs", "src/ms/ms_image.rs", "src/ms/chacha20_reader.rs"], [("header", "src/ms/header.rs from_ms_file_v2"), ("entries", "src/ms/file.rs parse_v2"), ("image", "src/ms/ms_image.rs to_wz_image"), ("cipher reader", "src/ms/chacha20_reader.rs")],
  ["MsFile", "MsImage::to_wz_image", "WzNode::from_ms_file + parse"])
p("C18", "JSON exports carry every name and value",
  "The full JSON of a tree of ordinary properties reads back to a tree with the same names, kinds, values and children, and writing that again gives the same JSON. The simple JSON maps every node to its value, or to an object of its children plus a canvas's size or a sound's attributes, and neither export panics on any value, including floating-point values JSON cannot express.",
  ["inputs"], "all property trees, including non-finite numbers, non-ASCII text and empty containers",
  "Tests serialise single literal nodes; nesting, extremes and round trips of whole trees are not sampled.",
  ["src/node.rs", "src/property/mod.rs", "src/object.rs", "src/property/string.rs"], [("full JSON", "src/node.rs to_json and serde impls"), ("simple JSON", "src/node.rs to_simple_json")],
  ["WzNode::to_json/to_simple_json", "serde_json::from_value::<WzNode>"])
p("C19", "Damaged or hostile files are refused or partly read, never crash",
  "Opening, parsing, walking and extracting from any byte sequence, including mutated valid archives, images and .ms files, returns values or errors: it does not panic, abort, overflow the stack, or ask for memory out of proportion to the file.",
  ["inputs"], "arbitrary bytes and structured mutations of valid files, through every public way of opening them",
  "Tests only open well-formed samples and a few wrong-version cases.",
  ["src/file.rs", "src/directory.rs", "src/reader.rs", "src/header.rs", "src/wz_image.rs", "src/util/parse_property.rs", "src/property/png.rs", "src/property/sound.rs", "src/property/lua.rs", "src/ms/header.rs", "src/ms/file.rs", "src/ms/ms_image.rs"], [("bounds checks", "src/reader.rs get_slice_or_error and pread"), ("entry verification", "src/directory.rs verify")],
  ["all public parse and extract functions"])
p("C20", "A multi-file installation resolves to the union of its archives",
  "Resolving a Base archive yields a tree in which each listed directory is replaced by its archive's content, merged with the numbered sibling archives of the same name, recursively, for both the flat and the one-folder-per-archive layouts, for PKG1 and PKG2 archives; a key and version that are given, or found in Base, serve every archive; nothing stored in a participating archive is missing, nothing unlisted is added, and every node's parent chain leads to the root.",
  ["inputs", "configurations"], "installation layouts × numbers of part archives × nesting × archive forms × keys × versions",
  "Tests resolve one tiny fixed layout, or none.",
  ["src/util/resolver.rs"], [("resolution", "src/util/resolver.rs resolve_base/resolve_root_wz_file_dir_full")],
  ["util::resolve_base", "util::resolve_root_wz_file_dir"])
p("C21", "Concurrent use gives the same results as sequential use",
  "Any number of threads that open, parse, unparse, read, look up, walk, follow links and extract, on one shared tree or on separate trees that share keys, finish without panic or deadlock and observe exactly the values a single thread observes; every node is either wholly unparsed or wholly parsed when seen through its lock. (An image another thread unparses is seen as unparsed; threads that hold a node's guard while asking for nodes above it, mixed with others that do so for nodes below it and with writers, are outside: those locks are the caller's.)",
  ["schedules", "histories"], "all interleavings of all operation mixes over shared trees, shared keys and the shared profile cache",
  "Tests are single threaded.",
  ["src/node.rs", "src/reader.rs", "src/util/string_decryptor/mod.rs", "src/util/walk.rs"], [("locks around nodes", "src/node.rs WzNodeArc"), ("shared key growth", "src/reader.rs get_decrypt_slice")],
  ["WzNodeArc operations on several threads"])
p("C22", "A standalone image file is opened with the right key or refused",
  "Opening a .img file without naming a key detects the key that decodes it and yields the same tree as naming that key; naming a key that does not fit, or opening a file no known key fits (an empty file included), is reported as an error.",
  ["inputs"], "images × keys × {named, detected, wrong} × image bytes",
  "Tests open one sample image with one key.",
  ["src/wz_image.rs", "src/util/version/mod.rs", "src/node.rs"], [("key detection", "src/util/version/mod.rs guess_iv_from_wz_img/verify_iv_from_wz_img"), ("open", "src/wz_image.rs from_file")],
  ["WzNode::from_img_file(_with_iv)", "WzImage::from_file"])
p("C23", "Optional features never change what is decoded",
  "Built with or without parallel decoding, or with insertion-ordered children, the library decodes the same file to the same tree, values, pixels and exports; with ordered children enabled, children are additionally listed in stored order.",
  ["configurations", "inputs"], "feature combinations × files",
  "The tests run in one feature configuration.",
  ["src/property/png.rs", "src/lib.rs", "src/node.rs"], [("feature-gated code", "src/property/png.rs cfg(feature = \"rayon\")"), ("map type", "src/lib.rs WzMap")],
  ["decoded values under each feature set"])

p("C24", "A node answers to exactly the kind of value it holds",
  "Asked for a kind of value (file, directory, image, sub property, canvas, sound, script, raw data, video, vector, each number type, string, link, null), a node answers for the kind it holds and the general kinds that includes (a canvas and a sound are sub properties, a link is also a string), and for no other; what it hands out is the value put in or stored. Its name and parent are those given, its text is that of its string or link and absent for anything else, and vectors add, subtract, multiply, divide and measure distance component by component.",
  ["inputs"], "all kinds of values x all values, in nodes built by hand and in nodes of parsed images",
  "Tests ask a few literal nodes for their own kind; they do not ask every node for every kind, nor nodes read from images.",
  ["src/node_cast.rs", "src/object.rs", "src/node.rs", "src/node_name.rs", "src/property/vector.rs", "src/property/string.rs"],
  [("casts", "WzNodeCast impl for WzNode"), ("conversions", "From impls of WzObjectType"), ("construction", "src/node.rs new/from_str")],
  ["WzNodeCast::try_as_*, is_*", "WzNode::new/from_str", "resolve_string_from_node"])
p("C25", "An archive's header is read as it is written",
  "For any bytes, the header read is the one they state: identifier, size, start and, for PKG1, the version field when there is one, or, for PKG2, the two hashes, plain or scattered in a 68-byte or 150-byte header; data starts right after it. Bytes with no such header, or cut inside it, are refused with an error or read as an empty header, and reading a header by itself, through a reader, through a slice of it or by opening the file agrees. Opening a file reports its path, name and size and leaves it unparsed.",
  ["inputs"], "all byte strings, with and without a header in one of the four forms, whole or cut",
  "Tests read the headers of two sample archives; boundaries of the version field rule, scattered headers and cut files are not covered.",
  ["src/header.rs", "src/reader.rs", "src/file.rs"],
  [("header", "src/header.rs read_from_buf"), ("readers", "src/reader.rs create_header/new_with_header"), ("open", "src/file.rs from_file")],
  ["WzHeader::read_from_buf", "WzReader::from_buff().header", "WzNode::from_wz_file"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
