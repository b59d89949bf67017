#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json, os
R = "src/rust/fcb_core/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": [R + f if not f.startswith("src/") else f for f in files],
        "mechanism": [{"name": n, "where": (R + w if not w.startswith("src/") else w)} for n, w in mech],
        "observe_at": observe, "hook_needed": None, **({"state": state} if state else {})}})

p("C01", "Round trip keeps every feature exactly once",
  "Writing a CityJSONSeq dataset (any number of features, including none and one) to FlatCityBuf and reading everything back yields exactly the features that were added, none lost, duplicated, merged or invented, each with its id, its vertices and the id, type, parents, children and children roles and geographical extent of every city object. Without a spatial index the features come back in insertion order. The reported feature count is the number of features added and the number of features iterated.",
  ["inputs", "configurations"], "all CityJSONSeq datasets the reader crate parses, with vertices in the 32-bit range; all writer options (spatial index on/off, attribute indices, extent)",
  "The tests write three sample files and compare a few fields; they cannot vary feature counts, id contents, empty parts or object hierarchy.",
  ["writer/mod.rs", "writer/feature_writer.rs", "writer/serializer.rs", "reader/mod.rs", "reader/city_buffer.rs", "reader/deserializer.rs"],
  [("FcbWriter::add_feature / write reorder features into index order", "writer/mod.rs"), ("to_fcb_city_feature / to_city_object", "writer/serializer.rs"), ("FeatureIter::next reads the next size-prefixed feature", "reader/mod.rs"), ("to_cj_feature", "reader/deserializer.rs")],
  ["FcbReader::select_all(_seq) + cur_cj_feature", "FcbReader::features_count"])

p("C02", "Header metadata survives the round trip",
  "The CityJSON metadata object decoded from a FlatCityBuf header carries the same version, transform (scale and translate, bit for bit) and metadata (identifier, title, reference date, reference system, point of contact with its address, geographical extent) as the CityJSON object handed to the writer. An extent given in the writer options replaces the metadata extent; fields that were absent stay absent.",
  ["inputs", "configurations"], "all CityJSON metadata objects, each field present or absent, any strings and finite numbers; all writer options",
  "The tests check one metadata object with every field present, so the presence/absence combinations and value ranges are not reached.",
  ["writer/serializer.rs", "writer/header_writer.rs", "reader/deserializer.rs"],
  [("to_fcb_header", "writer/serializer.rs"), ("to_cj_metadata", "reader/deserializer.rs")], ["deserializer::to_cj_metadata", "FcbReader::header"])

p("C03", "Geometry boundaries, LoD and semantics survive the round trip",
  "Every geometry of every city object is decoded with the same type, LoD, boundary nesting and vertex indices it was written with: points, line strings, surfaces with holes, solids with inner shells, multi- and composite solids, and empty or single-element nesting levels included. Its semantic surfaces come back with the same types (including extension types), attributes and parent/children links, and the same assignment of every surface to its semantic object or to none.",
  ["inputs"], "all well-formed CityJSON geometries of the seven boundary types with any nesting shape, any semantics array matching the boundaries, including null entries",
  "Unit tests encode a handful of fixed arrays per geometry type; flattening and un-flattening errors appear only for particular shapes (one shell, one solid, empty ring lists, nulls in the middle).",
  ["writer/geom_encoder.rs", "writer/serializer.rs", "reader/geom_decoder.rs", "reader/deserializer.rs"],
  [("boundary flattening into solids/shells/surfaces/strings/indices", "writer/geom_encoder.rs"), ("decode", "reader/geom_decoder.rs"), ("decode_semantics", "reader/geom_decoder.rs"), ("to_geometry", "writer/serializer.rs")],
  ["CityJSONFeature.city_objects[*].geometry"])

p("C04", "Appearance survives the round trip",
  "Materials, textures, texture vertices and default themes of a feature's appearance are decoded with the values they were written with. Every geometry keeps, per theme, its material values and texture references with the same nesting, indices and nulls. The appearance of the header is decoded likewise.",
  ["inputs"], "all appearance objects and all material/texture value arrays whose nesting matches the geometry's boundaries, several themes, nulls at any position, single-value materials",
  "Tests cover fixed material/texture arrays; nulls, several themes and degenerate nesting are not sampled.",
  ["writer/geom_encoder.rs", "writer/serializer.rs", "reader/geom_decoder.rs", "reader/deserializer.rs"],
  [("encode_material / encode_texture", "writer/geom_encoder.rs"), ("decode_materials / decode_textures", "reader/geom_decoder.rs"), ("to_appearance / to_cj_appearance", "writer/serializer.rs")],
  ["CityJSONFeature.appearance", "geometry.material", "geometry.texture", "to_cj_metadata().appearance"])

p("C05", "Attribute values survive the round trip",
  "Every attribute of every city object whose name is in the attribute schema and whose value fits its column type is decoded with the same value and type: booleans, integers of every width, floats, doubles, strings of any Unicode content, date-times, JSON arrays and objects, binary strings; a column declared as single-precision float keeps single precision; absent attributes stay absent. A value that does not fit its declared column is kept as well, unaltered, or refused; it never turns into another value. A schema inferred from the same features by the provided inference loses no attribute value of those features, even when values of one attribute have different JSON types.",
  ["inputs", "configurations"], "all attribute maps over all schemas (explicit, every column type at its extreme values, or inferred), sparse and null values",
  "Tests encode one attribute object per type with mid-range values and a fixed schema.",
  ["writer/attribute.rs", "writer/serializer.rs", "reader/deserializer.rs"],
  [("encode_attributes_with_schema", "writer/attribute.rs"), ("AttributeSchemaMethods::add_attributes", "writer/attribute.rs"), ("decode_attributes", "reader/deserializer.rs"), ("to_columns", "writer/serializer.rs")],
  ["city_object.attributes after decoding", "header.columns"])

p("C06", "Geometry templates and instances survive the round trip",
  "The geometry templates of the header (geometries and template vertices, bit for bit) and every geometry instance of every city object (template index, reference point, transformation matrix) are decoded with the values they were written with, next to ordinary geometries of the same object.",
  ["inputs"], "all template lists and template vertices, all instances (any 4x4 matrix, any template index), mixed with ordinary geometries",
  "One sample file has templates; matrices, several templates per type and mixing are not varied.",
  ["writer/serializer.rs", "reader/deserializer.rs"],
  [("to_geometry_instance / to_templates", "writer/serializer.rs"), ("decode_geometry_instance / to_cj_geometry_templates", "reader/deserializer.rs")],
  ["to_cj_metadata().geometry_templates", "geometry of type GeometryInstance"])

p("C07", "Extensions survive the round trip",
  "Extension declarations of the header (name, URL, version), the description and the extra attributes, city objects, root properties and semantic surfaces of the extension files they lead to, extension city-object types, and extension semantic-surface types are decoded with the values they were written with. A declared extension whose file cannot be fetched is an error when writing. Standard types never turn into extension types or the other way round.",
  ["inputs"], "all extension name/URL/version strings and all '+'-types, mixed with all standard types",
  "One sample file with one extension is tested.",
  ["writer/serializer.rs", "reader/deserializer.rs", "reader/geom_decoder.rs"],
  [("to_extension / city object type mapping", "writer/serializer.rs"), ("to_cj_co_type", "reader/deserializer.rs")],
  ["CityObject.thetype", "to_cj_metadata().extensions"])

p("C08", "A spatial query returns exactly the matching features",
  "On a file with a spatial index, a bounding-box query returns exactly the features whose two-dimensional bounding box intersects the box (closed intervals), each once and in file order, and a point query exactly those whose bounding box contains the point. A nearest-point query returns one feature whose bounding-box centre is at minimal distance from the point. A feature without vertices matches no query. This holds for the seekable and the sequential reader and for any number of features.",
  ["inputs", "configurations"], "all feature sets (0..several hundred, clustered, identical, degenerate, negative coordinates, any positive transform), all query boxes (minimum not above maximum) and points incl. boundary-touching ones",
  "The test queries one box on one file and checks a count; node boundaries, ties, level counts and touching edges need many sizes.",
  ["reader/mod.rs", "packed_rtree/mod.rs", "writer/mod.rs", "writer/serializer.rs"],
  [("FcbReader::select_query / select_query_seq", "reader/mod.rs"), ("PackedRTree::stream_search", "packed_rtree/mod.rs"), ("FcbWriter::actual_bbox", "writer/mod.rs"), ("hilbert_sort and index offsets", "packed_rtree/mod.rs")],
  ["features returned by select_query(_seq)", "FeatureIter::features_count"])

p("C09", "An attribute query returns exactly the matching features",
  "For indexed attributes, a query of one or more conditions (equal, not equal, less, greater, at most, at least) joined by 'and' returns exactly the features that, for every condition, have a city object whose indexed attribute value satisfies it, each once and in file order, with the seekable and the sequential reader. A feature without a value for the attribute never matches. Strings are compared on their first 50 bytes, numbers and times in the type of the column. Unknown or non-indexed fields, attributes without any value to index, empty queries and keys of the wrong type are errors, not empty results (when an earlier condition already has no match, an empty result is accepted).",
  ["inputs", "configurations"], "all feature sets, all indexable column types, duplicate values, several objects per feature, any branching factor, all operators and key values incl. extremes and absent ones",
  "Tests run a few queries on one file with unique-ish values; level boundaries, duplicates and extreme keys are not reached.",
  ["reader/attr_query.rs", "writer/attr_index.rs", "writer/attribute.rs", "static_btree/query/memory.rs", "static_btree/query/stream.rs", "static_btree/stree.rs"],
  [("build_attribute_index_for_attr", "writer/attr_index.rs"), ("select_attr_query / select_attr_query_seq", "reader/attr_query.rs"), ("MemoryMultiIndex / StreamMultiIndex", "static_btree/query/stream.rs")],
  ["features returned by select_attr_query(_seq)"])

p("C10", "The static B+tree agrees with a sorted multimap",
  "A static B+tree built from any multiset of (key, offset) entries answers exact-match and range lookups exactly as a sorted multimap does, whichever backend answers: in memory, streaming from a file, or over HTTP ranges. Every index operator (equal, not equal, less, greater, at most, at least) follows from it and serialising the index and reading it back changes no answer.",
  ["inputs", "configurations"], "all key types, entry multisets of 1..thousands with any duplication (no NaN keys), branching factors 2..300, keys present, between, below and above, type extremes; all three backends",
  "Unit tests use a few dozen consecutive keys and one branching factor.",
  ["static_btree/stree.rs", "static_btree/payload.rs", "static_btree/entry.rs", "static_btree/query/memory.rs", "static_btree/query/stream.rs", "static_btree/query/http.rs"],
  [("Stree::build / find_exact / find_range / stream_* / http_stream_*", "static_btree/stree.rs"), ("duplicate payload blocks", "static_btree/payload.rs")],
  ["MemoryIndex / StreamIndex / HttpIndex query results"])

p("C11", "The packed R-tree agrees with a linear scan",
  "A packed R-tree built from any list of boxes and any node size answers box, containing-point and nearest-point queries exactly as a linear scan does, in memory, streaming and over HTTP ranges, and its byte size is the size predicted from item count and node size. Hilbert sorting only permutes the items, and the extent is the exact union of the boxes.",
  ["inputs", "configurations"], "all box lists (1..thousands, degenerate, duplicated, clustered), node sizes 2..65535, all queries, all three search paths",
  "Unit tests use two fixed lists and node size 16.",
  ["packed_rtree/mod.rs"],
  [("PackedRTree::build / generate_nodes / search / stream_search / http_stream_search / index_size", "packed_rtree/mod.rs"), ("hilbert_sort / calc_extent", "packed_rtree/mod.rs")],
  ["search results", "index_size", "stream_write output"])

p("C12", "Index keys keep value and order",
  "Encoding an index key and decoding it gives the same key back in exactly the declared number of bytes, for every key type and value. Keys are totally ordered, and the order of keys is the natural order of the values (numeric, false before true, chronological, byte-wise for strings, with the declared minimum and maximum at the ends, NaN after every number).",
  ["inputs"], "all values of all fourteen key types, incl. extremes, NaN, signed zero, times before 1970, truncated and NUL-containing strings",
  "Unit tests round-trip one value per type.",
  ["static_btree/key.rs", "static_btree/entry.rs"],
  [("Key::write_to / from_bytes / Ord / Min / Max", "static_btree/key.rs")], ["Key trait"])

p("C13", "Reading over HTTP equals reading the local file",
  "Reading a FlatCityBuf file through HTTP range requests gives the same header and the same features as reading the bytes locally, for select-all, spatial and attribute queries, whatever the file size and index layout. A failed, empty or short response turns into an error; it never yields a result with features missing or altered.",
  ["inputs", "configurations", "fault_sequences"], "all files and queries of C01/C08/C09; every request index as failure point with error, short or empty body",
  "Tests use a mock client over one file and never inject faults.",
  ["http_reader/mod.rs", "packed_rtree/mod.rs", "static_btree/query/http.rs", "static_btree/stree.rs"],
  [("HttpFcbReader::open / select_all / select_query / select_attr_query", "http_reader/mod.rs"), ("FeatureBatch::make_batches", "http_reader/mod.rs"), ("http_stream_search", "packed_rtree/mod.rs"), ("http_stream_find_*", "static_btree/stree.rs")],
  ["AsyncFeatureIter::next / cur_cj_feature / header"])

p("C14", "Seekable and sequential readers and iterator counts agree",
  "The seekable and the sequential reader return the same features in the same order for select-all, spatial and attribute queries, from readers that deliver bytes in chunks of any size. The count reported for a selection is the number of features it yields, stays fixed during iteration, and iteration past the end keeps reporting the end.",
  ["inputs", "configurations", "histories"], "all files and queries of C01/C08/C09, all chunkings of the input, all interleavings of next/current/count calls",
  "Tests read whole files from a plain file and rarely use the sequential reader.",
  ["reader/mod.rs", "reader/attr_query.rs"],
  [("FeatureIter<R, Seekable/NotSeekable>", "reader/mod.rs"), ("read_feature / skip", "reader/mod.rs")], ["FeatureIter::next", "features_count", "size_hint"])

p("C15", "The file layout is what the header says",
  "A written file consists of the magic bytes, a size-prefixed header, a spatial index of the size implied by feature count and node size (none when disabled), the attribute indices in header order with exactly their declared lengths, and the size-prefixed features back to back, with nothing in between or after. Every spatial-index leaf and attribute-index entry points at the start of a feature, and each feature has exactly one leaf holding exactly its bounding box. Equal inputs give equal bytes up to the unordered maps of the input.",
  ["inputs", "configurations"], "all datasets and writer options",
  "Tests only read back through the library's own reader, which hides layout errors made on both sides.",
  ["writer/mod.rs", "writer/header_writer.rs", "writer/attr_index.rs", "packed_rtree/mod.rs"],
  [("FcbWriter::write", "writer/mod.rs"), ("AttributeIndex lengths in the header", "writer/serializer.rs")], ["bytes written by FcbWriter::write"])

p("C16", "Damaged files are rejected, not misread",
  "Opening and reading a truncated or corrupted file ends with an error or with a complete decode; it never panics, aborts, hangs, reads out of bounds, or allocates memory out of proportion to the file. A file cut short at any byte never passes as complete: some call returns an error. A selection that ends without an error has yielded as many features as it announced (a header count of 0 stands for an unknown count). Bytes that do not start with the format's magic number are refused.",
  ["inputs", "fault_sequences"], "every cut position and random byte and field damage of all files of C01 (verified mode), arbitrary byte strings",
  "Tests contain no damaged file.",
  ["reader/mod.rs", "reader/city_buffer.rs", "reader/deserializer.rs", "reader/geom_decoder.rs", "reader/attr_query.rs", "static_btree/stree.rs", "packed_rtree/mod.rs", "lib.rs"],
  [("check_magic_bytes and verified FlatBuffers roots", "reader/mod.rs"), ("HEADER_MAX_BUFFER_SIZE", "const_vars.rs")], ["FcbReader::open, FeatureIter::next, cur_cj_feature results"])

p("C17", "The command-line tool converts without loss",
  "Converting CityJSONSeq to FlatCityBuf and back with the command-line tool reproduces the dataset, whether through files or through standard input and output, and whatever index options are given. With a bounding-box filter exactly the features having a vertex in the box are kept, the computed extent is the exact union of all vertices, and the info command reports the version, feature count and extent of the file. A conversion that fails or reads a damaged file exits with a non-zero status.",
  ["inputs", "configurations", "fault_sequences"], "all datasets of C01, all option combinations of ser/deser/info, file or pipe; cut input files",
  "The only CLI test checks that the argument parser is consistent.",
  ["src/rust/cli/src/main.rs", "cj_utils.rs"],
  [("serialize / deserialize / show_info", "src/rust/cli/src/main.rs"), ("calculate_geospatial_extent / feature_intersects_bbox", "src/rust/cli/src/main.rs")], ["fcb ser / deser / info exit status and output"])

p("C18", "Index options and input order never change the data",
  "Which indices are written, their branching factors and the order in which features are added change only the order and reachability of features, never their content: the set of decoded features, and the set of features answering any given spatial or attribute query that the file can answer, stay the same.",
  ["inputs", "configurations"], "all datasets; pairs of writer configurations and input permutations",
  "A relation between two runs; no test compares two.",
  ["writer/mod.rs", "writer/attr_index.rs", "writer/feature_writer.rs"],
  [("FcbWriter state reset between features", "writer/feature_writer.rs"), ("offset assignment after sorting", "writer/mod.rs")], ["multiset of decoded features and query answers"])

p("C19", "CityJSON input is read completely",
  "Reading a CityJSONSeq stream yields its metadata object and every feature, in order, whatever the line endings, final newline and buffering; reading a CityJSON document yields that document. Malformed input (bad JSON or nothing on any line, a first line that is no CityJSON, an empty stream) is an error naming the problem, never a shorter result.",
  ["inputs", "fault_sequences"], "all sequences of valid lines with any separators and chunking; damage at any line",
  "Tests read two valid files.",
  ["cj_utils.rs", "cjerror.rs"], [("read_cityjson_from_reader", "cj_utils.rs")], ["read_cityjson / read_cityjson_from_reader"])

p("C20", "What cannot be stored is refused, and a failing output is reported",
  "Writing never panics. A dataset that the format cannot represent (numbers outside its ranges, geometry nested otherwise than its type asks for, an instance without template, matrix or point) is refused with an error; whatever is written without an error can be opened, every feature of it can be decoded, and no number or boundary in it has been altered silently. An output that fails is reported as an error, and an output that takes the data in pieces receives exactly the bytes that one taking it at once receives.",
  ["inputs", "fault_sequences"], "datasets of C01 with one or several values altered, removed, repeated, nested or re-typed; outputs that fail at any byte, write short, interrupt",
  "Tests write valid files into memory only; the guarantee ranges over every malformed dataset and every failing write.",
  ["writer/mod.rs", "writer/geom_check.rs", "writer/geom_encoder.rs", "writer/header_writer.rs", "writer/serializer.rs"],
  [("check_feature / check_geometry", "writer/mod.rs"), ("write", "writer/mod.rs")], ["FcbWriter::new / add_feature / write results, bytes written"])

p("C21", "The header describes the schema and the indices",
  "The header of a written file lists exactly the columns of the attribute schema and of the semantic attribute schema, each with its number, name and type and in order of number, and exactly the attribute indices that were built, each with its column and branching factor. Every accessor agrees with it: the local and the HTTP reader, the feature iterators, the raw buffers, and the meta summary (columns, types, which are indexed, feature count), whose JSON form reads back equal.",
  ["inputs", "configurations"], "all schemas with any column numbers, names and types, with or without values; all lists of indices, including those that cannot be built",
  "Tests look at the columns of one inferred schema; no test uses arbitrary numbers or compares the accessors.",
  ["writer/serializer.rs", "writer/header_writer.rs", "reader/mod.rs", "reader/deserializer.rs", "reader/city_buffer.rs", "http_reader/mod.rs"],
  [("to_columns", "writer/serializer.rs"), ("to_meta", "reader/deserializer.rs"), ("FcbBuffer::meta", "reader/city_buffer.rs")], ["FcbReader::header / root_attr_schema / FcbBuffer::meta"])

p("C22", "The statistics tool reports what the files contain",
  "For a directory of datasets the statistics tool lists, in order of name, exactly the pairs of a readable FlatCityBuf file and its CityJSONSeq text that the recursion and city-filter options select, each with the right sizes, numbers of features, city objects, vertices, attributes and semantic attributes, and the averages and ratios that follow from them; the table, CSV and JSON forms name every value and agree. A dataset that cannot be read is left out and hides no other.",
  ["inputs", "configurations", "fault_sequences"], "directories with any number of datasets of any content, names, nesting and pairing; cut files; all option combinations",
  "No test runs the tool.",
  ["bin/stats.rs", "reader/mod.rs"], [("analyze_fcb / analyze_jsonl", "bin/stats.rs"), ("find_dataset_pairs", "bin/stats.rs"), ("output_table / output_csv / output_json", "bin/stats.rs")], ["output and exit status of the stats binary"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
