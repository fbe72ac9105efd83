AI = "static analysis: flow-sensitive abstract interpretation of the SSA form (value-origin domain, in-repo callees inlined)"
AIN = "decided from the SSA of the current source for all inputs, with no execution; library calls (encoding/json, fmt, strings, time) are summarised by hand-written models, listed in DESIGN.md"
ONE = "tests sample a few hand-written documents; a field forgotten, swapped or conditionally skipped shows only for the right combination of set and unset fields"

prop("C01", "Merging documents never loses, swaps or overrides a set field",
 "Merging any list of source documents into a target leaves every field of the target, and of every component reached through a dataset, holding the value of the last source in which that field is set, or the target's own value when no source sets it; the dataset identifier alone is only filled in when the target has none. Transform configuration, resources and secrets are merged key by key under the same rule, a component missing from the target is taken over from the sources, and absent sources are ignored. Custom metadata counts as one field.",
 ["inputs", "configurations"], "every field of all eight document types, every set/unset combination of target and sources, source lists of any of the analysed shapes",
 ONE, ["dataset.go", "commit.go", "meta.go", "structure.go", "transform.go", "readme.go", "viz.go", "stats.go"],
 [("merge operations", "Assign methods of the eight document types")], AI, AIN)

prop("C02", "JSON encoding of a document carries every set field under its own key",
 "When a document or component is encoded as a JSON object, every set field appears under its published key with exactly its own value, unset fields appear not at all or with their empty value, the kind identifier is always present (defaulting to the component's own kind), and custom metadata entries are all included. A failure to encode is returned as an error. Exceptions: transform secrets are never written, a viz or readme object does not carry its own location, and a meta object always carries the current meta kind.",
 ["inputs"], "every field of all eight document types, set or unset, all other fields unknown; one arbitrary custom metadata key",
 ONE, ["dataset.go", "commit.go", "meta.go", "structure.go", "transform.go", "readme.go", "viz.go", "stats.go"],
 [("JSON encoders", "MarshalJSON / MarshalJSONObject of the document types")], AI, AIN)

prop("C03", "JSON decoding puts every key into its own field and nothing else",
 "Decoding a JSON object into a document sets each field to the value of its published key, leaves fields whose key is absent unset whatever the target held before (the kind of a viz or readme may default), and keeps every unrecognised metadata key as custom metadata while never duplicating published keys there (the legacy names data, image, keyword, length and timestamp may be discarded). Decoding a JSON string gives a reference: the location is set and every other field is unset. Input that cannot be decoded yields an error and leaves the target unchanged.",
 ["inputs"], "every published key of all eight document types present or absent, all other keys unknown; one arbitrary unknown metadata key",
 ONE, ["dataset.go", "commit.go", "meta.go", "structure.go", "transform.go", "readme.go", "viz.go", "stats.go"],
 [("JSON decoders", "UnmarshalJSON of the document types and of transform resources")], AI, AIN)

prop("C04", "A document collapses to its path only when nothing else is set",
 "A dataset or component is encoded as a bare location string exactly when it has a location and no other content field is set (its kind does not count); as soon as any other field, custom metadata included, is set, or when it has no location, it is encoded as an object.",
 ["inputs"], "every content field of all eight document types set in turn with the rest unknown",
 ONE, ["dataset.go", "commit.go", "meta.go", "structure.go", "transform.go", "readme.go", "viz.go", "stats.go"],
 [("reference form", "MarshalJSON of the document types")], AI, AIN)

prop("C05", "Emptiness tests are exact",
 "The emptiness test of every document type answers true when no field other than location and kind is set, and false as soon as any other document field, custom metadata included, is set; open file handles do not count.",
 ["inputs"], "every content field of all eight document types set in turn with the rest unknown",
 ONE, ["dataset.go", "commit.go", "meta.go", "structure.go", "transform.go", "readme.go", "viz.go", "stats.go"],
 [("emptiness tests", "IsEmpty of the document types")], AI, AIN)

prop("C06", "Stripping transient or derived values clears exactly those values",
 "Stripping transient values clears exactly the fields documented as not storable (dataset: inline body, body bytes, name, peername, path, profile id, version count; commit, meta and structure: path; transform: path, secrets, text; viz and readme: path, text) and leaves every other field and all components untouched. Stripping derived values clears exactly kind and path, plus checksum, depth, error count, entry count and length of a structure, and on a dataset does so for every component present and nothing else.",
 ["inputs"], "all field values of all document types at once; components present or absent",
 ONE, ["dataset.go", "commit.go", "meta.go", "structure.go", "transform.go", "readme.go", "viz.go", "stats.go"],
 [("stripping operations", "DropTransientValues / DropDerivedValues of the document types")], AI, AIN)

prop("C07", "Component comparison ignores location and nothing else",
 "Comparing two transforms, two readmes or two visualisations answers true whenever all their public fields other than location are equal, whatever their locations and open files, and false whenever any one of those fields differs. Two absent components are equal, an absent and a present one are not.",
 ["inputs"], "every compared field differing in turn with the rest unknown; all fields equal; absent operands",
 ONE, ["transform.go", "readme.go", "viz.go"], [("comparisons", "ShallowCompare of transform, readme and viz")], AI, AIN)

prop("C08", "Signing bytes cover exactly the identified parts, in a fixed order",
 "The bytes to be signed for a dataset are the newline-separated list, in the order id, bd, cm, md, rm, st, tf, sa, vz, of prefix, colon and value for exactly those parts that are present: the dataset identifier, the body path, the commit timestamp (UTC, RFC 3339, seconds) and the paths of the other components. No part is omitted, duplicated, reordered or given another part's value.",
 ["inputs"], "all 512 presence combinations of the nine parts, absent parts both as missing components and as components without the value, symbolic values",
 "the tests check a handful of fixed datasets", ["dataset.go", "kind.go"], [("signing bytes", "Dataset.SigningBytes, ComponentTypePrefix")], AI, AIN)

prop("C09", "The component path listing names exactly the components present",
 "Listing the paths of a dataset maps each component that is present to its own path under its own name (body and the dataset itself only when they have a path), omits components that are absent or that the caller asked to ignore, contains no other names, and is an empty listing for no dataset.",
 ["inputs"], "every component present or absent in turn, everything else about it and the rest unknown; all lists of up to two ignored names, and all names",
 ONE, ["dataset.go"], [("path listing", "Dataset.PathMap")], AI, AIN)

prop("C13", "Opening or inlining a document's files uses the right source and reports failure",
 "Opening a transform, readme or viz script gives a file with the inline text when there is one, otherwise whatever the resolver returns for the script path; opening a rendered file or a body works the same way, where a body with an inline value is refused with the inline-body error, inline bytes (even empty ones) win over the body path, and the in-memory file is named after the body path or 'body'. Nothing to open is not an error and leaves the open file alone, a path without a resolver gives the no-resolver error, and a resolver failure is returned. Inlining a script reads the whole opened file into the text and clears the script path, does nothing without a resolver or without a file, and leaves text and path alone when opening or reading fails. No other field changes.",
 ["inputs", "faults"], "all combinations of inline data, path, resolver and already open file, with the resolver and the read failing or not, for nine operations",
 "tests cover a few combinations per type; the operations are near-copies of each other in which one wrong field or a dropped error goes unnoticed",
 ["dataset.go", "transform.go", "readme.go", "viz.go"], [("file operations", "OpenScriptFile, OpenRenderedFile, InlineScriptFile, OpenBodyFile")], AI, AIN)

prop("C15", "Detecting, previewing and rendering keep the document's data",
 "Detecting the structure of a dataset, creating its preview and rendering its visualisation leave every file of the document delivering its original content from the first byte, under its own name, whatever was read of it and whether the operation succeeds or fails, and change nothing else but what they are for. Detection keeps every structure field that is set, fills in a missing format, compression and schema with the ones detected, and a missing format configuration with the detected one if the format is the detected one; it reports a missing body, an unrecognised file name and a failed detection. A preview has the first 997 bytes of the readme, followed by three dots if it has that many, the first 100 entries of the body as JSON in the schema of the document, and all other components as they are. Rendering without a visualisation, in another format than html, without a script, or whose script cannot be read, parsed or executed is an error.",
 ["inputs", "faults"], "eight body file names with all combinations of present structure fields and four formats; readmes of seven sizes around the limit; presence of structure, body, readme, visualisation and script; every amount that readers of the files may read, every call that can fail failing or not, every function a template can call called or not",
 "tests look at the result of an operation, hardly at what is left of its input, and never after a failure", ["detect/detect.go", "preview/preview.go", "dsviz/render.go"],
 [("document inspection", "detect.Structure, detect.FromReader, preview.Create, dsviz.Render and its template functions")], AI,
 AIN + "; readers are terms (tee, limit, chain, in-memory file), and a callee that is given one may read any amount of it")

prop("C16", "Format configurations survive their map form",
 "Turning a CSV, XLSX or JSON format configuration into its option map and parsing that map for the same format gives back the same configuration: header row, lazy quotes, variadic fields and any single-byte separator; sheet name; JSON options. Absent options take their default, options of the wrong type and separators that are not exactly one byte are rejected with an error, and formats without configuration are rejected.",
 ["inputs"], "all boolean combinations, all 128 single-byte separators, arbitrary sheet names and JSON options; each option absent, valid or of a wrong type with the others unknown",
 "tests cover a few option maps and never parse the map form back", ["data_format_config.go"], [("format configuration", "ParseFormatConfigMap, New*Options, Map methods")], AI, AIN)

prop("C20", "Names, formats and codecs agree with each other",
 "Every data format prints a name that parses back to it, with or without a leading dot (jsonl also meaning ndjson), in text and in JSON; unknown names are rejected. The supported formats are CBOR, JSON, CSV, XLSX and NDJSON, and each of them, and nothing else, gets its own kind of entry reader, entry writer and schema detector. A body file name made from a structure carries the format and compression names, and file names with those extensions (also jsonl, gz, zstd) are recognised as that format and compression; other extensions are rejected. Compression names select the same codec for compressing and decompressing, and unknown ones are rejected. JSON schema type names parse back to their types.",
 ["inputs", "configurations"], "all format, compression and type names, and one arbitrary other name",
 "each table is tested on its own and in part; agreement between tables is not", ["data_format.go", "dsio/dsio.go", "detect/detect.go", "detect/determineFields.go", "compression/compression.go", "vals/type.go", "structure.go"],
 [("registries", "ParseDataFormatString, DataFormat.String, NewEntryReader, NewEntryWriter, detect.Schema, FormatFromFilename, ParseFormat, Compressor, Decompressor, TypeFromString")], AI, AIN)

prop("C46", "Validation accepts and rejects by its documented rules",
 "Validating a dataset fails when it has no commit, when its commit title is longer than 100 bytes, or when it has a structure without a known format or without a schema, and succeeds otherwise, whatever its other fields hold; an absent dataset, commit or structure is valid.",
 ["inputs"], "title lengths 0 to 160 bytes, also of characters of two and three bytes and of blanks, every format name and one arbitrary unknown one, presence of commit, structure and schema, all other fields unknown",
 ONE, ["validate/dataset.go"], [("validators", "validate.Dataset, Commit, Structure, Schema")], AI, AIN)

prop("C47", "Setting metadata by key reaches the right field",
 "Setting a metadata value by key stores it in the published field of that name (qri, accessURL, accrualPeriodicity, description, downloadURL, homeURL, identifier, readmeURL, title, version, keywords, language, theme, citations, contributors, license), whatever the case of the key and surrounding space, and changes nothing else; a null empties a text or list field, and a value of the wrong type, at any depth of a list or structured value, is refused with an error. Any other key is stored as custom metadata under exactly that key, keeping all other entries. Reading custom metadata gives a copy with exactly those entries.",
 ["inputs"], "every published key in four spellings, values of the right and of wrong types, lists of up to eight items, several custom keys, and one arbitrary custom key for reading",
 ONE, ["meta.go"], [("metadata setters", "Meta.Set, Meta.SetArbitrary, Meta.Meta, Decode of User, License, Citation")], AI, AIN)

SEQ = "tests write a few fixed documents; a comma, header, flush or refused entry handled wrongly shows only for the right sequence of entries and configuration"

prop("C23", "A compressed body is one complete stream of exactly the uncompressed document",
 "Writing entries with a structure naming a compression (gzip, gz, zstd or zst) leaves, once the writer is closed, exactly one finished stream of that compression in the destination, whose contents are the document that would have been written without compression. A reader for such a structure reads everything through the decompressor of that compression and closes it when it is closed; without compression nothing is decompressed. An unknown compression, and any compression for XLSX, is refused when the reader or writer is made.",
 ["inputs", "configurations"], "every format, top level type, header, separator and pretty configuration, with each of the four compression names, zero to two entries of unknown contents; one arbitrary unknown compression name",
 SEQ, ["dsio/dsio.go", "dsio/csv.go", "dsio/json.go", "dsio/ndjson.go", "dsio/cbor.go", "dsio/xlsx.go", "compression/compression.go"],
 [("compression of bodies", "maybeWrapCompressor, maybeWrapDecompressor, constructors and Close of readers and writers")], AI, AIN)

prop("C27", "Tabular writers put every value into its own cell as its text, or refuse the row",
 "The CSV and XLSX writers write, for each entry, one row with one cell per value in order: text as it is, whole numbers in decimal, other numbers in their shortest exact decimal form, true and false, nothing for null, and JSON for lists and objects. An entry that is not a list, a value without a text form, or one that cannot be encoded is refused with an error, and leaves nothing in the table; later entries are unaffected.",
 ["inputs"], "a cell of each of 19 kinds of value with unknown contents in each of three positions between ordinary rows, rows of one to five cells, five kinds of non-list entries, all CSV and XLSX configurations",
 SEQ, ["dsio/csv.go", "dsio/xlsx.go"], [("cell encoding", "encode, CSVWriter.WriteEntry, XLSXWriter.WriteEntry")], AI, AIN)

prop("C29", "Keyed documents never have an empty or repeated key",
 "A writer of an object document (JSON, plain or pretty, and CBOR) refuses with an error every entry whose key is empty or was already written, whatever came in between; a refused entry, or one whose value cannot be encoded, leaves no trace: neither in the document nor in the set of used keys. For list documents the key of an entry is ignored.",
 ["inputs", "histories"], "six sequences mixing empty, repeated and fresh unknown keys with every entry also failing to encode, and a used key offered after any number of entries",
 SEQ, ["dsio/json.go", "dsio/cbor.go"], [("key bookkeeping", "JSONWriter.WriteEntry, CBORWriter.WriteEntry")], AI, AIN)

prop("C30", "What is written is the one well-formed document of exactly the entries, in order",
 "For every format and configuration, making a writer, writing any number of entries and closing it leaves in the destination exactly one well-formed document holding those entries in the order written: a JSON array or object (indented or not; empty when there were no entries), one JSON value per line for NDJSON, one canonical CBOR list or map, CSV with the header row exactly when configured and the configured separator, one XLSX workbook with one row per entry on the configured sheet. Nothing is missing, repeated, reordered or left unflushed.",
 ["inputs", "histories", "configurations"], "zero to four entries with unknown keys and values directly, any larger number by induction over the writer's state; 15 format configurations",
 SEQ, ["dsio/json.go", "dsio/ndjson.go", "dsio/cbor.go", "dsio/csv.go", "dsio/xlsx.go", "dsio/dsio.go"], [("entry writers", "NewEntryWriter, WriteEntry and Close of all writers")], AI, AIN)

prop("C31", "Tabular readers give every cell, in order, decoded as its column says",
 "A CSV or XLSX reader delivers each record of the table as one entry holding one value per cell in order: the text itself for text columns and for text that is not of the column's type, the number, integer, boolean, list or object it spells otherwise, and null for every cell of a null column; the cells of a record wider than the schema are text. The header row is skipped exactly when the configuration says there is one, the parser is set up exactly as configured (separator, lazy quotes, variadic fields, sheet), failures are reported, the end of data is reported after the last record and stays reported, and no entry changes when later ones are read.",
 ["inputs", "histories", "configurations"], "records of zero to three unknown cells with every column type in every position, each cell well-formed or not; tables of zero to three records directly and of any length by induction; all CSV and XLSX configurations",
 "tests read a few fixed tables; a cell of one type in one position decoded wrongly, or an entry overwritten by a later read, shows only for the right table", ["dsio/csv.go", "dsio/xlsx.go"],
 [("cell decoding", "CSVReader.ReadEntry, XLSXReader.ReadEntry, decode, constructors")], AI, AIN)

prop("C32", "Consumers pass on every entry, in order, and report every failure",
 "Copying entries, reading all entries (as a list or by key, as the structure says), iterating over them with a callback, reading a page of them and converting a body to another structure each pass on exactly the entries of the source (of the page: entries offset to offset+limit-1), unchanged and in order, and succeed exactly when the end of the data was reached. A failure to read, write, open or close comes back as an error, never as success, and never as the end of data. The callback can end an iteration early, quietly with the end-of-data error or with any other error, which is returned.",
 ["inputs", "histories", "faults"], "sources of zero to five entries with unknown contents, and of any number by induction; a failure at every single operation; all pages with offset up to 3 and limit up to 4 over up to 6 entries; five output formats and pretty JSON",
 "tests consume short fixed bodies without failures", ["dsio/streams.go", "dsio/dsio.go", "dsio/entry.go", "dsviz/render.go"],
 [("entry consumers", "Copy, ReadAll, ReadAllArray, ReadAllObject, EachEntry, PagedReader, ConvertFile, readEntries")], AI, AIN)

prop("C48", "Table columns follow the schema, and other schemas are refused",
 "The columns extracted from a tabular schema (an array of arrays with a list of column schemas) are one per column schema, in order: title and description are the schema's when they are strings (otherwise col_N and nothing), the type is the named type or the named types of a list in order (string when no type is named), never shared between columns, and all other keys of the column schema, and only those, are its validation rules. A missing title, type or column schema is pointed out as a problem; a complete schema has no problems. Every other schema is refused with an error, which is an invalid-tabular-schema error unless the schema is for objects. Column titles are listed in order, and are valid for machines exactly when each is a variable name and no two are equal.",
 ["inputs"], "about 210 shapes of column schema, with unknown titles, types, descriptions, keys and values, in every position of tables of up to three columns; nine kinds of other schema; twelve patterns of equal and different titles, each valid or not",
 "tests cover a handful of schemas of one or two columns", ["tabular/tabular.go"],
 [("column extraction", "ColumnsFromJSONSchema, arrayWrapperColumns, Columns.Titles, Columns.ValidMachineTitles")], AI, AIN)

prop("C21", "A failure to write is always reported",
 "Whenever an operation on the destination of an entry writer, or on the compressor in between, fails, some call up to and including Close returns an error: the constructor, the call that writes an entry, or Close itself. No format, configuration or position of the failure lets a truncated document pass for a finished one.",
 ["inputs", "histories", "faults", "configurations"], "a failure at every single operation of every writer in every configuration, plain, gzip and zstandard, for zero to four entries with unknown contents, and after any number of entries",
 "the tests write to memory buffers that never fail", ["dsio/json.go", "dsio/ndjson.go", "dsio/cbor.go", "dsio/csv.go", "dsio/xlsx.go", "compression/compression.go"],
 [("entry writers", "NewEntryWriter, WriteEntry and Close of all writers")], AI, AIN)

prop("C22", "The end of the data is reported exactly when the document ended",
 "Reading entries reports io.EOF exactly when the document's own end was read (the closing bracket of JSON, the break or the last declared entry of CBOR, the end of the source between lines of NDJSON), and on every later read. A JSON or CBOR body that is empty, of the wrong outermost kind, cut short or whose source fails gives an error other than io.EOF, also inside nested values; a failing source is an error in NDJSON as well. Nothing but a number or a null is ever delivered from a place where a JSON document was cut, and nothing at all where a CBOR document was. Between JSON entries only a comma or the closing bracket is accepted. Each NDJSON line, the last one with or without its newline, is one entry, decoded and numbered in order, and one that cannot be decoded is an error. Two leniencies stand: a comma followed by no value gives a null, and the entries after a CBOR header that declares zero of them are read until the data ends.",
 ["inputs", "histories", "faults"], "the first bytes of a document and the bytes after any number of entries in all 256 values, followed by any bytes, the end or a failure of the source; nested values of any content and depth (whitespace inside nested values: one space byte), declared lengths in every spelling",
 "the tests read a few complete documents and a handful of broken ones", ["dsio/json.go", "dsio/ndjson.go", "dsio/cbor.go"],
 [("entry readers", "ReadEntry of the JSON, NDJSON and CBOR readers and everything they call")],
 AI, AIN + "; the source is abstract: known bytes arrive in one piece, and recursive calls are answered by summaries iterated to a fixpoint")

PT = "static analysis: inclusion-based, field-sensitive, context-cloning points-to and effect analysis of the SSA form, with retention rules"
PTN = "decided from the SSA of the current source for all inputs, with no execution; over-approximates aliasing, library calls are summarised by hand-written effect models (unlisted ones are taken not to write); concurrency is not considered"

prop("C10", "Operations never modify, or keep hold of, what they are given",
 "Reading, encoding, comparing, hashing, signing, listing, diffing, validating, detecting and writing never modify the documents, entry values, schemas, configuration maps, byte slices or package tables they are given; opening a script or body changes nothing but the file handle. Merging changes only the target, and what the target takes from a source is never later modified in place through the target. Decoded documents keep no reference to the bytes they were decoded from, an entry once returned by a reader is not changed by later reads, and results never share a modifiable map or list with package-level tables or with another result.",
 ["inputs", "histories"], "every exported function and method of the eleven library packages that is not itself a setter, for all arguments and all aliasing between them",
 "a test compares results, not the inputs afterwards, and sharing only shows through a later modification",
 ["dataset.go", "meta.go", "structure.go", "transform.go", "dsio", "detect", "dsdiff", "dsstats", "dsviz", "preview", "tabular", "validate", "vals"],
 [("effects of operations", "all exported functions that are not setters")], PT, PTN)

prop("C11", "The same input always gives the same result",
 "Carrying out the same operation twice on equal inputs gives equal results: encodings (CBOR objects included), signing and hash bytes, path listings, detected and tabular columns with their reported problems, statistics, diffs and their texts, validation results and written bodies never depend on the order in which a map happens to be iterated, on the clock, on randomness, on the environment or on scheduling. Which of several reasons a failing operation names may vary. Exceptions: random generation, key listings of map values, rendered templates, and the file layout chosen by the spreadsheet library.",
 ["inputs", "schedules"], "the call closure of every exported function and method of the eleven library packages that is not itself a setter, random by purpose or an unordered listing",
 "a test run sees one or two iteration orders; a dependence on order shows only now and then", 
 ["dataset.go", "meta.go", "dsio/cbor.go", "detect/determineFields.go", "dsdiff/dsdiff.go", "dsstats/stats.go", "tabular/tabular.go", "vals", "validate"],
 [("determinism of operations", "all exported functions that are not setters, and everything they call")],
 "static analysis: order-sensitivity analysis of every map iteration (SSA control and data dependence), and a call-closure check for sources of nondeterminism",
 "decided from the SSA of the current source with no execution; library functions are taken to be deterministic except for the listed sources; control dependence is computed within the loop body, aliasing between different keys of one map is not considered")

prop("C12", "Checksums cover exactly the content",
 "The checksum of bytes is the base58 form of the SHA-256 multihash of exactly those bytes, the checksum of a document is the checksum of exactly its JSON encoding, and the checksum of a structure covers everything its encoding holds. When encoding or hashing fails the failure is returned. The legacy signable bytes are the commit timestamp (UTC, RFC 3339), a newline and the structure's checksum, and are refused without a commit or a structure.",
 ["inputs", "faults"], "arbitrary bytes and documents; structures with arbitrary, only location, and no contents; a failure of every step; commit and structure present or not",
 "tests compare a few fixed hashes", ["hash.go", "structure.go", "dataset.go"],
 [("checksums", "HashBytes, JSONHash, Structure.Hash, Dataset.SignableBytes")], AI,
 AIN + "; SHA-256, multihash and base58 are uninterpreted functions")

prop("C14", "Documents are recovered faithfully from untyped values",
 "Extracting a dataset, commit, structure, transform, readme or viz from an untyped value gives back the very document when it is a pointer to one, an equal copy when it is one, and the decoded document when it is bytes (every published key in its own field, a string as a reference); bytes that cannot be decoded and values of any other type, or none, are refused with an error.",
 ["inputs"], "six document types; every published key present or absent in turn, the rest unknown; all field values of document values; ten kinds of other values",
 "the functions are near-copies and tested with one or two documents each", ["dataset.go", "commit.go", "structure.go", "transform.go", "readme.go", "viz.go"],
 [("extraction", "UnmarshalDataset, UnmarshalCommit, UnmarshalStructure, UnmarshalTransform, UnmarshalReadme, UnmarshalViz")], AI, AIN)

prop("C25", "JSON bodies are decoded to what the text says",
 "The value of every entry of a JSON body is what its text says: null, true and false, whole numbers as the int64 they denote in base ten, numbers with a fraction or exponent as the nearest float64, strings with every byte, every escape, every escaped code point and every escaped surrogate pair decoded, lists and objects of any of these with all their members in order and under their decoded keys, with or without whitespace between tokens. Exactly the bytes of the value are consumed, so that the entries after it are read as well. Misspelled literals, malformed numbers, whole numbers beyond int64, missing or wrong separators, keys that are no strings and containers closed with the wrong bracket are errors. Leniencies that stand: an unknown escape gives the bare character, \\xHH gives a byte, half a surrogate pair gives a question mark, and a missing value gives null.",
 ["inputs"], "items by kind and boundary (literals, numbers at the ends of their range, strings of every byte, every escape, code points of every length of encoding, nesting to three levels, all 256 bytes in the place of a separator, four kinds of whitespace), as the first and as a later entry, of lists and of objects, followed by any bytes",
 "the tests read a few documents; the decoder is hand-written and has a case for every byte", ["dsio/json.go"],
 [("JSON reader", "JSONReader.ReadEntry and everything it calls")],
 AI, AIN + "; constants are folded through the code and through pure library functions of constants; the source's known bytes arrive in one piece")

prop("C26", "CBOR bodies are decoded to what the items say",
 "The value of every entry of a CBOR body is what its item says, in every encoding the standard allows: unsigned and negative integers of all five sizes as int64, half, single and double floats as float64 with their exact value, byte strings as bytes, text as strings, false, true, null and undefined, lists and maps with definite and indefinite length and all their members in order and under their keys, strings in pieces joined, tags dropped in favour of their value. Exactly the bytes of the item are consumed. Integers beyond int64, reserved heads, keys that are no text and breaks outside of indefinite items are errors.",
 ["inputs"], "all 256 initial bytes, each size of integer at its boundaries, floats of each size including subnormals, zeros and infinities, strings, lists and maps in definite and indefinite form nested to three levels; as the first and as a later entry, of lists and of maps, followed by any bytes",
 "the tests decode a few documents that the writer wrote itself, which uses a fraction of the encodings", ["dsio/cbor.go"],
 [("CBOR reader", "CBORReader.ReadEntry and everything it calls")],
 AI, AIN + "; constants are folded through the code and through pure library functions of constants; the source's known bytes arrive in one piece")

prop("C40", "Statistics describe the columns of a body",
 "The statistics of a body have one item per column (one for a body of plain values, one per position of the rows for lists, one per key in the order of the keys for objects), of the type of the first value seen in the column, and count exactly the values of that type: numbers of every Go type with count, least, greatest and mean; texts with count, shortest and longest length in bytes, the number of distinct ones and the frequency of each, long ones shortened but never merged; booleans with the counts of both; nulls; nested lists and objects recursively. Rows of different lengths, objects with different keys and values of other types never disturb other columns. Every value is put exactly once into the sketches of its column, and median, histogram, distinct count and frequencies are read from that column's sketches after the last value. A failure to open or read the body, and a dataset without a body or structure, give an error and no statistics. Members of nested objects called type or key are outside the statement; how exact a sketch is, too.",
 ["inputs", "faults"], "sequences of up to nine entries: all triples of six numbers across the range of float64 and all mixtures of number types, texts empty, multi-byte and around the length at which they are shortened, all mixtures of two out of eleven kinds of value plain, in lists and in objects, all triples of six shapes of rows and of six objects, nesting of those to two levels; a failure at every entry",
 "the tests hold a handful of fixed bodies; accumulators are stateful and what they report depends on the whole sequence", ["dsstats/stats.go"],
 [("statistics", "Calculate, CalculateFromEntryReader, Accumulator, ToMap and the accumulators of every type")],
 AI, AIN + "; constants are folded through the code; the sketch libraries, dsstats/histosketch included, are opaque containers that depend on what was put in; maps are walked in descending order of their keys")

prop("C45", "Validation covers the whole body",
 "Validating a body hands every entry, exactly once, in order and with its key, to the body's own schema, as complete JSON documents that hold the entries up to a fixed number each, and returns the complaints about all of them, in order; the end of the body is reached before a result is given. A failure to obtain the schema, to read, write or parse any entry is returned as an error and never as a body without complaints. A CSV file is accepted exactly when it can be read to its end, has a row, and all its rows have as many cells as the first. A body without entries is not validated; keywords about a whole array (maxItems, uniqueItems) apply to each document.",
 ["inputs", "faults"], "bodies of up to sixteen entries with the number of entries per document scaled down to three, every operation failing in turn for bodies of up to seven; all CSV files of up to four rows of one to three cells, ending or failing after any row",
 "the tests validate bodies far smaller than one document; losing the last, the first or all but one document shows only beyond 5000 entries, and failures between documents are not tested at all", ["validate/data.go", "validate/csv.go"],
 [("validation", "EntryReader, flushBatch"), ("row lengths", "CheckCsvRowLengths")],
 AI, AIN + "; buffers, the JSON parser and the schema validator are containers with a log of the entries that went through them; integer constants of 1000 and more are scaled down to 3")

prop("C34", "Readers around byte streams pass everything on",
 "The reader that completes carriage returns gives, for any input, whatever the sizes of the buffers it is read with and however its source delivers, exactly the input with one line feed after every carriage return that has none (also at the end of the data), then the end or failure of its source, and the same again on every further read; a read gives no more than fits and, where there is room, at least a byte or the end or failure. The counting reader gives exactly what each read of its source gave, bytes, end and failure, counts all bytes given, also those that came with the end or a failure, and closes its source if that can be closed, reporting a failure.",
 ["inputs", "histories", "faults"], "all inputs of up to four bytes out of a letter, CR and LF, ending or failing, read with ten patterns of buffer sizes; all sequences of two answers of a source of the counting reader",
 "the one test reads once into a buffer of exactly the right size; what is lost at the end of a buffer shows only with the right length of the data before it", ["dsio/replacecr/replace_cr.go", "dsio/tracked_reader.go"],
 [("line ends", "replacecr.Reader, ReaderWithSize and Read of what they return"), ("counting", "TrackedReader")],
 AI, AIN + "; buffered readers are modelled by the bytes left in their source; several reads are folded one after the other on the same reader")

prop("C33", "Types, texts and values of package vals agree",
 "The type of a text is boolean for true and false and their abbreviations, null for null, integer for whole numbers of any size, number for other decimal numbers a 64-bit float can hold, array or object by the first bracket, and string otherwise; names of types are the same in both directions and unknown names are errors; a text parses as a type to its value or an error, and the text of a parsed scalar is the text it had, in canonical form; two texts of a type compare as their values do, absent ones first; decoded Go data and JSON text, with or without white space around it, become the value with the same content at every level, nulls included, or an error, and never another number; values of different types are not equal and scalars are equal exactly when their contents are.",
 ["inputs"], "all texts of up to three characters out of thirteen and some 170 longer ones, every type of decoded integer at its limits, nested lists and objects of decoded data and of JSON text",
 "tests parse a dozen texts; the limits of the integer types, nulls inside objects and numbers beyond a 32-bit float are among those they leave out", ["vals/type.go", "vals/coding.go", "vals/compare.go", "vals/value.go"],
 [("types of texts", "vals.ParseType"), ("values of texts", "Type.Parse, ValueToString, ValueToBytes"), ("decoded data", "ConvertDecoded, UnmarshalJSON"), ("comparison", "CompareTypeBytes, Equal"), ("names", "TypeFromString, String, MarshalJSON, UnmarshalJSON")],
 AI, AIN + "; number and JSON parsers of the standard library answer with what they do on constants; texts starting with a point, a plus or white space before anything but a bracket are left open, equality of lists and objects is left to reflect.DeepEqual")

prop("C35", "Detection infers the outermost type and the columns of a body",
 "The schema detected for JSON and CBOR has the type of the outermost value, decided by the first significant byte however the source delivers it, and anything else is an error, as is a source that fails; the schema of CSV has one column for each cell of the first row, that row is a header exactly when no cell is empty, a number or a truth value, titles are made from the header, or numbered, and the type of a column is the most frequent one among its cells in rows of the right length, the narrower one when several are, none without cells; the options found are what the rows show (header, lines of different lengths, lazy quotes), rows are read with them and with repaired line ends, and a failed read is an error; the schema of a compressed body is that of its data; tabular data has a column for each cell of its first row, with the type of the cell, and data of another shape is an error.",
 ["inputs"], "JSON texts of up to three characters out of nine and every other first byte, delivered six ways, with and without a failing source; every first byte of CBOR; tables of up to five rows over five kinds of cells, and 22 kinds of headers; all formats and codecs of FromReader; every kind of Go value as a cell",
 "tests detect a handful of files; ties between types, headers with blanks, sources that deliver single bytes and compressed bodies (which were broken) are among what they leave out", ["detect/determineFields.go", "detect/json.go", "detect/cbor.go", "detect/detect.go"],
 [("JSON, CBOR", "JSONSchema, CBORSchema"), ("CSV", "CSVSchema, possibleCsvHeaderRow, getKeys"), ("compressed bodies", "FromReader"), ("tabular data", "TabularSchemaFromTabularData")],
 AI, AIN + "; the row reader of encoding/csv is a model that gives known rows, the type of a cell is C33's, titles made from a header are those of the varName library; CBOR heads with no meaning (0x9c-0x9e, 0xbc-0xbe) are left open; the limit of 2000 rows is not examined")

prop("C44", "Diffs compare each component with its counterpart, and summaries say what they found",
 "Comparing two versions of a dataset compares structure, metadata, transform and viz each with its counterpart, the old side first, and files the result under the component's name; a component missing on one side is compared as an empty one, one that neither side has is left out, and so are versions of metadata, transform or viz at the same path; where the script of a transform is makes no difference when both have one and counts otherwise; body data is compared when it is given; failures to encode or compare are errors, and what is compared stays as it is. A summary states the number of changes, the changes, or the formatted diff as asked, with colors only when asked, and nothing for a diff without changes or one that compared nothing; the summary of several diffs is the first in order of priority that has one, and failures to format are errors.",
 ["inputs", "histories"], "each component present or not on either side, at no, the same or another path, with no, the same or another script; 1250 combinations of components; every encoding and comparison may fail; summaries of up to three changes in every form; all 3125 combinations of five diffs that are absent, nil, unmodified, modified or failing",
 "tests compare some documents and summarize a few diffs; components on one side only, scripts removed, failures and diffs that compared nothing (whose summary crashed) are among what they leave out", ["dsdiff/dsdiff.go"],
 [("comparison", "DiffDatasets, DiffStructure, DiffMeta, DiffTransform, DiffViz, DiffJSON"), ("summaries", "SummarizeToString, MapDiffsToString, MarshalJSON")],
 AI, AIN + "; encodings of components (C02) and the diff library are terms over what they are given, the library's formatters give a fixed text; DiffData, which compares nothing yet, is only required to add nothing")

prop("C24", "No input makes the library panic",
 "Whatever bytes a JSON, CBOR, NDJSON, CSV or XLSX body holds, however it is cut short and however wide its rows are, whatever schema, column types or format options its structure has, and whatever values are written, decoded, converted, parsed, detected, compared or counted, the library answers with a result or an error and never panics; nesting of JSON and CBOR values is limited (with an error beyond the limit), and values that are next to each other rather than nested do not count towards the limit.",
 ["inputs"], "every abstract execution of the checks of readers, writers, detection, decoding, options, validation, statistics and diffs, plus every item of the JSON and CBOR tables cut at every byte, every pair of container kinds nested deeper than the limit, and kinds of every length",
 "a panic needs the one input whose length, type or shape a check forgot; tests hold none of them, and several such inputs crashed this code", ["dsio/json.go", "dsio/cbor.go", "dsio/csv.go", "dsio/xlsx.go", "tabular/tabular.go", "vals/coding.go", "vals/type.go", "detect/json.go", "detect/determineFields.go", "kind.go"],
 [("readers", "ReadEntry of each reader, decode, readValue"), ("table schemas", "tabular.ColumnsFromJSONSchema"), ("values", "vals.ConvertDecoded, vals.ParseType"), ("kinds", "Kind.Type, Kind.Version")],
 AI, AIN + "; an instruction counts as panicking when it has no outcome on the abstract values of an execution (index or slice out of range, failed type assertion, nil dereference, entry of a nil map, negative length, panic), so an index whose bound stays symbolic is not decided; panics inside dependencies are not examined")

prop("C36", "Step files hold the scripts of a transform, all of each",
 "Reading a step file gives one step for each text between lines of three dashes, in order and unchanged to the byte, and nothing else, whatever other dashes, blanks and line ends the texts hold; writing steps whose scripts are texts, bytes or readers gives those scripts with such a line between any two, also around empty ones; scripts of another kind, sources that fail or cannot be opened and writers that fail are errors, nothing is written after one, and sources that can be closed are closed after they were read.",
 ["inputs", "faults"], "every text of up to four parts out of eight (separators, near-separators, blanks, text), every list of up to three scripts of nine kinds, each write, read and opening failing in turn",
 "the tests read and write one file; blank scripts, near-separators, readers that fail and files left open are among what they leave out", ["stepfile/stepfile.go"],
 [("reading", "stepfile.Read, ReadFile"), ("writing", "stepfile.Write, writeStepScript")],
 AI, AIN + "; a script that itself holds a separator is written as it is and is read as two steps, which the format implies")

prop("C37", "Test comparisons of documents find every difference and change nothing",
 "Comparing two datasets, commits, metadata or structures with the helpers of dstest compares all fields of the first with all fields of the second, strictly, except that unexported fields are left out and, when asked, transient fields are left out of both; a missing document is compared as an empty one, the result is empty exactly when nothing differs, and neither document is changed.",
 ["inputs"], "all documents, each side present or missing, with no, one or two options",
 "the tests of the helpers compare one pair of documents; a comparison of a document with itself, or one that leaves fields of a side in, passes them and hides regressions in every user of the helpers", ["dstest/compare.go"],
 [("comparisons", "CompareDatasets, CompareCommits, CompareMetas, CompareStructures")],
 AI, AIN + "; Assign (C01) and DropTransientValues (C06) are what their properties say, go-cmp decides equality of what it is given")

prop("C38", "Generated rows and values are of the type asked for",
 "A generated value is of the type that was asked for, any type when the type is unknown or none; texts are of letters and digits and no longer than configured (empty when no length is allowed), integers are not negative, and every kind of value, both truth values and every letter and digit can occur; a generated row has one cell for each column of the schema, of a type of the column, or of random types when asked, and rows are counted from 0; the options for seed, length and random types take effect in any order, the random numbers are reproducible exactly when a seed is assigned, and a schema that is not tabular is an error.",
 ["inputs", "histories"], "22 patterns of answers of the random number generator and every first answer up to 63, all types, five lengths; nine schemas with seven lists of options, three rows each",
 "the test generates three texts from one seed; truth values that were always true, an option without effect and a crash without a length all passed it", ["generate/value.go", "generate/tabular.go"],
 [("values", "ValueGenerator.Type, Value, String, Int, Float, Bool"), ("rows", "NewTabularGenerator, TabularGenerator.ReadEntry, Structure, Close"), ("options", "AssignSeed, AssignMaxLen, AssignUseRandomType")],
 AI, AIN + "; the random number generator is a model that answers each range from its ends and its inside, so distributions are not examined")

prop("C41", "Histogram sketches count exactly",
 "Whatever values are added to a sketch, one or many at a time, the count and the extremes are exact, the bins are in order and at most as many as configured, their frequencies are positive, add up to the count, and weighted with the bins to the sum of all values; as long as there are no more different values than bins, the frequency of each value and the number of values up to any point are exact; the number of values up to a point outside the range is none or all, and quantiles and the median lie between the extremes and do not decrease. All this holds as well after sketches were merged, for a sketch made from a sample, and after a sketch was encoded and decoded, also into a sketch that was in use, which gives the same bins and frequencies.",
 ["inputs", "histories"], "all sequences of up to three additions of five values, those of four that start with one of them, and longer ones up to eleven, in sketches of one to eight bins, merged with four others, encoded and decoded; samples decomposed into one to twelve bins",
 "tests check quantiles of random data with tolerances; frequencies that came out negative, extremes lost in a merge and wrong counts after decoding all passed them", ["dsstats/histosketch/histosketch.go"],
 [("additions", "Add, AddMany, centroid.Merge"), ("merging", "Sketch.Merge"), ("reading", "Count, Min, Max, Sum, Read"), ("encoding", "MarshalBinary, UnmarshalBinary"), ("samples", "NewFromSample")],
 AI, AIN + "; slices are modelled with their arrays and capacities, floating point constants are folded with IEEE rounding; how good estimates inside merged bins are is not decided, see C52")

# ---- not applicable --------------------------------------------------------------------------

def na(id, title, statement, why, files, reason):
    prop(id, title, statement, ["inputs"], "all inputs", why, files, [(title.lower(), ", ".join(files))], na=reason)

na("C50", "Bodies survive a round trip through every pair of formats",
 "Reading what a writer wrote, in any format, gives back entries equal to those written, as far as the format can carry them.",
 "tests convert a few fixed bodies",
 ["dsio"], "equality of decoded and original values depends on the values of floating point numbers and texts passing through two library codecs; no static argument in reach bounds it. The two halves are decided apart: what is written (C27, C30, C29) and what is read (C25, C26, C31).")
na("C51", "Inferred schemas describe the data they were inferred from",
 "Every entry of a body conforms to the schema that detection inferred for it.",
 "tests infer a few schemas", ["detect/determineFields.go", "detect/xlsx.go"],
 "the inferred column type is a majority vote over the first 2000 rows, so the statement is about frequencies of run-time data, and does not hold for later rows by design.")
na("C52", "Approximate statistics stay within their error bounds",
 "Histograms, distinct counts and most frequent values reported for a column are within the error the sketches promise.",
 "tests use short columns", ["dsstats/stats.go", "dsstats/histosketch/histosketch.go"],
 "the quality of a sketch is a numeric and probabilistic statement about run-time data; static analysis cannot bound it.")
na("C53", "The size of read buffers never shows",
 "A reader gives the same entries however its source cuts the data into pieces, and however long values are compared to its buffers.",
 "tests read from memory in one piece", ["dsio/json.go", "dsio/cbor.go", "dsio/replacecr/replacecr.go"],
 "needs a relation between runs over the same data under different partitions of it; the byte sources here deliver known bytes in one piece, and lengths beyond a buffer (4096 bytes) are not tracked.")
