H="unreal_helpers/src/"; PK="unreal_pak/src/"; B="unreal_asset/unreal_asset_base/src/"; A="unreal_asset/src/"
PR="unreal_asset/unreal_asset_properties/src/"; EX="unreal_asset/unreal_asset_exports/src/"; K="unreal_asset/unreal_asset_kismet/src/"; R="unreal_asset/unreal_asset_registry/src/"

p("P01","Unreal strings survive a write/read round trip",
  "Any string (or absent string) of at most 131072 characters that contains no NUL character and is written in the Unreal string encoding reads back as exactly the same string, consuming exactly the bytes that were written, and the size the writer reports equals the number of bytes it produced. ASCII strings use one byte per character plus a terminator, all others UTF-16 code units with a negative length, and the absent string is a bare zero length, distinct from the empty string.",
  ["inputs"],"every string up to the size bound, narrow and wide, and every combination of code points in it",
  "Only a handful of fixed strings are sampled; narrow/wide selection, terminators and reported sizes depend on content.",
  [H+"read_ext.rs",H+"write_ext.rs"],[("read_fstring / read_fstring_len",H+"read_ext.rs"),("write_fstring",H+"write_ext.rs")])
p("P02","Malformed string, bool and array encodings are rejected, never a crash",
  "Reading a string, boolean, identifier or length-prefixed array from arbitrary bytes returns either a value or an error: it never panics, never wraps a length, and never returns a string when the declared length exceeds the data, the terminator is missing or the text is invalid.",
  ["inputs"],"every byte sequence up to the size bound, including every 32-bit length value",
  "Malformed inputs are an unbounded set; tests only read well-formed data.",
  [H+"read_ext.rs"],[("length limits and terminator check",H+"read_ext.rs")])
p("P03","Identifier (GUID) conversions are mutually consistent",
  "All views of a GUID - four 32-bit words, sixteen bytes, one 128-bit number, its printed form and its binary encoding - convert into each other without loss and agree with each other, and parsing the printed form yields the same GUID. Parsing any other text yields an error or a GUID, never a crash.",
  ["inputs"],"every 128-bit GUID and every candidate text up to the size bound",
  "2^128 GUIDs; tests convert a few.",
  [H+"guid.rs"],[("Guid conversions, Display, FromStr",H+"guid.rs")])
p("P04","Pak archives return exactly the files that were put in",
  "For every supported writable pak version, an archive written from a set of named entries lists exactly those names and returns for each exactly the bytes that were written, compressed or not, whatever the entry order, sizes and mount point; writing a name a second time is refused and keeps the first content. Reading an entry that was not written fails with an error.",
  ["inputs","configurations","histories"],"entry names, contents, sizes, order, mount point, pak version, compression on/off and block size",
  "Tests round-trip one directory at one or two versions; offsets, per-version header layouts and multi-block splits interact.",
  [PK+"pakwriter.rs",PK+"pakreader.rs",PK+"index.rs",PK+"header.rs",PK+"entry.rs",PK+"compression.rs"],
  [("write_entry/finish_write",PK+"pakwriter.rs"),("load_index/read_entry",PK+"pakreader.rs"),("Header read/write",PK+"header.rs"),("Footer/Index",PK+"index.rs")])
p("P05","Pak files on disk follow the format layout",
  "Every pak the library writes has the documented physical layout for its version: each stored record carries a header with the right offset, sizes, flags and content hash followed by its data; the index gives the mount point, count and the same headers at their true positions; and the trailer gives the magic, version, index position, index size and index hash. Any pak built independently to that layout is read back with the same names and contents.",
  ["inputs","configurations"],"entry names and contents, versions, and every field value of an independently encoded archive",
  "Round-trip tests cannot see a reader and writer that agree on a wrong layout; the layout must hold for every version and content.",
  [PK+"index.rs",PK+"header.rs",PK+"entry.rs",PK+"pakversion.rs"],[("Footer/Index read+write",PK+"index.rs"),("Header read+write",PK+"header.rs")])
p("P06","Corrupt pak files give errors, not crashes",
  "Opening, listing and reading entries of a pak whose trailer, index or record headers contain arbitrary values either succeeds or returns an error; it never panics, overflows or loops without bound.",
  ["inputs"],"every value of every field in trailer, index and record headers, and truncations",
  "The set of corrupt files is unbounded; tests read valid files only.",
  [PK+"index.rs",PK+"header.rs",PK+"entry.rs",PK+"compression.rs"],[("error returns in readers",PK+"index.rs")])
p("P07","In-memory pak editing behaves like a map of files",
  "An in-memory pak behaves as a map from names to contents under any sequence of setting, reading and listing entries, and writing it out and loading it again preserves exactly that map.",
  ["histories","inputs"],"operation sequences up to the bound with arbitrary contents",
  "Histories of set/save/load are not sampled by tests beyond one fixed sequence.",
  [PK+"pakmemory.rs"],[("set_entry/write/load",PK+"pakmemory.rs")])
p("P08","Split asset streams read as one contiguous file",
  "Reading an asset split in two streams behaves exactly as reading the concatenation of the two, for any history of reads and seeks from start, end or current position, including ones that cross the boundary repeatedly; seeks before the start fail and leave the stream usable.",
  ["histories","inputs"],"all read/seek histories up to the bound, all split points and contents",
  "The behaviour depends on the history of seeks over the boundary; tests only read forward.",
  [B+"containers/chain.rs"],[("Chain Read/Seek",B+"containers/chain.rs")],state=[("position","logical position over both streams",B+"containers/chain.rs")])
p("P09","The insertion-ordered map keeps keys, values and order consistent",
  "Under any sequence of insertions, removals (by key, by position), entry updates, lookups and iterations, the ordered map agrees with a simple insertion-ordered association list: every lookup by key or by position gives the current value, iteration, from either end, visits every live entry once in insertion order and announces exactly how many entries remain, and the map's length is the number of live keys. A new key's position follows the last live one, and the position of a live entry never changes. Two maps compare equal only if they hold the same entries.",
  ["histories","inputs"],"operation histories up to the bound over a small key set with arbitrary values",
  "Bugs show only after particular remove/insert sequences; tests use short fixed ones.",
  [B+"containers/indexed_map/mod.rs",B+"containers/indexed_map/entry.rs"],[("insert/remove/iterators","%scontainers/indexed_map/mod.rs"%B)],
  state=[("store/key_map/index_map/index_iter_map","four views of one association list",B+"containers/indexed_map/mod.rs")])
p("P10","Interned names resolve to the text they were created from",
  "A name added to a name table resolves to the same text for as long as the table lives, whatever else is added; adding the same text again without forcing a duplicate returns the same index, searching finds an index exactly when the text is present, two names compare equal by content exactly when their text is the same, and names taken from one table without duplicates are equal exactly when text and instance number agree. Writing a name and reading it with the same table gives an equal name, and an out-of-range name index is an error. A table built from a list of names resolves every position to the name at that position of the list.",
  ["histories","inputs"],"sequences of additions and searches, with and without forced duplicates, name numbers and index values",
  "Depends on the history of insertions; tests add a few names once.",
  [B+"containers/name_map.rs",B+"types/fname.rs",B+"reader/archive_reader.rs",B+"reader/archive_writer.rs"],[("add_name_reference/search_name_reference/create_fname",B+"containers/name_map.rs"),("read_fname/write_fname",B+"reader/archive_reader.rs")])
p("P11","Object references address exactly one import, export or nothing",
  "A package object reference is zero, an import or an export, never two of these; converting a table position into a reference and looking the reference up yields the same entry, adding an import returns a reference that resolves to it, and looking up any reference outside the tables yields nothing rather than a crash or a different entry.",
  ["inputs"],"every 32-bit reference value and every table size up to the bound",
  "Boundary values (one past the end, most negative) are not sampled.",
  [B+"types/mod.rs",A+"asset.rs",A+"asset_data.rs",A+"asset_archive_writer.rs"],[("PackageIndex predicates",B+"types/mod.rs"),("get_import/get_export/add_import/find_import",A+"asset.rs")])
p("P12","Ace Combat 7 asset encryption is a reversible keyed transform",
  "Decrypting what was encrypted with the same key yields the original asset and data, encrypting what was decrypted yields the original ciphertext, the magic alone tells encrypted from plain, and key positions stay within the key table for every asset name. The key derived from a name and the transform are those of the game's assets, so a file encrypted elsewhere decrypts here. Input shorter than the magic never causes a crash.",
  ["inputs"],"every content up to the size bound, every key state reachable from any asset name",
  "Tests decrypt one asset.",
  [A+"ac7.rs"],[("encrypt/decrypt, get_xor_byte, AC7XorKey",A+"ac7.rs")])
p("P13","Name hashes equal Unreal's published algorithms",
  "The 32-bit hash written next to each name combines the reference case-insensitive checksum (low half) and case-sensitive CRC-32 (high half) of the name for every name, and the 64-bit batch hash equals the CityHash64 (as the library's hash dependency computes it) of the UTF-16 text with ASCII letters lower-cased; names differing only in the case of ASCII letters agree in their case-insensitive parts.",
  ["inputs"],"every name up to the size bound, ASCII and wide",
  "Any single wrong table entry or character class shows up only for particular characters.",
  [B+"crc.rs"],[("generate_hash/cityhash64_to_lower/to_lower/to_upper",B+"crc.rs")])
p("P14","Engine, object and custom version tables are consistent",
  "Each engine version maps to one object version, the published package version of that engine; later engines never map to earlier object versions, guessing the engine from the versions of an engine gives back an engine with those same versions, and with the same default custom versions when those are given, and converting version numbers to and from their integer form is lossless, with unknown integers rejected. The default custom versions for an engine never decrease with newer engines and every custom version keeps its identity and number when stored and read.",
  ["inputs","configurations"],"every engine version, every 32-bit version number, every custom version kind",
  "Tables are large and order-sensitive; tests touch one or two entries.",
  [B+"engine_version.rs",B+"object_version.rs",B+"custom_version.rs"],[("get_object_versions/guess_engine_version",B+"engine_version.rs"),("CustomVersionTrait tables",B+"custom_version.rs")])
p("P15","Simple property values survive parse and write unchanged",
  "Every tagged scalar, string, name, object reference, vector, colour, time, identifier or other fixed-layout property value in its canonical encoding (booleans stored as 0 or 1) parses and is written back as the identical bytes, consuming exactly the bytes it was written with, with every field decoded from its place in the layout and the declared size equal to the size of the value written. This holds for every value, for every engine version band that changes the layout, and with or without a property identifier. Counts and lengths that do not fit the data give errors, not crashes.",
  ["inputs","configurations"],"every payload value of each property kind and each layout-relevant engine version",
  "Tests compare a few real assets; most property kinds, versions and bit patterns (NaN, negative, flags) never occur in them.",
  [PR+"lib.rs",PR+"int_property.rs",PR+"str_property.rs",PR+"object_property.rs",PR+"vector_property.rs",PR+"color_property.rs",PR+"date_property.rs",PR+"enum_property.rs",PR+"soft_path_property.rs"],[("Property::new / Property::write",PR+"lib.rs")])
p("P16","Container properties survive parse and write unchanged",
  "Arrays, sets, maps, structs and nested combinations of them in canonical encoding parse with the same element order, keys, identifiers and types and are written back as the identical bytes with correct element counts and sizes; counts that do not fit the data give errors, not crashes.",
  ["inputs","configurations"],"element counts up to the bound, element values, element types, struct kinds",
  "Tests reach only the shapes of a few assets.",
  [PR+"array_property.rs",PR+"map_property.rs",PR+"set_property.rs",PR+"struct_property.rs"],[("ArrayProperty/MapProperty/SetProperty/StructProperty",PR+"array_property.rs")])
p("P17","Blueprint bytecode survives parse and write unchanged",
  "Every blueprint bytecode expression that parses (with element counts that are right: elements of arrays and sets, key and value pairs of maps) has the operands that were stored and is written back as the identical bytes; the reported size is the size of the expression in memory, which jump offsets count in: the bytes written, with object and property references taking 8 bytes and names 12; unknown instruction codes, operands outside their enumeration, negative lengths and truncated input are rejected.",
  ["inputs"],"every instruction kind with every operand value, nested up to the bound",
  "Tests cover the instructions that occur in a few assets.",
  [K+"lib.rs"],[("KismetExpression read/write","%slib.rs"%K)])
p("P18","Asset packages survive parse and write unchanged",
  "Parsing a package in canonical section order, made of the sections the library supports, and writing it back without edits reproduces the input, single-file or split, for each supported engine version band; every offset, count and size in the written summary matches where the data really is, and parsing yields the summary, names, imports, exports, dependencies and export contents that are stored. Added imports appear in the written tables.",
  ["inputs","configurations"],"summary field values, names, imports, exports and payload bytes within the bound, per engine version band",
  "Tests check some assets for a few engine versions; the summary is version dependent and most fields are constant in those assets.",
  [A+"asset.rs",A+"asset_data.rs",A+"fengineversion.rs"],[("parse_header/parse_data/write_header/write_data",A+"asset.rs")])
p("P19","Corrupt asset packages give errors, not crashes",
  "Opening a package whose summary or tables contain arbitrary values either succeeds or returns an error; it never panics, overflows or indexes outside a table.",
  ["inputs"],"every value of each summary and table field within the bound, and truncations",
  "Unbounded set of corrupt files.",
  [A+"asset.rs",B+"reader/archive_reader.rs"],[("error returns in parse_header/parse_data",A+"asset.rs")])
p("P20","Typed exports survive parse and write unchanged",
  "A package with an export of any recognised kind (plain object, struct, class, function, enum, user struct, data table, string table, level, world, property) in canonical encoding gives that export with the stored contents and is written back as the identical bytes; an export that can't be understood is kept as raw bytes, lossless as well, rather than failing or crashing.",
  ["inputs","configurations"],"field values and element counts within the bound, engine version bands",
  "Tests contain one or two instances of a few kinds.",
  [EX+"lib.rs",EX+"enum_export.rs",EX+"string_table_export.rs",EX+"data_table_export.rs",EX+"level_export.rs",EX+"class_export.rs",EX+"struct_export.rs"],[("from_base/write of each export",EX+"lib.rs")])
p("P21","Unversioned property headers and mappings decode faithfully",
  "The compact header of unversioned properties decodes to the documented skip/value/zero runs for every encoding, knows whether any value is non-zero, and writing a decoded header reproduces it. Uncompressed mappings files decode to the names, enums, schemas and property types they encode, a property is found by name and array index in its schema or a super type, and malformed files are rejected by an error rather than a crash.",
  ["inputs"],"every header fragment sequence and mappings content within the bound",
  "Tests load one mappings file.",
  [B+"unversioned/header.rs",B+"unversioned/mod.rs",B+"unversioned/usmap_reader.rs",B+"unversioned/properties/mod.rs"],[("UnversionedHeader::read/write",B+"unversioned/header.rs"),("Usmap::parse_data",B+"unversioned/mod.rs")])
p("P22","Asset registries survive parse and write unchanged",
  "An asset registry in canonical encoding of every supported registry version is read as the assets, dependency nodes and package data it holds and written back as the identical bytes; names and assets added or changed in memory are there after writing and reading; tag stores are decoded to what they encode; malformed registries are an error, never a crash.",
  ["inputs","configurations"],"field values and counts within the bound, registry versions",
  "Tests read one or two registry files.",
  [R+"lib.rs",R+"objects/asset_data.rs",R+"objects/depends_node.rs",R+"objects/asset_package_data.rs",R+"name_table_reader.rs"],[("AssetRegistryState::new/write",R+"lib.rs")])
p("P23","Mod metadata is upgraded losslessly and validated",
  "Mod metadata of schema 1 (or without schema) is upgraded to schema 2 with every field preserved, schema 2 is read as written, any other schema is refused, and invalid content is an error rather than a crash. Equality and hashing of metadata depend only on content.",
  ["inputs","configurations"],"field values, field presence combinations, schema numbers and dependency requirement texts",
  "Tests parse seven fixed documents.",
  ["unreal_mod_metadata/src/lib.rs","unreal_mod_metadata/src/v1.rs","unreal_mod_metadata/src/v2.rs"],[("from_slice",'unreal_mod_metadata/src/lib.rs'),("to_v2",'unreal_mod_metadata/src/v1.rs')])
p("P24","The pak tool packs and extracts faithfully and stays in the chosen folder",
  "Extracting with the pak command line tool writes every entry below the output folder with exactly the entry's content and nothing else, and an entry whose name would leave that folder is refused. Creating a pak from a folder gives a pak with exactly the files below the folder under their relative names. Checking reports a missing, truncated or damaged pak by a failing exit code, and an intact one by success.",
  ["inputs","configurations"],"every entry name up to the size bound, folder layouts, file contents, ways to name the pak and the folder",
  "Hostile names are an unbounded set; no test runs the tool.",
  ["unreal_pak_cli/src/main.rs"],[("Extract command","unreal_pak_cli/src/main.rs")])
p("P25","Game paths map to archive paths and bit ranges copy exactly",
  "A game path maps to the archive path of the named game exactly when it starts with the game prefix, for every game name and path, and copying a range of bits between bit vectors changes exactly the addressed bits.",
  ["inputs"],"every path and game name up to the bound; every range and content up to the bound",
  "Tests map two paths.",
  [H+"lib.rs",H+"path.rs",H+"bitvec_ext.rs"],[("game_to_absolute",H+"path.rs"),("set_range_from_range",H+"bitvec_ext.rs")])
p("P26","Mod dependency selection satisfies every requirement",
  "For every mod added to the dependency graph, the version chosen is one of its own versions and satisfies all requirements other mods place on it; a mod none of whose versions does is reported once as a warning naming exactly the mods that require it with their requirements, without a crash, for any number of mods, in any order of adding, cycles included. The requirement reported for a dependency to be fetched accepts exactly what all requirements accept, with every known download location.",
  ["inputs","histories"],"dependency graphs, versions and requirements",
  "Graph shapes are unbounded; there are no tests.",
  ["unreal_mod_manager/src/mod_processing/dependencies.rs"],[("DependencyGraph","unreal_mod_manager/src/mod_processing/dependencies.rs")])
p("P27","Only well-formed mod files are taken over, and then completely",
  "A mod file is taken over exactly if it is a readable pak with valid metadata whose id and version equal those of its file name NNN-Id-X.Y.Z_P.pak; anything else gives one warning naming the file, never a crash, and leaves other mods alone; a rejected file is removed only if it was newly added. Of several versions the newest is selected and the mod's data and size are those of that version. An index file is taken over only from a successful answer that lists the mod with valid versions and file names; a version selected afterwards always exists.",
  ["inputs","histories"],"mod files, index files and their order",
  "File names, metadata and index files are arbitrary input; there are no tests.",
  ["unreal_mod_manager/src/mod_processing/mod.rs","unreal_mod_manager/src/mod_processing/pakfile_reading.rs","unreal_mod_manager/src/mod_processing/index_file.rs","unreal_mod_manager/src/mod_processing/verify.rs","unreal_mod_manager/src/mod_processing/version_handling.rs","unreal_mod_manager/src/version.rs"],[("process_modfiles","unreal_mod_manager/src/mod_processing/mod.rs"),("insert_index_file_data","unreal_mod_manager/src/mod_processing/index_file.rs")])
p("P28","Mod manager settings survive being saved and loaded",
  "Loading the settings file that was written gives back the platform, the connection switch, every installed mod's switch and selected version, the trusted hashes and the profiles; the older form with profiles as a map is understood with disabled mods left out; whatever the file contains, loading gives usable settings and never crashes.",
  ["inputs","histories"],"settings and contents of the settings file",
  "The file can hold anything and is replaced in place; there are no tests.",
  ["unreal_mod_manager/src/mod_config.rs","unreal_mod_manager/src/profile.rs"],[("load_config","unreal_mod_manager/src/mod_config.rs"),("write_config","unreal_mod_manager/src/mod_config.rs"),("parse_profile_config","unreal_mod_manager/src/profile.rs")])
p("P29","Data moved between packages keeps its names",
  "After exports, imports or properties of one package are put into another and its name table is rebuilt, every name in the written package has the text and number it had where it came from; names the package already had keep their places in the table, no text is added twice, names that only writing needs (property types, terminators) are in the written table, nothing else of the moved data changes, and the package it came from is not affected. Moved back, the data is stored as originally.",
  ["inputs","histories"],"values, name tables and versions",
  "Forgetting one name field of one of about two hundred types breaks only packages that contain it; no test moves data between packages.",
  ["unreal_asset/src/asset.rs","unreal_asset/unreal_asset_base/src/types/fname.rs","unreal_asset/unreal_asset_proc_macro/src/fname_container.rs","unreal_asset/unreal_asset_properties/src/lib.rs"],[("rebuild_name_map","unreal_asset/src/asset.rs"),("FNameContainer","unreal_asset/unreal_asset_base/src/types/fname.rs"),("derive_fname_container","unreal_asset/unreal_asset_proc_macro/src/fname_container.rs")])
