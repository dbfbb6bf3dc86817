PAK = ["zlib is modelled, not encoded: compressing yields stored (uncompressed) blocks, decompressing handles stored blocks; Adler-32 of symbolic data is an arbitrary fixed value", "SHA-1 of symbolic data is modelled as an arbitrary fixed value per distinct input (exact on concrete data)"]
CHECKS = {
 "P01": dict(bin="p01", bounds="every UTF-8 string of up to 5 bytes, every sequence of up to 3 Unicode scalar values, ASCII of selected lengths up to 300 and around the reader's 131072 limit, one arbitrary character inside texts of up to 200 characters; no NULs. thorough: up to 8 bytes / 5 characters"),
 "P02": dict(bin="p02", bounds="every buffer of up to 9 bytes (12 for wide strings, 13 for arrays, 15 for arrays of strings), all declared lengths (full i32/u32 range). thorough: buffers up to 13 bytes"),
 "P03": dict(bin="p03", bounds="all 2^128 GUIDs for the binary views; printing: two arbitrary adjacent bytes, or all bytes >= 16, or all in 1..15; parsing: every text of up to 3 bytes, one arbitrary character in 3 well-formed shapes, 32-digit texts with letters (either case) and decimal digits placed by six patterns"),
 "P04": dict(bin="p04", features=["pak"], assumptions=PAK, bounds="all 10 writable versions; 0..3 entries with arbitrary one-letter names (in any order, repeated names included), arbitrary contents of selected sizes up to 200 bytes (and around 64 KiB / 128 KiB with 3 arbitrary bytes); compression with 11 size/block-size pairs around the 32-byte threshold and exact block multiples; arbitrary 2-byte ASCII names, one arbitrary Unicode character, arbitrary 3-character mount points; contents containing the pak magic. thorough: up to 4 entries with any mix of compression"),
 "P05": dict(bin="p05", features=["pak"], assumptions=PAK, bounds="all 10 writable versions written and all 12 readable versions read, 0..3 entries with arbitrary contents of selected sizes up to 96 bytes, block sizes 7..2048, three compression-method tables; record offset 0..300"),
 "P06": dict(bin="p06", features=["pak"], split=2, assumptions=PAK, bounds="one arbitrary part at a time in otherwise well-formed paks: all files of 0, 1, 4 and 43 bytes; every trailer version and index offset (full ranges) for the 4 trailer sizes; compression name tables of 0..5 entries with 2x5 arbitrary bytes; in the index every entry count, name length, record offset, sizes, method number, block count, block bounds and flags; in the record header every method, size, block count and block bounds; every encoded entry of versions 10/11; arbitrary zlib stored-block headers. thorough: all 24-byte trailer contents behind 0..12 arbitrary bytes"),
 "P07": dict(bin="p07", features=["pak"], assumptions=PAK, bounds="every sequence of 3 operations (set one of the names, overwrite, save+load) with arbitrary contents on all 10 writable versions; merging a loaded archive; archives with compressed entries. thorough: 5 operations"),
 "P08": dict(bin="p08", features=["base"], bounds="streams of 0..6 arbitrary bytes in 5 split shapes (one without a second part); every history of 2 operations (3 on a 1+1 split) out of reads of any length and seeks from start/end/current by every 64-bit offset, every in-range history of 4 operations, exact reads at every position. thorough: 3 arbitrary / 6 in-range operations"),
 "P09": dict(bin="p09", features=["base"], bounds="integer keys from a set of 2 (4 when prefilled with 3), arbitrary 64-bit values: every history of 3 operations out of 8 kinds (insert, remove by key/position, entry API, iterator and lookup updates, rebuild/clone), of 3 operations on a prefilled map and of 5 inserts/removals; all views compared after the history; every iterator taken from both ends in every order over 0..3 entries. thorough: 4 operations / 3 keys, 6 inserts/removals"),
 "P13": dict(bin="p13", features=["base"], assumptions=["the third-party naive_cityhash crate is an uninterpreted function of its input for up to 32 characters (equal inputs, equal hash); the oracle applies it to independently lower-cased text"], bounds="every ASCII name of up to 3 characters (NUL included), every pair of 2-character names differing in case, 4-letter names, one arbitrary character in names of 4..32 (hash-batch: also 33 and 65) characters, one arbitrary Unicode scalar value alone, every BMP character (and U+1F600..U+1F67F) inside a text. thorough: 4 characters, 8 letters, two non-ASCII characters"),
 "P10": dict(bin="p10", features=["base"], bounds="every history of 3 additions (plain, forced duplicate, with any 32-bit number) over 4 texts incl. empty, case-only differing and non-ASCII; every pair of names out of those texts and any numbers; pairs of texts differing in length, case or one character; lists of up to 3 names with repetitions; every stored 8-byte name with tables of 0..3 names, truncations included. thorough: 4 additions, arbitrary 2-letter texts"),
 "P12": dict(bin="p12", features=["asset"], assumptions=["the 64 KiB AC7 key tables read at symbolic positions yield unconstrained values, one per address expression (exact at concrete positions)"], bounds="every ASCII asset name of 1 character and every upper-case name of 3 characters with arbitrary contents of 3+2 bytes; 8 fixed names with arbitrary bodies of 60 and 1100 bytes (both key positions wrap); reference transform compared over 230 bytes; inputs of 0..3 bytes. thorough: names of 6 characters"),
 "P25": dict(bin="p25", bounds="paths: every ASCII tail of 2 and 3 characters behind 4 prefixes, every 6-character beginning, one arbitrary character in tails of 8..40, one non-ASCII character; game names of 1 and 3 arbitrary characters. Bits: every range of 6-bit vectors, 20 ranges of 20-bit and 10 of 60-bit vectors with arbitrary target and 6 arbitrary source bits, both bit orders. thorough: tails of 4 characters"),
 "P21": dict(bin="p21", features=["base"], assumptions=["compressed mappings (Brotli, Zstandard) are outside: the decompressors are third-party code; uncompressed files only"], bounds="headers: every packed fragment, every sequence of 1 and 3 fragments without mask, every mask of 14 sizes up to 127 values (arbitrary bytes up to 16, one arbitrary byte in longer ones), 3 mixed fragments of 0/2/6 values with arbitrary skips, 600 fragments (indices beyond 65535), all inputs of up to 5 bytes. Mappings: all four versions, all property kinds, nested containers, array properties of 0..3 elements at any index, lookups through one super type; one arbitrary field at a time and truncations of a small file. thorough: 6 fragments"),
 "P15": dict(bin="p15", features=["asset"], assumptions=["booleans are stored as 0 or 1; 32-bit coordinates are not NaN (widening makes NaNs quiet); a float range does not start with a valid name index (the reader then takes it for a plain struct)", "names come from a table of 6 to 10 entries; numbers of names are any 32-bit value"], bounds="every value of each payload field of some 70 property kinds; tagged, untagged, and as struct value; with and without property identifier; engine bands: object versions 400, 502, 513, 514, 522, UE5 1003, 1004, 1006, 1007, 1010 (struct identifiers from 441, property identifiers from 503, soft paths from 514, doubles from 1004, asset paths from 1007), text layouts 225/226/367/368; strings up to 4 characters in ASCII and UTF-16 with one field varied at a time, lists of up to 2 elements, evaluation trees of up to 2 entries and 2 items, counts of any 32-bit value for the malformed cases"),
 "P16": dict(bin="p16", features=["asset"], assumptions=["map keys are fixed values (their hashes are computed by the library), map values are arbitrary", "the removed part of a set of bytes or unknown elements is empty, and byte values do not occur in maps (the reader guesses their size there)"], bounds="arrays of 12 element kinds with up to 3 elements (bytes up to 7), every element value; struct arrays of 0 to 2 structs with every name number, type and identifier; structs of 0 to 2 tagged members or absent; sets of 13 kinds with up to 2 removed and 3 present elements; maps of 6 key kinds and 12 value kinds with up to 3 removed keys and 3 entries; two levels of nesting in 6 shapes; object versions 440, 441, 499, 500, 502, 503, 522 and UE5 1004, 1010; counts of any 32-bit value for the malformed cases"),
 "P17": dict(bin="p17", features=["asset"], assumptions=["booleans are stored as 0 or 1; 32-bit coordinates are not NaN (widening makes NaNs quiet)", "the table of instruction codes, operand orders and operand sizes in memory is written from the format, not read from the code"], bounds="all 95 instructions with every operand value, each nested expression being one of 4 simple expressions, a call with up to 2 arguments or a cast, to depth 2 with at most one nested call or cast; lists of up to 3 elements, switches of up to 2 cases; property paths of up to 2 names; strings of up to 3 ASCII or 2 arbitrary UTF-16 characters; object versions around 291/518, UE5 below and from 1004; every unknown code in 4 positions"),
 "P18": dict(bin="p18", features=["asset"], assumptions=["canonical section order, booleans 0 or 1, the last generation holds the real counts, texts of names and folder are fixed samples (their encoding is P01)"], bounds="33 object version pairs around every threshold of the format plus 3 late UE5 versions (5 of them where the section does not depend on the version); every value of every summary, import and export field; up to 3 imports, 3 exports, 3 generations, 3 chunk ids, 2 custom versions, 2 soft references, 2 dependencies per list; single-file and split; world tile sections; export bodies of up to 6 arbitrary bytes after the properties"),
 "P11": dict(bin="p11", features=["asset"], bounds="every 32-bit reference; tables of up to 3 imports and 3 exports; up to 3 added imports; searches over 3 imports with every outer index and two texts per name"),
 "P19": dict(bin="p19", features=["asset"], assumptions=["texts of names, identifiers of custom versions and everything but the field under test are those of a valid package"], bounds="packages with something in every table, object versions 335, 459, 508 (split), 522 (split) and UE5 1009; every value of every 4-byte field of the summary, the import, export, dependency, soft reference and preload tables and the export data, of every 8-byte offset and size, of every string length and name hash, one field at a time; truncation at every byte of either file (offsets, sizes and lengths for 3 of the versions)"),
 "P20": dict(bin="p20", features=["asset"], assumptions=["canonical encoding: booleans 0 or 1, only flag bits the library knows, texts of names fixed samples", "the engine version is given by the caller for object versions 513 and 522"], bounds="object versions 240 to 522 around the thresholds of each kind, custom framework versions 20/28/29; every value of every field; up to 3 elements per list, one arbitrary int property, 0..9 extra bytes behind the export; counts and script sizes of any 32-bit value; class function maps and interfaces of up to 3 entries"),
 "P22": dict(bin="p22", features=["asset"], assumptions=["canonical encoding: hard dependencies first, each list in node order, known dependency flags, booleans 0 or 1, name hashes as computed", "versions from FixedTags on are laid out by the library without name batch and tag store; there only its agreement with itself over the caller's names is checked"], bounds="registry versions 4..14; up to 2 assets, 3 dependency nodes, 2 packages with every field value; up to 2 tags, chunk ids and imported classes each; every 4-byte count, size and index of versions 6, 7 and 14 set to any value, truncation at every byte; tag stores with one to two values of each kind and any number or index"),
 "P23": dict(bin="p23", features=["meta"], assumptions=["third-party JSON and version requirement parsers are encoded like the rest; floating point numbers in documents are outside"], bounds="every presence combination of three groups of optional fields, one text of 2 arbitrary characters (out of 32x16), empty, Unicode, escaped or long at a time, 4 sync modes, every subset of the 5 integrator fields, up to 2 dependencies in short and long form, up to 2 libraries; every 1-character and 2-digit schema; every requirement text of up to 3 characters; every field with every wrong JSON type; any byte at any position of a document, every document of up to 3 bytes (2 when the second is an exponent); equality over up to 4 integrator entries in any rotation. thorough: requirements of 4 characters"),
 "P24": dict(bin="p24", features=["cli"], assumptions=["the file system is a model in memory (directories and files, no links, no permissions) behind the system functions of the standard library; the tool itself, its argument parser and directory walker are encoded", "texts printed by the tool are not looked at", "zlib is modelled: compressing yields stored blocks, decompressing handles stored blocks; SHA-1 of symbolic data is an arbitrary fixed value"], bounds="entry names: every ASCII name of up to 4 and of 6 characters, every sequence of up to 3 parts out of '..', '.', '', 'a', '..b', '...'; a hostile entry before or behind a harmless one; up to 3 entries of up to 40 arbitrary bytes, plain and compressed, 4 pak versions, over files of an earlier run; 6 ways to name the pak and 10 to name the folder; creating from folders of up to 3 files in 2 levels, 5 ways to name the folder and 4 to name the pak; checking missing paks, truncation at every byte, any wrong byte of the magic. thorough: names of 9 characters and 5 parts"),
 "P26": dict(bin="p26", features=["graph"], assumptions=["the graph library (petgraph) is not available offline and replaced by a stand-in with its interface and visiting order; the warning type records what it is given", "versions and requirements without pre-release parts"], bounds="one mod with 1 or 2 versions required by 1 or 2 mods, all operators, one to three arbitrary numbers (0..7) each, ranges of two comparators; 6 graph shapes of 4 mods (chain, diamond, cycle, self reference, star) with 8 requirements, 3 version sets and 3 ways of adding; 31 to 40 requirements on a version of any 64-bit numbers"),
 "P27": dict(bin="p27", features=["manager"], assumptions=["the file system is an in-memory stand-in behind the C library calls; HTTP client, lock, hex and graph crates are not available offline and replaced by stand-ins with their interface", "index files are fetched and taken over one at a time, without the download threads"], bounds="one mod file whose name, version text, id or metadata has any single character anywhere; three versions that differ in any one digit of any part; empty, truncated (16 lengths) and damaged archives, missing and invalid metadata beside a good mod; index files with any status and any single character (14 characters within map keys); game builds with any digits and any single character"),
 "P28": dict(bin="p28", features=["manager"], assumptions=["the file system is an in-memory stand-in behind the C library calls; HTTP client, lock, hex and graph crates are not available offline and replaced by stand-ins with their interface", "choosing a platform is a stand-in that stores the name and saves, as the original does"], bounds="two mods with any switch, kind of selection and version numbers 0..7, up to two trusted hashes of two arbitrary bytes, up to two profiles of two mods, five platforms; the older file form; files cut at every length, with 10 characters at 60 places, and any file of up to 2 bytes"),
 "P29": dict(bin="p29", features=["moved"], assumptions=["as P15, P16, P17 and P20, whose values are moved"], bounds="every value of the P15, P16 and P17 cases moved to an archive with a disjoint name table, every export of the P20 cases moved to a package with a reordered and reduced table and back; mixing two packages with equal, reordered, different or larger tables at 3 object versions, in one or two files, arbitrary name numbers, optionally a property made by hand"),
 "P14": dict(bin="p14", features=["base"], bounds="complete over the 31 engine versions, all 2^32 integers for each version enumeration, all 7 custom version kinds per engine; guessing with any 32-bit value of three custom versions per engine; stored custom versions with any 32-bit number for 6 identifiers"),
}
NOT_APPLICABLE = {
}
