"""What each check runs, and what it claims."""
TRUSTED_COMMON = [
 "Verus and Z3", "vp-extract (tools/extract): removes comments, attributes, logging statements and error messages, desugars slice-iterator loops to index loops, otherwise copies the source text",
 "rustc (the proof is about source text; the harness runs the compiled code)",
]
CHECKS = {
"C01": dict(level="proof", units=["cipher"], secs=30,
  technique="Verus contracts on the extracted cipher functions; bounded differential harness on the compiled code",
  proved_part="encryption table, encrypt_block, decrypt_block, decrypt_dword: exact format words for all lengths and keys, and both inverse theorems",
  bounded_part="the same contracts re-evaluated on the compiled functions",
  level_note="Unbounded proof over the extracted source text of the cipher and its table; harness is only a second opinion on the compiled code."),
"C03": dict(level="proof", units=["hash"], secs=30,
  technique="Verus contracts on the extracted hash functions; bounded differential harness on the compiled code",
  proved_part="hash_string for all five types and jenkins_hash equal the specification for every byte string; case and slash insensitivity as lemmas",
  bounded_part="the same contracts re-evaluated on the compiled functions",
  level_note="Unbounded proof over the extracted source text."),
"C05": dict(level="proof", units=["sparse"], secs=30,
  technique="Verus contracts and loop invariants on the extracted sparse codec; bounded harness on the compiled code",
  proved_part="sparse compress/decompress: compressed stream means the input, decompress returns the meaning, round trip, minimum length",
  bounded_part="the public compress/decompress entry points around the codec",
  level_note="Unbounded proof over the extracted source text of both codec functions."),
"C02": dict(level="proof", units=["bytes"], secs=60,
  technique="Verus contracts on the extracted byte-buffer encryption, decryption and key functions; bounded harness on the compiled code",
  proved_part="encrypt_data, decrypt_file_data, decrypt_table_data: format-exact words and tail for buffers of every length and every key, round trip; calculate_file_key (writer) for every name, position, size and flag",
  bounded_part="the reader's own use of the key inside read_file, and whole encrypted archives",
  level_note="Unbounded proof over the extracted text of the byte-level functions down to the table; the key use inside read_file is only exercised by the bounded stand-in."),
"C04": dict(level="proof", units=["htable"], secs=60,
  technique="Verus contracts and loop invariants on the extracted lookup and insertion, theorems over insertion histories; bounded harness on the compiled code",
  proved_part="HashTable::find_file (result equals the format's linear probe for every table, name and locale; terminates), add_to_hash_table (one never-used slot changed or refused unchanged; terminates when there is room), table constructors, calculate_hash_table_size leaves room; theorems: own block found, other names unaffected, absent names not found, for histories of any length",
  bounded_part="reading and writing the table in archives, Archive::find_file around it",
  level_note="Unbounded proof over the extracted text of lookup and insertion; the surrounding archive code is exercised by the bounded stand-in."),
"C08": dict(level="proof", units=["bits", "ext", "bet"], secs=60,
  technique="Verus contracts on the extracted bit-packing writer, extended-block-table builder, writer and reader, round-trip and frame theorems; bounded harness on the compiled code",
  proved_part="write_bit_entry, BetTable::read_table_entry, extract_bits, get_file_info: for every width, index and value the entry reads back its low bits, no other bit changes, and the extracted fields are the packed ones; calculate_bits_needed, create_bet_table, write_bet_table, BetTable::read: the chosen widths hold every file's position, sizes and flag index, and whatever table the reader makes of the written bytes (plain or compressed, encrypted) reports for each file exactly the sizes and flags of its block entry, the position its block entry and hi-block entry give, and the 64-bit hash of its name (theorem thm_bet)",
  bounded_part="the same through the compiled code, whole extended-table archives",
  level_note="Unbounded proof over the extracted text from the block entries through packing, compression, encryption and reading back to get_file_info. Assumed: std collections (HashSet, HashMap, sort), u64::leading_zeros; table compression by the audio methods is excluded (they are lossy); at most 2^24 files. The contracts of compress/decompress and of the cipher are those proved for C06 and C02."),
"C09": dict(level="proof", units=["header"], secs=60,
  technique="Verus contracts on the extracted header reader, locator and writer against a specification of the little-endian layout; bounded harness on the compiled code",
  proved_part="MpqHeader::read and write_header field for field for all four versions with the round-trip theorem, 64-bit combination in get_archive_size/get_hash_table_pos/get_block_table_pos, find_header: first aligned signature or user-data target, error otherwise; terminates",
  bounded_part="the same through Archive::open on real files",
  level_note="Unbounded proof over the extracted text, relative to the stated std::io model (a medium of bytes with a position; find_header without I/O faults)."),
"C10": dict(level="proof", units=["tables", "warch", "bet"], secs=60,
  technique="Verus contracts on the extracted table readers and writers and on the position arithmetic; bounded harness on the compiled code",
  proved_part="Archive::find_file_classic's position, HiBlockTable get/get_file_pos_high/set/is_needed/read, write_hi_block_table, split-and-reassemble identity for all 48-bit positions, hash/block table read and write round trips; ArchiveBuilder::write_archive and write_archive_with_het_bet record the low and high word of every file's real position and emit the table exactly when some high word is non-zero; create_bet_table packs the whole 48-bit position, and BetTable reports it back (theorem thm_bet)",
  bounded_part="whole archives",
  level_note="Unbounded proof over the extracted text; the contracts of encrypt_data and HashTable::find_file used here are the ones proved in units bytes (C02) and htable (C04)."),
"C13": dict(level="proof", units=["sig", "asig"], secs=60,
  technique="Verus contracts on the extracted signature parsing, padding checks, key constants and verification functions; bounded harness on the compiled code",
  proved_part="parse_weak_signature, parse_strong_signature, verify_pkcs1_v15_md5, verify_mpq_strong_signature_padding, reverse_bytes, left_pad, the two public keys, verify_weak_signature_stormlib, verify_strong_signature: accepted exactly when the decoded block is the prescribed padding and digest, for blocks and data of every length; Archive::verify_signature, verify_weak_signature, verify_strong_signature and get_archive_size around them: which signature is reported, over which range",
  bounded_part="real RSA arithmetic, whole archives",
  level_note="Unbounded proof over the extracted text; big-integer arithmetic (modpow, byte conversion) and the MD5/SHA-1 crates are uninterpreted functions with assumed contracts, and the digest contract of calculate_mpq_hash_md5 is the one proved in unit digest (C14)."),
"C14": dict(level="proof", units=["digest", "asig"], secs=60,
  technique="Verus contract and loop invariants on the extracted digest function; bounded harness on the compiled code",
  proved_part="calculate_mpq_hash_md5 feeds the digest exactly the archive range with the excluded range zeroed, for every length, start and exclusion, every way the reader splits its reads; terminates; SignatureInfo::new_weak; Archive::verify_weak_signature's choice of the archive range and of the excluded range",
  bounded_part="the same through whole archives",
  level_note="Unbounded proof over the extracted text relative to the std::io model and an incremental-digest contract for the md5 crate."),
"C15": dict(level="proof", units=["attrs"], secs=60,
  technique="Verus contracts and loop invariants on the extracted attribute parser and serialiser, round-trip theorem; bounded harness on the compiled code",
  proved_part="Attributes::parse (succeeds exactly when version and length fit, every record as laid out), Attributes::to_bytes, the flag predicates and cursor helpers, and their composition: every value of every file survives, for every file count up to 2^32-1 and every flag word; Archive::load_attributes (a table stored in the archive is parsed for exactly the number of block-table entries, or extended-table entries when there is no block table; too short a table is an error; no (attributes) file leaves none), Archive::get_file_attributes",
  bounded_part="the same through the public API and bytes::Bytes, and through whole archives",
  level_note="Unbounded proof over the extracted text; bytes::Bytes is taken as a byte slice and std::io::Cursor as the verified slice cursor of inc_io.rs."),
"C06": dict(level="proof", units=["comp", "adpcm", "sparse", "huff"], secs=60,
  technique="Verus contracts on the extracted compression dispatch, codec wrappers, ADPCM and sparse codecs, round-trip theorem; bounded harness on the compiled code",
  proved_part="compress, compress_internal, compress_multiple, decompress, decompress_multiple, CompressionMethod::from_flags and the zlib/bzip2/lzma/PKWare wrappers for all inputs and all 256 method bytes: the result is the input or a strictly shorter buffer starting with the method byte, and decompressing it gives the input (lossless) or the original length (audio)",
  bounded_part="the real codec crates behind the wrappers",
  level_note="Unbounded proof over the extracted text; flate2, bzip2, lzma_rs and pklib are assumed to decode what they encoded (pklib only up to 4 KiB of input, which the code enforces) and never to encode to the empty string."),
"C07": dict(level="proof", units=["adpcm"], secs=60,
  technique="Verus contracts and loop invariants on the extracted ADPCM encoder and decoder against a state-machine specification; bounded harness on the compiled code",
  proved_part="compress_internal, decompress_internal, decode_sample, update_predicted_sample, get_next_step_index, read_sample, write_sample and the four entry points, for all sample sequences, one and two channels, levels 0..=9: decoder state equals encoder state after every code, output length, first samples, stream at most four times the input; decoder total on arbitrary bytes (no panic, no out-of-range index, terminates)",
  bounded_part="the same on the compiled code",
  level_note="Unbounded proof over the extracted source text of the whole codec."),
"C11": dict(level="proof", units=["files", "fread", "tables", "htable", "bytes", "bits", "ext", "warch", "bet", "aopen", "bcfg"], secs=60,
  technique="Verus contracts and loop invariants on the extracted writer and reader of single files and on the tables between them; bounded round trips through whole archives on the compiled code",
  proved_part="ArchiveBuilder::new, add_file, add_file_data and their variants, the option setters (each appends exactly the one file it was given, name, content and options verbatim, or sets its one option, and changes nothing else); ArchiveBuilder::write_file (every size, sector size, method, encryption, fixed key, checksum: the bytes written are an image of the file, sizes fit 32 bits), Archive::find_file, Archive::read_file, Archive::read_sectored_file, read_bytes, calculate_sector_size, FileInfo flags (an image of x at the located position is read back as exactly x; a name that is not located is an error), hash/block/hi-block table writers, readers and lookup; ArchiveBuilder::write_archive and write_archive_with_het_bet (whatever they write successfully is an archive holding exactly the pending files: header, tables and every file image where the tables say, every name resolving to its own block); Archive::open_with_options, load_tables, load_attributes, read_het_table_size, read_bet_table_size (the tables loaded are the ones the header points to); theorem thm_reads_back: what was written and opened delivers every source byte for byte under every case and slash variant of its name and nothing under a name that shares no hash pair with a source, for all four formats: in formats 3 and 4 whatever the extended hash table answers, because create_bet_table, write_bet_table, BetTable::read, get_file_info and name_hash_matches together report exactly the block, the whole position, sizes, flags and 64-bit name hash of the file asked for, and anything else falls back to the classic tables; thm_opens: such an archive opens",
  bounded_part="more than 2^24 files in formats 3 and 4, table compression with a lossy audio method; the same through the file system",
  level_note="Unbounded proof of the per-file writer and reader and of the tables; writer, opener and reader of whole archives are under contract and composed in one theorem. Distinct names are taken to have distinct pairs of name hashes (and, in formats 3 and 4, distinct 64-bit hashes). Codec crates, adler and the std::io model are assumed; a medium holds fewer than 2^56 bytes."),
"C12": dict(level="proof", units=["fread", "files", "v4", "warch", "bet", "aopen", "fverify"], secs=60,
  technique="Verus contracts on the extracted reader and writer of checksummed files; bounded corruption of whole archives on the compiled code",
  proved_part="read_file: whenever a single-unit file with checksum is returned, Adler-32 of the returned bytes equals the stored word; an undamaged image is always accepted; write_file stores that checksum of the uncompressed data; validate_v4_md5_checksums: each digest is reported valid exactly when the stored digest is the MD5 of the bytes it covers, finalize_v4_header_md5 writes the digest the reader recomputes; write_archive_with_het_bet stores for each of the five tables the MD5 of the bytes it put on the medium; theorem thm_digests: in an archive just written and opened every digest of the header is the MD5 of the bytes it covers; SFileVerifyFile returns for every name and every flag combination exactly the verdict of the specification (found, readable where asked, CRC-32 and MD5 as recorded), SFileVerifyArchive exactly whether signature and every visited file pass",
  bounded_part="whole archives",
  level_note="Unbounded proof for checksummed single-unit files, and for the version-4 digest status, assuming decompression and MD5 are functions of their arguments; that a damaged input changes the MD5 is not a fact a proof can give."),
}
CHECKS["C16"] = dict(level="proof", units=["ext", "huff", "header", "tables", "htable", "bits", "fread", "comp", "adpcm", "sparse", "bytes", "attrs", "sig", "digest", "v4", "asig", "list", "aopen"], safety=True, secs=60,
  technique="Verus on the extracted parsers and decoders (no overflow, no index or slice out of bounds, no division by zero, every loop and recursion terminates, for every byte string); bounded hostile-input harness on the compiled code",
  proved_part="HetTable and BetTable read/parse_header/find_file/read_hash_entry/name_hash_matches/get_file_info, HashTable, BlockTable and HiBlockTable read, HashTable::find_file, find_header, MpqHeader::read, Archive::find_file, find_file_classic, read_file, read_sectored_file, decompress and decompress_multiple with the Huffman, implode, sparse and ADPCM decoders, decrypt_file_data, decrypt_table_data, Attributes::parse, signature parsing and verification, Archive::verify_signature, calculate_mpq_hash_md5, validate_v4_md5_checksums, parse_listfile, Archive::list, list_all, list_all_with_hashes, list_with_hashes, open_with_options, load_tables, load_attributes: total on arbitrary bytes",
  bounded_part="get_info around them; the codec crates",
  level_note="Unbounded proof of panic-freedom and termination over the extracted text, relative to the std::io model, fewer than 2^56 bytes on the medium, and codec crates that do not panic. Only safety obligations of these units decide this property; their functional obligations belong to the properties named there.")
CHECKS["C17"] = dict(level="proof", units=["list", "bcfg"], secs=60,
  technique="Verus contracts and loop invariants on the extracted list parser, list generator and listing function, round-trip theorem; bounded harness on the compiled code",
  proved_part="parse_listfile with its line closure (one name per line that is neither blank nor comment, trimmed, cut at the semicolon, in order, for all bytes), ArchiveBuilder::prepare_listfile (one line per added name, then the list's own name, stored unencrypted under that name), Archive::list (the names of the list that are in the archive, in order, with size and flags as located; without a list, exactly the existing files of the tables under generated names), and their composition: every added name listed once, in order; the builder's add functions record each name verbatim; Archive::list_all, list_all_with_hashes (for every content of the tables: exactly the existing files of the extended block table in order, or else exactly one entry per existing block that a hash entry names, theorem thm_each_once), list_with_hashes (the entries of list, each with the two hashes of its name)",
  bounded_part="std's UTF-8 and whitespace functions, whole archives",
  level_note="Unbounded proof over the extracted text; std's string functions (trim, lines, find, from_utf8_lossy) are assumed to do what their documentation says, and that reading the list's file gives the bytes it was built with is C11.")
CHECKS["C18"] = dict(level="proof", units=["ffi"], secs=60,
  technique="Verus contracts on the extracted C API functions over an explicit memory and explicit handle tables; bounded call histories on the compiled library",
  proved_part="SFileOpenArchive, SFileOpenFileEx, SFileReadFile, SFileSetFilePointer, SFileGetFileSize, SFileGetFileInfo (with both helpers), SFileCloseFile, SFileCloseArchive (with its retain closure), SFileHasFile, SFileGetFileName, SFileGetArchiveName, handle_to_id, id_to_handle, set_last_error: each call is exactly one step of a bounded file, for every handle, buffer size, 64-bit offset and method, touches no byte outside the buffers it was given, and keeps the invariant of the handle tables (positions inside the files, handles never reused, files only of open archives), so every history of these calls obeys it; SFileHasFile answers exactly whether the name is located, SFileExtractFile writes exactly the member's content to the path it was given or reports the matching error and writes nothing, SFileEnumFiles passes exactly the listed names that fit the mask, once, in order, until the callback refuses",
  bounded_part="that no call blocks (mutexes are taken as owned tables here; unit threads of C21 proves the locking), SFileCreateArchive, whole histories on the compiled library",
  level_note="Unbounded proof over the extracted text; globals are made parameters, raw pointers are addresses into an explicit byte memory, HashMap and Mutex have assumed contracts (one thread, never poisoned), and what an archive contains is an uninterpreted function of it.")
CHECKS["C19"] = dict(level="proof", units=["cli"], secs=60, cli=True,
  technique="Verus contracts and loop invariant on the extracted extraction command over an explicit file system that may only be written inside the chosen place; bounded runs of the compiled tool",
  proved_part="member_path with its component filter and extract: every fs::write and fs::create_dir_all of the command, for every name, is inside the chosen output (or, for directories, on the way to it); the files written are exactly the readable listed names with a usable component, each at the prescribed path; a name of plain components keeps exactly its path, others their plain components or last plain component; no usable component is refused",
  bounded_part="std::path's own splitting of names into components, symbolic links already in the output directory are outside the property, the compiled tool end to end",
  level_note="Unbounded proof over the extracted text; std::path (components, join, parent, collect) and std::fs have assumed contracts over sequences of components.")
CHECKS["C20"] = dict(level="proof", units=["build", "create"], secs=60, cli=True,
  technique="Verus contract on the extracted ArchiveBuilder::build over an explicit file system: the target path changes only by persist of a complete image; bounded runs that fail or kill the compiled build at every file-size limit",
  proved_part="ArchiveBuilder::build: for every configuration, every failing step and every state of the target path, no operation before persist touches the target, persist is only reached with the complete image written and flushed, and every error return leaves the target as it was; hence whatever the point of interruption the target is the old content or the complete new image; on top of it SFileCreateArchive (for every disposition: an existing file is replaced only when the disposition asks for it and only by a complete new archive, any failure leaves every path as it was) and the command line's archive create (any error leaves every path as it was, success leaves a complete archive of the chosen options)",
  bounded_part="the compiled build killed by SIGXFSZ or failed with EFBIG at every prefix length of the written image, unreadable sources, unwritable directory; the same through the C API and the storm-cli binary; the directory walk of the command line",
  level_note="Unbounded proof over the extracted text. Assumed: rename(2) behind NamedTempFile::persist is atomic, tempfile creates a new name, write_archive/prepare_listfile only write to the stream they are given (checked by the bounded runs). Loss of power between rename and the disk (no fsync) is not covered by the statement.")
CHECKS["C21"] = dict(level="proof", units=["threads"], secs=60,
  technique="Verus contracts on every extracted C API function with explicit lock acquisition and release (lock order, lock invariants assumed on acquisition and proved on release, two-phase locking); bounded multi-threaded runs of the compiled library",
  proved_part="all exported functions that use the handle tables: locks are taken in one order (ARCHIVES before FILES, nothing under NEXT_HANDLE), never twice, all are given back on every path and none is held while a callback or another exported function runs, so no interleaving deadlocks; at every release positions are inside their files, the counter has not gone back, a table gained only numbers this thread drew and never used before, every open file belongs to an open archive; no operation under a lock panics (no poisoning); every call that changes a table takes all its locks before giving the first back, so with C18's sequential contracts it is one atomic step",
  bounded_part="that the error code is the thread's own, and all of the above on the compiled library under the operating system's scheduling",
  level_note="Unbounded proof over the extracted text with drop scopes made explicit (edition 2021 rules). Assumed: std::sync::Mutex excludes, the library calls made under a lock return (C16), two-phase locking implies serializability; fewer than 2^64 handles. SFileEnumFiles and SFileVerifyArchive take their list atomically and then treat each file as a call of its own.")
# properties whose core functions are not yet all under contract: bounded evaluation of the contracts on the compiled code
for _i in ("C02","C04","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19"):
    CHECKS.setdefault(_i, dict(level="exploration", units=[], secs=60, cli=_i == "C19", technique="bounded evaluation of the contract on the compiled code (stand-in)",
      proved_part="nothing yet", bounded_part="everything", level_note="Bounded stand-in: the property's contract evaluated on generated inputs, not proved."))
NOT_APPLICABLE = {
}
HOOKS = dict(guard="cfg(vp_hooks) with the values compression, signature, archive, builder", enable="RUSTFLAGS='--cfg vp_hooks=\"compression\" --cfg vp_hooks=\"signature\" --cfg vp_hooks=\"archive\" --cfg vp_hooks=\"builder\"' (bin/vplib.py, harness())", source_commits=["e3532dc486193fd45db926990b819d3644fefd4c"])
