#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

prop("C01", "Block cipher: decryption inverts encryption and both follow the MPQ format",
 "For every sequence of 32-bit words and every key, decrypting an encrypted sequence with the same key returns the original words and encrypting a decrypted one returns the ciphertext. Each word is transformed exactly as the MPQ format prescribes (the published table, key and seed schedule), a zero key leaves the data unchanged, and decrypting a single word agrees with decrypting a one-word sequence.",
 ["inputs"], "all word sequences of every length and all 2^32 keys",
 "The tests try a handful of fixed vectors and keys; a schedule error that only shows for long buffers, particular key bytes or particular table rows is not sampled.",
 ["mopaq/src/crypto/encryption.rs", "mopaq/src/crypto/decryption.rs", "mopaq/src/crypto/keys.rs"],
 [("encrypt_block", "mopaq/src/crypto/encryption.rs"), ("decrypt_block, decrypt_dword", "mopaq/src/crypto/decryption.rs"), ("generate_encryption_table", "mopaq/src/crypto/keys.rs")],
 ["mopaq::crypto::{encrypt_block,decrypt_block,decrypt_dword,ENCRYPTION_TABLE}"])

prop("C02", "Encrypting bytes of any length is undone by the reader's decryption",
 "For every byte buffer of any length, including lengths that are not a multiple of four, and every key, the bytes the archive writer encrypts are restored exactly by the decryption used when files are read, and every whole word is encrypted as the format's block cipher prescribes. The encryption key of a stored file is the format's key hash of the name it is stored under; with the position-adjusted option, and only then, the file's position is added to it and the result combined with the file size by exclusive or.",
 ["inputs", "configurations"], "all buffers, lengths, keys, names, positions and sizes; with and without position adjustment",
 "Tests encrypt a few short literals; the 1-3 byte tail, long buffers and the key adjustment for large positions are not covered for all values.",
 ["mopaq/src/builder.rs", "mopaq/src/archive.rs", "mopaq/src/tables/common.rs"],
 [("encrypt_data, calculate_file_key", "mopaq/src/builder.rs"), ("decrypt_file_data", "mopaq/src/archive.rs"), ("decrypt_table_data", "mopaq/src/tables/common.rs")],
 ["ArchiveBuilder::encrypt_data", "Archive::read_file of an encrypted file"], "guarded wrappers for private functions")

prop("C03", "Name hashes follow the format and ignore ASCII case and slash direction",
 "Every name hash equals the value the MPQ format defines for that name and hash type, for names of any length and any bytes. Two names that differ only in ASCII letter case or in using / instead of \\ have equal hashes of every type, including the 64-bit extended-table hash.",
 ["inputs"], "all strings and all five hash types",
 "Tests check a dozen literal names; letters, slashes or non-ASCII bytes at other positions and other hash types are not enumerated.",
 ["mopaq/src/crypto/hash.rs", "mopaq/src/crypto/keys.rs"],
 [("hash_string, jenkins_hash", "mopaq/src/crypto/hash.rs"), ("ASCII_TO_UPPER, ASCII_TO_LOWER, ENCRYPTION_TABLE", "mopaq/src/crypto/keys.rs")],
 ["mopaq::crypto::{hash_string, jenkins_hash}"])

prop("C04", "Hash-table lookup finds exactly the names that were stored",
 "After any sequence of insertions into a hash table that has room, looking up a stored name returns that name's own block index, and looking up a name whose hashes match no entry returns nothing; inserting one name never changes what another name resolves to, and inserting a name that is already present is refused without changing the table. Lookup skips deleted entries, stops at never-used ones, honours the locale (the neutral locale on either side matches any), and terminates on every table.",
 ["inputs", "histories"], "all insertion histories, table sizes, names and locales, all probe-collision patterns and deleted markers, including completely full tables",
 "Tests insert a few non-colliding names; wrap-around probing, collision chains, deleted markers and full tables are not explored exhaustively.",
 ["mopaq/src/tables/hash.rs", "mopaq/src/builder.rs"],
 [("HashTable::find_file", "mopaq/src/tables/hash.rs"), ("add_to_hash_table", "mopaq/src/builder.rs")],
 ["HashTable::find_file", "Archive::find_file"], "guarded wrapper for the private insertion function")

prop("C05", "Sparse (run-length) compression is lossless",
 "For every byte string, decompressing its sparse-compressed form to the original length succeeds and returns exactly the original bytes, whatever the lengths of its zero runs and literal runs. A valid sparse stream decodes to what its records say, and decoding never yields fewer bytes than asked for.",
 ["inputs"], "all byte strings of every length",
 "Tests use a few short strings and one run of 100 zeros; run lengths at and beyond the record limits are not sampled.",
 ["mopaq/src/compression/algorithms/sparse.rs"],
 [("compress, decompress", "mopaq/src/compression/algorithms/sparse.rs")],
 ["mopaq::compression::{compress,decompress} with the sparse method"])

prop("C06", "Compressed sectors are distinguishable from raw ones and decompress to the input",
 "For every input and every method byte for which compressing succeeds, the result of compressing is either the input itself or a strictly shorter buffer that begins with the method byte, so that comparing lengths tells the two apart. In the second case decompressing the rest with that method byte and the original length returns the input exactly for the lossless methods, and returns a buffer of the original length for the audio methods.",
 ["inputs", "configurations"], "all inputs, all 256 method bytes (those the compressor refuses return an error)",
 "Tests compress a few compressible texts; inputs whose compressed size lands within a byte or two of the original size, which decide between the two forms, are not hit.",
 ["mopaq/src/compression/compress.rs", "mopaq/src/compression/decompress.rs", "mopaq/src/compression/methods.rs"],
 [("compress, compress_multiple", "mopaq/src/compression/compress.rs"), ("decompress, decompress_multiple", "mopaq/src/compression/decompress.rs"), ("CompressionMethod::from_flags", "mopaq/src/compression/methods.rs")],
 ["mopaq::compression::{compress,decompress}"])

prop("C07", "ADPCM audio keeps length and first samples, and tracks the encoder",
 "For every 16-bit mono or stereo sample sequence and every supported quality level, decoding the encoded data to the original size yields exactly the original number of bytes, starts with the exact first sample of each channel, and reproduces for every later sample exactly the value the encoder predicted for it. Decoding arbitrary bytes never panics or indexes outside its tables.",
 ["inputs", "configurations"], "all sample sequences, both channel counts, all supported levels, and arbitrary bytes for the decoder",
 "Tests check sizes and loose closeness for a sine wave; extreme sample jumps, marker sequences and hostile input bytes are not covered.",
 ["mopaq/src/compression/algorithms/adpcm.rs"],
 [("compress_internal, decompress_internal, decode_sample, get_next_step_index, update_predicted_sample", "mopaq/src/compression/algorithms/adpcm.rs")],
 ["mopaq::compression::{compress,decompress} with the ADPCM methods"], "guarded wrappers for private functions")

prop("C08", "Bit-packed table entries read back exactly and leave neighbours intact",
 "Writing a value of a given bit width at an entry index of a bit-packed table and reading that entry returns the value's low bits, for every width up to the supported maximum, every index and every value. No bit outside that entry changes, and the extended block table returns for every file the position, sizes and flags that were packed for it.",
 ["inputs"], "all widths, indices, values and table contents",
 "Tests build small archives whose entries happen to be byte aligned or of one width; the cross product of bit offset and width is not covered.",
 ["mopaq/src/builder.rs", "mopaq/src/tables/bet.rs"],
 [("write_bit_entry, calculate_bits_needed, create_bet_table", "mopaq/src/builder.rs"), ("BetTable::get_file_info, read_table_entry, extract_bits", "mopaq/src/tables/bet.rs")],
 ["BetTable::get_file_info"], "guarded wrappers for private functions")

prop("C09", "Archive headers are located and read back field for field in every version",
 "For every format version and every combination of field values, a header written in the format's little-endian layout reads back with exactly those values, and 64-bit sizes and table positions combine the low and high parts exactly. The header is found at the first 512-byte-aligned archive signature, or where a user-data header points, and data without a valid header is rejected with an error.",
 ["inputs", "configurations"], "all field values, all four versions, all prefix lengths in 512-byte steps, all user-data offsets",
 "Tests read a few synthetic headers; high-word combinations, later versions' fields and unusual prefixes are sampled only pointwise.",
 ["mopaq/src/header.rs", "mopaq/src/builder.rs"],
 [("MpqHeader::read, find_header, get_archive_size, get_hash_table_pos, get_block_table_pos", "mopaq/src/header.rs"), ("write_header", "mopaq/src/builder.rs")],
 ["mopaq::header::{find_header, MpqHeader}"])

prop("C10", "File positions above 4 GiB are assembled from low and high words without loss",
 "For every archive with classic tables the position reported for a file is the low 32-bit word plus 2^32 times the high 16-bit word of the same table index (zero when there is no such entry), plus the archive's own offset. Splitting a position for writing and reassembling it on reading is the identity for all 48-bit positions, and the table of high words is written exactly when some high word is non-zero. Archives with extended tables report the same positions.",
 ["inputs"], "all 48-bit positions, all indices, all table lengths",
 "No test creates a file above 4 GiB, so the high-word path is never executed with non-zero words.",
 ["mopaq/src/tables/block.rs", "mopaq/src/archive.rs", "mopaq/src/builder.rs"],
 [("HiBlockTable::get_file_pos_high, set, is_needed", "mopaq/src/tables/block.rs"), ("find_file_classic", "mopaq/src/archive.rs"), ("write_file, write_hi_block_table, create_bet_table", "mopaq/src/builder.rs")],
 ["Archive::find_file on a crafted archive", "HiBlockTable"])

prop("C11", "Every file put into an archive reads back byte for byte",
 "For every set of distinctly named files (the names the format reserves for itself, such as (listfile), (attributes) and (signature), aside) and every combination of format version, sector size, lossless per-file compression method, encryption, position-adjusted key and checksum generation that the builder accepts, building the archive, opening it and reading each file returns exactly the bytes that were added, under the original name and any case or slash variant of it. Names that were not added (the archive's own special files aside) are reported as not found.",
 ["inputs", "configurations"], "all file contents and sizes (empty, below, at and above sector boundaries, compressible or not), all option combinations",
 "Tests build a few archives with compressible text; sizes around sector boundaries combined with incompressible data, encryption and checksums are not enumerated.",
 ["mopaq/src/builder.rs", "mopaq/src/archive.rs"],
 [("write_file, write_archive, write_archive_with_het_bet", "mopaq/src/builder.rs"), ("find_file, read_file, read_sectored_file", "mopaq/src/archive.rs")],
 ["ArchiveBuilder::build then Archive::open, find_file, read_file"])

prop("C12", "Corruption of checksummed data is reported, never returned as good data",
 "When a file stored in one unit with a lossless method carries a checksum, reading it returns an error if the stored data no longer matches the checksum, for every change of the stored bytes that changes the content, and an undamaged file is never rejected. For version-4 archives the reported status of the header digest and of the digest of each table present is good exactly when the stored digest equals the digest of the bytes stored in the archive. Verifying a file through the C API succeeds exactly when the name is found, the file can be read where its checksums call for reading it, and its content has the CRC-32 and the MD5 that the archive's attributes record for it (each as far as it is recorded and asked for); verifying all files of an archive fails exactly when one of the files visited is damaged in this sense or the files cannot be listed.",
 ["inputs", "fault_sequences"], "all single-byte and multi-byte changes of stored file data, tables and header fields",
 "Tests flip one byte of one file; the position and kind of the damage, and its combination with compression and encryption, are not enumerated.",
 ["mopaq/src/archive.rs", "mopaq/src/builder.rs", "storm-ffi/src/lib.rs"],
 [("read_file (single unit), validate_v4_md5_checksums", "mopaq/src/archive.rs"), ("write_file, calculate_md5, finalize_v4_header_md5", "mopaq/src/builder.rs"), ("SFileVerifyFile, SFileVerifyArchive", "storm-ffi/src/lib.rs")],
 ["Archive::read_file", "Archive::get_info().md5_status", "SFileVerifyFile, SFileVerifyArchive"])

prop("C13", "Signatures are accepted exactly when padding and digest are right",
 "A weak signature is accepted exactly when its RSA-decoded block is the fixed PKCS#1 v1.5 padding with the MD5 prefix followed by the digest of the archive, and a strong signature exactly when its decoded block is the fixed padding followed by the SHA-1 digest; any other block, block length or digest is rejected without panicking. Signature files shorter than their format are rejected, and byte order is reversed exactly.",
 ["inputs"], "all decoded blocks, digests and signature file contents, including blocks with leading zero bytes",
 "Tests use a few hand-made blocks that are rejected; no test has an accepted signature, so an implementation that accepts too much or nothing at all passes.",
 ["mopaq/src/crypto/signature.rs", "mopaq/src/archive.rs"],
 [("verify_pkcs1_v15_md5, verify_mpq_strong_signature_padding, reverse_bytes, parse_weak_signature, parse_strong_signature", "mopaq/src/crypto/signature.rs")],
 ["mopaq::crypto::{verify_weak_signature_stormlib, parse_weak_signature, parse_strong_signature}"], "guarded wrappers for private functions")

prop("C14", "The signed digest covers exactly the archive range with the signature zeroed",
 "The digest used for weak signatures is the MD5 of exactly the bytes of the archive range, with the bytes of the excluded signature range replaced by zeros and nothing else changed, for every archive length, start, and exclusion range that does not end before it begins, including ranges that straddle the internal read buffer or lie partly or wholly outside the archive range.",
 ["inputs"], "all archive lengths, begin offsets and exclusion intervals",
 "Tests never compute the digest over more than one buffer or with an exclusion that straddles a buffer boundary.",
 ["mopaq/src/crypto/signature.rs"],
 [("calculate_mpq_hash_md5, SignatureInfo", "mopaq/src/crypto/signature.rs")],
 ["mopaq::crypto::calculate_mpq_hash_md5"])

prop("C15", "File attributes survive being written and read",
 "For every number of files an archive can have and every combination of attribute kinds, serialising an attribute table and parsing it for the same number of files returns the same checksum, time stamp, digest and patch flag for every file. An archive that contains such a table as its (attributes) file reports, once opened, exactly the table's values for every entry of its block table, unused entries included, and none past the last. Data too short for the kinds its header announces is rejected with an error instead of a panic or wrong values.",
 ["inputs", "configurations"], "all file counts, all sixteen kind combinations, all values, all truncations",
 "Tests parse one or two small tables; the patch-bit packing across byte boundaries and all kind combinations are not covered.",
 ["mopaq/src/special_files/attributes.rs", "mopaq/src/archive.rs"],
 [("Attributes::parse, Attributes::to_bytes", "mopaq/src/special_files/attributes.rs"), ("Archive::load_attributes, Archive::get_file_attributes", "mopaq/src/archive.rs")],
 ["mopaq::special_files::Attributes"])

prop("C16", "Hostile archive bytes produce errors, never panics or endless loops",
 "Whatever bytes an archive file, table, compressed sector or special file contains, opening it, looking names up, listing and reading files returns a value or an error: it never panics, overflows, indexes out of bounds or fails to terminate. (Memory in proportion to the sizes the archive itself declares is not limited by this.)",
 ["inputs"], "all byte strings given to the parsers and decoders",
 "Tests feed a few truncated or corrupted samples; header and table fields with extreme values are not enumerated.",
 ["mopaq/src/archive.rs", "mopaq/src/header.rs", "mopaq/src/tables/het.rs", "mopaq/src/tables/bet.rs", "mopaq/src/tables/hash.rs", "mopaq/src/compression/algorithms/adpcm.rs", "mopaq/src/compression/algorithms/sparse.rs", "mopaq/src/compression/algorithms/huffman.rs"],
 [("bounds and size checks in the readers", "mopaq/src/archive.rs, mopaq/src/tables/, mopaq/src/compression/algorithms/")],
 ["Archive::open, find_file, list, read_file", "mopaq::compression::decompress", "HetTable, BetTable"])

prop("C17", "The generated list of names reads back as the names that were added",
 "Parsing a list of names returns, in order, one name per non-empty, non-comment line, trimmed, with anything after a semicolon removed, for every input bytes. The list an archive is built with reads back as exactly the archive's file names plus the list's own name, so listing an archive returns each added name once, for every set of names free of the list's own separators. Enumerating the tables instead of the list (list_all, list_all_with_hashes) reports every stored file that a table entry names exactly once, with its sizes and flags; listing with hashes reports the same entries with the two hashes of each name; listing an archive that has no list reports every table entry of a stored file, in order, under a generated name.",
 ["inputs"], "all list contents (line endings, comments, metadata, invalid UTF-8) and all name sets",
 "Tests parse seven literal lists; mixtures of separators, blank lines and invalid bytes are not enumerated.",
 ["mopaq/src/special_files/listfile.rs", "mopaq/src/builder.rs", "mopaq/src/archive.rs"],
 [("parse_listfile", "mopaq/src/special_files/listfile.rs"), ("prepare_listfile", "mopaq/src/builder.rs"), ("list", "mopaq/src/archive.rs"), ("list_all", "mopaq/src/archive.rs"), ("list_with_hashes", "mopaq/src/archive.rs")],
 ["mopaq::special_files::parse_listfile", "Archive::list"])

prop("C18", "C API file handles read, seek and report exactly like a bounded file",
 "For every sequence of read, seek, size, info and close calls on a file handle, reads return the file's bytes from the current position up to the end and advance it by the number of bytes returned, seeks move to the requested position clamped to the file's end and refuse positions before the start without moving, and no call writes outside the buffer it was given. Calls on a null, closed or unknown file handle fail with the invalid-handle error, closing an archive invalidates its file handles, extracting a file writes exactly its content and reports success only then, enumerating passes each listed name that fits the mask to the callback once and in order until it refuses, and no single-threaded call sequence blocks forever.",
 ["histories", "inputs"], "all call sequences, all buffer sizes, all 64-bit seek offsets and methods",
 "The FFI tests only pass null and invalid arguments; no test reads or seeks through a handle.",
 ["storm-ffi/src/lib.rs"],
 [("SFileReadFile, SFileSetFilePointer, SFileGetFileSize, SFileGetFileInfo, SFileCloseFile, SFileCloseArchive, SFileExtractFile, SFileEnumFiles, SFileVerifyArchive", "storm-ffi/src/lib.rs")],
 ["the exported C functions"], None, [("FILES, ARCHIVES", "open handles", "storm-ffi/src/lib.rs")])

prop("C19", "Extraction never leaves the chosen output directory",
 "For every name stored in an archive, including names with parent components, absolute paths, drive prefixes and mixed slashes, everything the command-line tool writes when extracting lies inside the chosen output directory. When asked to keep the directory structure, a name without such components is extracted to exactly that path (separators being those of the platform), otherwise to its last component, and a name with no usable component is refused.",
 ["inputs"], "all archive names and output directories",
 "Tests only extract well-behaved names.",
 ["storm-cli/src/commands/file.rs"],
 [("extract, member_path", "storm-cli/src/commands/file.rs")],
 ["storm-cli file extract"])

prop("C20", "An interrupted or failed build leaves an existing archive untouched",
 "If building an archive over an existing file fails or is interrupted at any point, the previous file is still there with its previous content; only a completed build replaces it. This holds whether the build is asked for through the library, through the C API (where a disposition that forbids replacing never replaces) or through the command line.",
 ["crash_points", "fault_sequences"], "all failure points of a build",
 "Tests do not interrupt a build.",
 ["mopaq/src/builder.rs", "storm-ffi/src/lib.rs", "storm-cli/src/commands/archive.rs"], [("build (temporary file then persist)", "mopaq/src/builder.rs"), ("SFileCreateArchive", "storm-ffi/src/lib.rs"), ("create", "storm-cli/src/commands/archive.rs")], ["ArchiveBuilder::build", "SFileCreateArchive"])

prop("C21", "C API calls from several threads neither deadlock nor corrupt handle state",
 "Any interleaving of C API calls from several threads completes (callbacks that call back into the API included), and each call observes and changes the handle tables as if the calls ran one at a time; in particular handles are never given out twice, a file handle never outlives its archive, and a thread's error code is its own. (SFileEnumFiles and SFileVerifyArchive take the list of files in one step and then visit the files one call each.)",
 ["schedules"], "all interleavings of C API calls", "No test uses more than one thread.",
 ["storm-ffi/src/lib.rs"], [("global mutexes over handle tables", "storm-ffi/src/lib.rs")], ["the exported C functions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
