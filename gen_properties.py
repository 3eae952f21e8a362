#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that long statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe_at=None):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files[:3])} for m in mechanism]}
    if state: a["state"] = state
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
    assert len(title) <= 80, id
    P.append(d)

PKG = ["lib/pkg.c", "lib/pkg_create.c", "lib/bpak.c"]

p("C01", "An archive holds exactly what its operation history put in it",
  "After any sequence of adding files, keys and hash-tree protected files, deleting one or all parts, adding and removing metadata, and closing and reopening the archive, the archive lists exactly the parts and metadata the history left, in insertion order. Every part extracts to exactly the bytes that were added under that name, and each operation succeeds exactly when the documented rules (unique names, 32 slots, metadata space, hash-tree alignment, existing input) allow it. Deleting a part with its metadata removes exactly that part and the metadata that refers to it.",
  ["histories", "inputs"], "every finite history of archive operations over part names, contents of any size, flags, and metadata, with reopen at any point",
  "The test-suite runs a few fixed histories of two or three parts; it never interleaves deletion, reopen and re-adding with contents across chunk and alignment boundaries, nor compares every remaining part afterwards.",
  PKG, ["bpak_pkg_add_file / _add_key / _add_file_with_merkle_tree compute the new part's offset and append it", "bpak_pkg_delete_part moves the tail down and truncates", "bpak_pkg_extract_file copies one part out"])
p("C02", "Archive files are well formed and fully determined by the history",
  "After every successful operation the archive file is a 4096-byte header in the documented layout followed by the parts back to back in table order, each zero padded to a multiple of 512 bytes, with matching recorded sizes, offsets and padding, and nothing after the last part. Unused table entries, unused metadata space and reserved bytes are zero. Repeating the same history produces the same bytes, except for random salts, the root hashes derived from them, and signatures.",
  ["histories", "inputs"], "every history of archive operations; every byte of the resulting file",
  "Tests check selected header fields or whole-file hashes of single fixed archives; they cannot see stale or uninitialised bytes that depend on the previous history.",
  PKG, ["part_header size/offset/pad_bytes bookkeeping", "zero padding written after each part", "bpak_init_header, bpak_del_meta, bpak_del_part clear freed entries"])
p("C03", "Stored payload hash and header digest always equal their definition",
  "After every operation that changes the archive's parts, and whenever the hash is recomputed, the stored payload hash equals the archive's hash function applied to the stored bytes (with padding) of all parts not excluded from hashing, in order, and the reported header digest equals that hash function applied to the header with the signature area zeroed. Parts flagged as excluded never influence the payload hash and every included part always does. This holds for SHA-256, SHA-384 and SHA-512.",
  ["histories", "inputs", "configurations"], "every history of part operations, every mix of excluded and included parts, every hash kind",
  "Tests compare a handful of fixed archives with SHA-256 mostly; flags, sizes at chunk boundaries, excluded parts in every position and the other hash kinds are not combined.",
  ["lib/verify.c", "lib/pkg.c", "lib/mbedtls_wrapper.c", "lib/crypto.c"], ["bpak_verify_compute_payload_hash", "bpak_verify_compute_header_hash", "bpak_pkg_update_hash called by each mutating package operation"])
p("C04", "A rejected archive operation leaves the archive as it was",
  "When an operation on an archive is refused (unknown or duplicate part, missing or unreadable input, unsupported key, full part or metadata table, input that cannot carry a hash tree, missing origin, oversized signature), the archive file and the loaded header are left as they were. The archive can still be used, verified and reopened afterwards, and a part that was not added does not appear in it.",
  ["histories", "inputs", "fault_sequences"], "every history with refused operations at any point",
  "Tests assert only the error code of a few refused operations, on fresh archives, and do not look at what the failed operation left behind.",
  ["lib/pkg_create.c", "lib/pkg.c", "lib/bpak.c", "src/add.c"], ["error paths of the add operations after the part entry was allocated", "bpak_add_meta / bpak_add_part when there is no room"])
p("C05", "The metadata table behaves as a keyed store of byte strings",
  "Over any sequence of add, write, look up and delete, the metadata table behaves as a map from (identifier, referenced part) to a byte string of the requested size: lookups find the first matching entry or report its absence, duplicates and additions beyond 32 entries or 1920 bytes (entries aligned to 8) are refused. Adding, writing or deleting one entry never changes the contents, size or key of another entry or any byte outside the metadata area. Entries are stored in order, 8-byte aligned, disjoint and inside the area.",
  ["histories", "inputs"], "every sequence of metadata operations, all sizes 0..1920+, any slot deleted, full tables",
  "The unit tests delete one small entry and add until full once; content preservation of neighbours of different sizes after deletion, full tables and re-use of freed space are not sampled.",
  ["lib/bpak.c"], ["bpak_add_meta offset computation", "bpak_del_meta compaction"])
p("C06", "The part table behaves as an ordered keyed list with cumulative offsets",
  "Over any sequence of add and delete, the part table behaves as an insertion-ordered list of at most 32 uniquely identified entries: look-ups find exactly the present entries, deletion removes exactly one entry and keeps the order and contents of the others. The stored size of a part is its padded size, or its transport size when it is transport encoded, and the position of a part in the file is the header size plus the stored sizes of all earlier parts. The installed size of an archive is the sum of the padded sizes; its package size is the header plus, for each part, its transport size or else its size.",
  ["histories", "inputs"], "every sequence of part-table operations with any field values and transport flags",
  "Unit tests check one deletion and one offset; not tables of all fill levels, deletion in every slot, or mixtures of transport-encoded and plain parts.",
  ["lib/bpak.c", "lib/pkg.c"], ["bpak_add_part, bpak_get_part, bpak_del_part", "bpak_part_offset, bpak_part_size", "bpak_pkg_size, bpak_pkg_installed_size"])
p("C07", "Headers are accepted if and only if they are well formed",
  "A header is accepted exactly when its magic is right, every used part's padded size is a multiple of 512, the sizes and positions of all used parts together are representable, every used metadata entry lies inside the metadata area and a hash kind is set; anything else is reported with the corresponding error. A file that is not an archive (wrong magic, shorter than a header, empty and opened read-only) is refused when opened and is not modified by the attempt, while opening a new file for writing creates a valid empty archive.",
  ["inputs"], "every 4096-byte header and every file content and open mode",
  "Tests corrupt a single header byte once; they do not cover each rule at its boundary, in any slot, or combined, nor short files.",
  ["lib/bpak.c", "lib/pkg.c"], ["bpak_valid_header", "bpak_pkg_open"])
p("C08", "Whatever is signed verifies with the matching public key",
  "For any archive contents, any supported signing key (P-256, P-384, P-521, RSA-4096, PEM or DER) and any hash kind, signing succeeds and verification with the matching public key then succeeds, also after reopening, repeated signing and re-signing with another key. The stored signature is a standard signature over the header digest that an independent implementation accepts, stored with its exact length and zero fill. Signing changes nothing in the archive but the payload hash and the signature.",
  ["inputs", "histories", "configurations"], "every archive x key x hash kind x signing history",
  "Tests sign one empty or tiny archive per key kind with the default hash; ECDSA signature lengths vary at random and combinations with hash kinds, hash trees and re-signing are not covered.",
  ["lib/pkg_sign.c", "lib/pkg_verify.c", "lib/mbedtls_wrapper.c", "lib/verify.c"], ["bpak_pkg_sign", "bpak_pkg_verify", "bpak_mbed_sign / bpak_mbed_verify"])
p("C09", "Verification fails after any change to protected content or with a wrong key",
  "Once an archive is signed, changing any bit of the header outside the signature, of a part that is included in the hash, or of a part (or its stored tree) protected by a hash tree, makes verification fail, as do a changed, truncated, extended or missing signature and any other key. The same holds for changes made through archive operations until the archive is signed again. Changes to bytes that nothing protects (excluded parts without a tree, unused signature bytes, the padding of an excluded one-block tree) do not matter.",
  ["inputs", "histories"], "every archive, every bit position in it, every wrong key",
  "The corruption tests flip one byte at four fixed positions of one archive.",
  ["lib/pkg_verify.c", "lib/verify.c", "lib/merkle.c", "lib/mbedtls_wrapper.c"], ["bpak_pkg_verify", "bpak_verify_payload", "bpak_verify_merkle_tree"])
p("C10", "External signatures are equivalent to internal ones and stay within bounds",
  "Writing an externally produced signature over the exported digest is equivalent to signing internally: it is stored byte for byte with its length, replaces any earlier signature completely and verifies with the matching key. A signature that does not fit the 512-byte area is refused without touching the archive. Taking the signature out of a header returns exactly the stored bytes, clears them, and refuses impossible sizes or too small buffers.",
  ["inputs", "histories"], "every signature length 0..65535 and content, every history of re-signing and key-id changes",
  "Tests write one openssl signature of a valid length.",
  ["lib/pkg.c", "lib/bpak.c", "src/sign.c"], ["bpak_pkg_write_raw_signature", "bpak_copyz_signature", "bpak sign --signature"])
p("C11", "Transport encoding followed by decoding restores the archive byte for byte",
  "For any archive, any origin archive with the same package identity, and any assignment of transport codings to parts (delta with each compression, removal of a regenerable hash tree, or none), encoding then decoding against the same origin reproduces the original archive byte for byte, including header, payload, hash tree and signature. The encoded archive is itself a valid archive whose recorded transport sizes match the stored data. The origin and the inputs are not modified.",
  ["inputs", "configurations"], "every archive / origin pair, every coding assignment, every part order and size, through file API and streaming API",
  "The transport tests use a few fixed file pairs with two parts.",
  ["lib/transport_encode.c", "lib/transport_decode.c", "lib/pkg.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/merkle.c", "lib/heatshrink/heatshrink_encoder.c", "lib/heatshrink/heatshrink_decoder.c"], ["bpak_transport_encode", "bpak_transport_decode_start/_write_chunk/_finish", "bpak_pkg_transport_decode"])
p("C12", "Applying a delta to its origin always reproduces the target",
  "For any origin and any target byte string, including empty ones, and for every compression method, the delta computed from origin to target, applied to the origin, produces exactly the target and reports its exact length. Computing the delta reads only the two inputs, and the same inputs always give the same delta.",
  ["inputs", "configurations"], "every (origin, target) pair x compression x output offset",
  "Tests use four fixed file pairs of ordinary content; degenerate inputs (empty, one byte, periodic, disjoint, permuted) and large control values are not sampled.",
  ["lib/bsdiff.c", "lib/bspatch.c", "lib/sais.c", "lib/heatshrink/heatshrink_encoder.c", "lib/heatshrink/heatshrink_decoder.c"], ["suffix sorting, search and write_diff_extra_and_adjustment in bsdiff", "control/diff/extra state machine in bspatch", "compressor write/final and decompressor loops"])
p("C13", "Streaming results do not depend on how the input is chunked",
  "Applying a delta, decoding a transport stream, building a hash tree and hashing give the same output, the same length and the same verdict however the input is cut into chunks (including single bytes and empty chunks) and whatever legal working-buffer size is supplied. Output is written only inside the produced range, at the configured offset.",
  ["inputs", "schedules", "configurations"], "every chunking of every input x buffer sizes x output offsets",
  "Tests feed fixed chunk sizes; boundaries inside control blocks, compressed symbols and blocks are hit by luck only.",
  ["lib/bspatch.c", "lib/merkle.c", "lib/transport_decode.c", "lib/heatshrink/heatshrink_decoder.c", "lib/crypto.c"], ["bspatch_write state machine resumes at any byte", "bpak_merkle_write_chunk block accounting", "bspatch_hs_write / bspatch_lzma_write"])
p("C14", "Malformed deltas and transport archives are handled safely",
  "Applying an arbitrary or corrupted delta, or decoding an arbitrary or corrupted transport archive, terminates, never reads or writes outside its buffers, and asks its environment only for non-negative, bounded ranges. It never reports success for a part unless exactly the announced number of bytes was produced. The package decoder does not modify origin or input.",
  ["inputs"], "every byte string offered as a delta for each compression; every corruption of a transport archive",
  "No test feeds a damaged patch.",
  ["lib/bspatch.c", "lib/transport_decode.c", "lib/heatshrink/heatshrink_decoder.c", "lib/pkg.c"], ["control values parsed from the stream drive lengths and offsets", "bpak_transport_decode_finish compares produced and announced size"])
p("C15", "Transport coding refuses missing or foreign origins",
  "Encoding or decoding against an origin whose package identity differs, or is missing, fails with an error, and so does encoding or decoding a delta-coded part without an origin or with an origin that lacks that part. A failed decode never leaves an output that passes for the complete decoded archive, and codings that are unknown are refused. Archives without delta-coded parts need no origin.",
  ["inputs", "configurations"], "every pair of package identities, every presence/absence combination of origin, identity, part and coding",
  "Only the successful case with equal identities is tested.",
  ["lib/transport_encode.c", "lib/transport_decode.c", "lib/pkg.c", "src/transport.c"], ["package uuid comparison in bpak_transport_encode and bpak_transport_decode_set_origin", "origin checks before delta coding"])
p("C16", "Hash trees equal the dm-verity definition",
  "For any data whose length is a positive multiple of 4096 and any salt of up to 32 bytes, the generated tree, its levels' placement, its size and its root hash equal an independent construction of the dm-verity SHA-256 tree, and the size computed in advance equals the size produced. Lengths that are not multiples of the block size, over-long salts and inputs that need too many levels are refused, and so is supplying more or less data than announced, which never writes outside the tree. Adding a file with a hash tree stores exactly this tree, salt and root hash.",
  ["inputs"], "every data length and content, every salt, every output offset",
  "Tests compare a few sizes with precomputed hashes of constant data.",
  ["lib/merkle.c", "lib/pkg_create.c"], ["bpak_merkle_init level layout", "bpak_merkle_write_chunk leaf hashing", "bpak_merkle_finish inner levels and root", "bpak_merkle_compute_size"])
p("C17", "Hash-tree verification accepts exactly the consistent data",
  "Checking data against a stored hash tree succeeds when data, tree, salt and root hash belong together and fails when any bit of any of them is changed (save the padding of the tree of a single block, which the dm-verity definition does not use), when tree and data are swapped with those of another part, or when reading the data fails. This holds at any position of data and tree in the payload.",
  ["inputs"], "every data, every single or multiple corruption in data, tree, salt or root",
  "One test corrupts one tree byte.",
  ["lib/verify.c", "lib/merkle.c"], ["bpak_verify_merkle_tree recomputes the tree, compares each node and the root"])
p("C18", "The embedded compressor round-trips every stream",
  "Compressing any byte string and decompressing the result restores it exactly, however input and output are cut into pieces on both sides, and both sides always make progress and report completion exactly once all data has been delivered. Resetting an encoder or decoder makes it behave like a new one, and periodic data whose period fits the window is compressed.",
  ["inputs", "schedules"], "every input, every schedule of sink, poll and finish calls with any buffer sizes",
  "One unit test checks fixed buffers with one schedule.",
  ["lib/heatshrink/heatshrink_encoder.c", "lib/heatshrink/heatshrink_decoder.c", "include/bpak/heatshrink_decoder.h"], ["encoder state machine, search index and bit output", "decoder state machine, window and back-references"])
p("C19", "The embedded decompressor is total on arbitrary input",
  "Feeding arbitrary bytes to the decompressor in any schedule never reads or writes outside its buffers, always terminates, never reports more input taken or output produced than offered, and yields the same output for the same input under every schedule. Back-references produce only bytes that were output earlier or zeros.",
  ["inputs", "schedules"], "every byte string and every schedule",
  "No test feeds anything but the encoder's own output.",
  ["lib/heatshrink/heatshrink_decoder.c"], ["st_backref, get_bits, push_byte"])
p("C20", "Keystores yield exactly the key asked for",
  "Loading a key from a keystore archive succeeds exactly when the keystore identity matches, the caller's header check passes and the key exists and is a supported public key of any kind, and then returns that key unchanged under the requested id. Otherwise the matching error is returned and no key. Look-ups in a built-in keystore return the key with that id only when the keystore is marked verified.",
  ["inputs", "configurations"], "every keystore archive: keys, ids, identity metadata, damaged or oversized key parts",
  "Tests only generate one keystore and compile it.",
  ["lib/keystore.c", "lib/keystore_load_from_file.c", "lib/mbedtls_wrapper.c"], ["bpak_keystore_load_key_from_file", "bpak_keystore_get", "bpak_mbed_parse_public_key"])
p("C21", "Key files load to the same key whatever their encoding, or are refused",
  "Loading a supported public or private key from a PEM or DER file, or parsing it from memory, gives the same canonical key bytes, length and kind for every encoding; a private key always corresponds to its public key. Files and buffers that are not supported keys (other curves, other RSA sizes, damaged or arbitrary bytes) are refused with an error and without side effects.",
  ["inputs"], "every supported key in every encoding; every damaged or foreign key file",
  "Tests use the three curves' fixed files; damaged and unsupported keys are not tried.",
  ["lib/mbedtls_wrapper.c", "lib/crypto.c"], ["bpak_mbed_load_public_key", "bpak_mbed_load_private_key", "bpak_mbed_parse_public_key"])
p("C22", "Identifiers are the documented CRC of their names, everywhere",
  "The identifier of a name is the documented CRC-32 of its bytes, incrementally computable, and all built-in identifiers equal the identifiers of their documented names. The identifier of a part's hash tree is the identifier of the part name with '-hash-tree' appended and can be mapped back to its part in any archive. The command line prints the same identifiers and accepts hexadecimal identifiers in place of names.",
  ["inputs"], "every string; every split of it; every archive for the reverse mapping",
  "Tests check one or two strings.",
  ["lib/bpakcrc.c", "lib/id.c", "lib/utils.c", "src/generate.c", "src/misc.c"], ["bpak_crc32", "bpak_id", "bpak_part_id_to_hash_tree_id", "bpak_hash_tree_id_to_part_id"])
p("C23", "Text renderings are exact and stay within the given buffer",
  "Rendering bytes as hexadecimal, a UUID, or a metadata entry as text writes only inside the buffer it was given, always NUL-terminates on success, reads only the entry's own bytes, and renders exactly the stored value; when the buffer is too small or the entry is shorter than its type it reports an error or truncates safely.",
  ["inputs"], "every byte string, every metadata entry (id, size, contents, position), every buffer size from 0",
  "Tests only look at the output for well-formed entries with a large buffer.",
  ["lib/utils.c", "src/show.c", "src/compare.c", "ext/uuid/unparse.c"], ["bpak_bin2hex", "bpak_uuid_to_string", "bpak_meta_to_string"])
p("C24", "Reading arbitrary files as archives is safe and read-only",
  "Opening, listing, verifying, hashing, extracting from, comparing, generating a keystore from, loading a key out of or transport coding an arbitrary or corrupted file terminates with success or an error, never accesses memory outside its buffers, and never changes the file. Truncated payloads are reported as errors instead of yielding data.",
  ["inputs"], "every file content: random, structure-aware mutations of valid archives, truncations",
  "Tests use one corrupted header and two corrupted payloads.",
  ["lib/pkg.c", "lib/verify.c", "lib/pkg_verify.c", "lib/utils.c", "src/show.c", "src/compare.c", "src/extract.c", "src/generate.c", "lib/keystore_load_from_file.c"], ["sizes and offsets taken from the header drive reads and copies"])
p("C25", "Success means the data is stored: write failures are reported",
  "If the storage runs out or fails while an archive is created, extended, signed, encoded or decoded, or a part is extracted, at any byte position, the operation sequence up to and including closing reports an error. Whenever every step including closing reports success, the file holds exactly the intended contents.",
  ["fault_sequences", "histories"], "every operation sequence x every byte position at which writing starts to fail",
  "Tests never run with failing storage.",
  ["lib/pkg.c", "lib/pkg_create.c", "lib/pkg_sign.c", "lib/transport_encode.c", "src/extract.c", "src/transport.c"], ["buffered writes are checked when they are issued, flushed or closed"])
p("C26", "No operation leaks memory, descriptors or mappings",
  "Every library operation, whether it succeeds or fails and on whatever input, leaves no memory, file descriptor or mapping allocated beyond what its contract hands to the caller, and after the caller releases those nothing remains.",
  ["histories", "inputs", "fault_sequences"], "every operation in its success and failure modes, repeated any number of times",
  "Tests run once and do not count resources.",
  ["lib/pkg.c", "lib/pkg_create.c", "lib/mbedtls_wrapper.c", "lib/transport_encode.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/keystore_load_from_file.c"], ["error and success exits free their contexts"])
p("C27", "The command line does what the library does, and its exit code tells",
  "For any sequence of create, add, delete, extract, set, sign, verify and transport commands the resulting archive is the one the documented meaning of the commands prescribes, extracted files contain exactly the stored part, and the exit status is zero exactly when the command had its effect. A command that fails changes neither the archive nor files it did not create.",
  ["histories", "inputs", "configurations"], "every sequence of command lines with any combination of documented options",
  "The shell tests run short fixed scripts and grep for a few lines.",
  ["src/add.c", "src/create.c", "src/delete.c", "src/extract.c", "src/sign.c", "src/transport.c", "src/main.c"], ["option parsing and dispatch in each action_*"])
p("C28", "Metadata set on the command line is stored and shown faithfully",
  "Metadata added or set from a string, integer, UUID or identifier is stored in the documented binary encoding of exactly that value, shown back as the same value, and replacing a value changes only that entry; key id and keystore id changes change only those fields. Values that do not parse or fit are refused with an error and without changing the archive.",
  ["inputs", "histories"], "every value and encoder, every combination of set options, on any archive",
  "Tests set one string and one integer.",
  ["src/set.c", "src/add.c", "src/show.c", "lib/utils.c"], ["encoders in add.c and set.c", "bpak_meta_to_string and show's listings"])
p("C29", "Archive comparison reports exactly the differences",
  "Comparing two archives marks every metadata entry and part of either as equal, different, or present in only one of them, exactly as their contents are, once each, whatever order they are stored in. Comparing an archive with itself or a copy reports no difference, and swapping the arguments swaps the two 'only in' marks.",
  ["inputs"], "every pair of archives",
  "No test compares two archives with differing parts.",
  ["src/compare.c"], ["action_compare walks both tables and hashes parts"])
p("C30", "Generated keystore code equals the keystore archive",
  "The C source generated from a keystore archive compiles and defines exactly the archive's keys, in order: same ids, kinds, sizes and bytes, the documented keystore id and count; archives that are not keystores or hold unsupported keys are refused without output that passes for a keystore.",
  ["inputs", "configurations"], "every keystore archive and name, with and without decoration options",
  "One fixed keystore is generated and compiled in tests.",
  ["src/generate.c", "lib/keystore.c"], ["generate_keystore emits one table per key part"])
p("C31", "The Python API behaves like the archive model",
  "Through the Python package API any history of adding, deleting, reading and iterating parts and metadata, changing ids, hashing, signing, verifying and transport coding gives the same archive and the same values as the archive model prescribes, and refused operations raise the package's error and change nothing. The log function set last, and no other, gets every message as a level and a text, and nothing it does changes a result.",
  ["histories", "inputs"], "every sequence of Python API calls with any argument values of the documented types",
  "The Python tests are three short scripts.",
  ["python/package.c", "python/part.c", "python/meta.c", "python/python_wrapper.c"], ["wrapper methods translate to library calls and keep the header in sync"])
p("C32", "Misusing the Python API raises exceptions and never corrupts the process",
  "No sequence of Python calls, including wrong argument types or values, operations on closed packages, failing constructors, entries that were deleted while still referenced, oversized data and arbitrary archive files, crashes the interpreter or touches memory it does not own; it either works as specified or raises an exception.",
  ["histories", "inputs"], "every sequence of API calls with arbitrary arguments and object lifetimes",
  "Tests use the API correctly only.",
  ["python/package.c", "python/part.c", "python/meta.c", "python/python_wrapper.c"], ["argument parsing, object lifetime and reference handling in the wrapper"])
p("C33", "Deltas between similar contents are small",
  "When the target is the origin with a few local edits, moved or repeated blocks, the compressed delta is proportional to the amount of new content and number of edits, not to the size of the target, and no delta is ever larger than the target plus a bounded overhead. Unchanged content costs only its compressed run of zeros.",
  ["inputs"], "every origin and every sequence of edits applied to it, each compression",
  "Tests check only that patches apply (and equal a stored one for one pair).",
  ["lib/bsdiff.c", "lib/sais.c", "lib/heatshrink/heatshrink_encoder.c"], ["suffix array and binary search find the longest match", "extension and overlap scoring"])
p("C34", "Errors from callbacks, allocators and crypto backends are always surfaced",
  "When any user-supplied read, write, hash, signature, key or allocation callback fails or transfers less than asked, at any call of any operation that uses it (delta, patch, hash tree, payload verification, transport coding, hashing, signing, adding files and keys, keystore loading), the operation reports an error for that run instead of success, and it can be released safely afterwards. Hash trees, patches and streaming decoding stay safe when their caller carries on after a failed call (retries it, goes on with the next piece, starts the part again): whatever then ends in success is exact.",
  ["fault_sequences", "inputs"], "every operation x every index of the failing call x kind of failure",
  "Tests never inject callback failures.",
  ["lib/bsdiff.c", "lib/bspatch.c", "lib/merkle.c", "lib/verify.c", "lib/transport_decode.c", "lib/crypto.c"], ["return values of read/write callbacks and of the hash backend are checked"])
p("C35", "An interrupted operation leaves no wrong archive that passes for a right one",
  "If the process ends at any point while an archive is being modified (between two file operations, or in the middle of writing part data), the file left behind is recognisably incomplete (it cannot be opened, lists parts that are not there, or its payload hash does not match), or it is the archive as it was before or after the operation or a completed step of it, in everything the payload hash covers. Operations that only add (parts, hash trees, keys, metadata, ids, signatures) leave a sound archive at every point, in which all earlier parts and metadata are intact and with which work can go on. Transport encoding and decoding never change their inputs, and an interrupted output never passes for, or decodes to, a complete archive with other contents.",
  ["crash_points", "histories"], "every archive x every history x every point at which the process ends (buffered data lost or written, writes of part data done in part)",
  "Tests never interrupt an operation.",
  ["lib/pkg.c", "lib/pkg_create.c", "lib/pkg_sign.c", "lib/transport_encode.c", "lib/transport_decode.c", "src/add.c", "src/set.c"], ["the header is written after the data it describes", "part data is appended behind the data of other parts"])
p("C36", "Operations on different archives and contexts do not influence each other",
  "The result of an operation depends on its inputs only: not on what was done before, on other archives that are open, on other deltas, patches, hash trees or decoders in progress, and not on operations run from within its callbacks, allocator, backends or between any two of its file accesses. Texts handed out by the library stay what they are.",
  ["schedules", "histories"], "every set of operations on disjoint files and contexts x every point at which one is interrupted by another",
  "Tests run one operation at a time.",
  ["lib/pkg.c", "lib/verify.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/merkle.c", "lib/transport_decode.c", "lib/heatshrink", "lib/mbedtls_wrapper.c"], ["all state is in the contexts of the caller; no static buffers"])
p("C37", "Hashing, signing, keys and memory use exactly the functions the user installed",
  "Once a user has installed own hash, signature and key functions, every payload hash, header digest, part hash, hash tree, signature, verification and key load or parse is done with them: stored hashes and trees, the digests given to the signature functions and the verdicts are theirs. They get the digest, hash kind, key and signature that belong to the archive, and hash contexts are used in order (initialised, updated, finished, each released exactly once). Without one of the functions the operations that need it are refused and change nothing, and all others work. Once an allocator is installed, all memory the library takes comes from it and goes back to it, and half an allocator is refused.",
  ["inputs", "histories"], "every archive, history, hash kind and set of installed functions",
  "Tests use the built-in functions only.",
  ["lib/crypto.c", "lib/verify.c", "lib/pkg_verify.c", "lib/pkg_sign.c", "lib/pkg_create.c", "lib/merkle.c", "lib/transport_decode.c", "lib/keystore_load_from_file.c"], ["function pointers and their checks", "arguments given to them"])
p("C38", "Command lines mean what is documented, or are refused with a message",
  "Every command takes its options in any order, short, long, joined or clustered, mixed with file names, with the same meaning; every option that a command's help lists or the user guide uses is accepted; an option's argument is never taken for an option. The first of a help option, an unknown option or a missing argument decides: help prints the usage of the command (of the tool, or its version, at top level) and succeeds, the others are refused, and none of these command lines touches a file. Unknown commands and generators, missing file names and missing or contradictory required options are refused without touching a file. A command that ends with a non-zero status says why on standard error. Verbosity changes neither status nor files, and removes nothing from what is printed.",
  ["inputs"], "every command x every subset, order and spelling of its options and words",
  "Tests run a few fixed command lines.",
  ["src/main.c", "src/add.c", "src/set.c", "src/show.c", "src/create.c", "src/delete.c", "src/extract.c", "src/compare.c", "src/generate.c", "src/sign.c", "src/verify.c", "src/transport.c"], ["option tables of the commands", "checks of required options before the archive is opened"])
p("C39", "A reduced build does what the full library does, or refuses",
  "The library can be built without LZMA, without hash trees, without mbedTLS, or as the minimal library. Each such build can be made, and what it does (deltas and patches, transport coding, trees, verification, archive histories, keystores, header operations, ids, texts) has the same result and the same output as with the full library, given the same hash, signature and key functions. What needs the part that is left out is refused, never done differently: an LZMA delta, a regenerated hash tree, hashing, signing or key loading without functions for them. Without hash trees, verification judges by the payload hash.",
  ["inputs", "histories"], "every configuration x every input and history",
  "Tests use the full library only.",
  ["lib/build_config.h.in", "lib/bsdiff.c", "lib/bspatch.c", "lib/transport_decode.c", "lib/verify.c", "lib/pkg_create.c", "lib/crypto.c", "lib/CMakeLists.txt"], ["BPAK_CONFIG_LZMA, BPAK_CONFIG_MERKLE and BPAK_CONFIG_MBEDTLS", "LIB_SRC_FILES of the minimal build"])
p("C40", "What a device accepts as an update is exactly a published release",
  "A vendor publishes releases of a product (signed with keys of a keystore that is signed by a root key) and delivers them complete or transport encoded against what the device has. A device that verifies the keystore with the root key, decodes the delivery against the installed archive (by file, by stream or with the tool), verifies the result with the key it names and checks the package id ends up with the published archive, byte for byte. Whatever happens on the way to the delivery, the keystore or the installed archive (damage, cuts, parts, headers or metadata of other releases, hashes or signatures made anew with other keys, other key ids, changed part flags), the device either refuses or has an archive whose header and protected part data are those of a published release; it never changes the installed archive or the delivery.",
  ["inputs", "histories"], "every product, key set, sequence of releases and updates, and every change on the way",
  "Tests verify and decode single archives; no test follows an update through a keystore, and none tampers with one.",
  ["lib/pkg_verify.c", "lib/verify.c", "lib/keystore_load_from_file.c", "lib/transport_decode.c", "lib/transport_encode.c", "src/sign.c", "src/transport.c", "docs/ug/01_basics.rst", "docs/ug/05_keystores.rst"], ["verification after decoding", "key selection by keystore id and key id", "header digest covers flags, tables and metadata"])
p("C41", "Device-side work needs constant memory and time in proportion to the data",
  "Verifying an archive or a hash tree, making a hash tree, applying a delta, transport decoding (by stream or file), and opening, hashing, extracting, adding, deleting and signing need an amount of heap and stack that does not depend on the size of the data, and read, write and compute at most in proportion to it: data many times as big needs no more memory, and moves and takes no more than that many times as much. (Adding a file with a hash tree holds the tree, 1/128 of the data, in memory.)",
  ["inputs", "configurations"], "every kind of content, size, hash kind, compression and chunking",
  "Tests check results on small data, not what it takes to get them.",
  ["lib/verify.c", "lib/merkle.c", "lib/bspatch.c", "lib/transport_decode.c", "lib/pkg.c", "lib/pkg_create.c", "lib/pkg_verify.c"], ["fixed chunk buffers (BPAK_CHUNK_BUFFER_LENGTH)", "decoder state in the caller's context and buffer"])
p("C42", "Independent operations can run at the same time in several threads",
  "Operations on different files and contexts (deltas, patches, hash trees, verification, transport coding, archive histories with hashing and signing, keystores, texts and ids) can run at the same time in different threads once logging, allocation and backends are set up: each gives the results it gives alone, and no memory is used by two threads without order.",
  ["schedules", "inputs"], "every set of operations on disjoint files and contexts x every interleaving of their threads",
  "Tests run in one thread.",
  ["lib/pkg.c", "lib/verify.c", "lib/bsdiff.c", "lib/bspatch.c", "lib/merkle.c", "lib/transport_decode.c", "lib/bpakcrc.c", "lib/id.c", "lib/mbedtls_wrapper.c", "lib/mem.c"], ["all state is in the contexts of the caller; global state is written by the setup functions only"])
p("C43", "Sizes and offsets beyond 2 and 4 GiB are handled exactly",
  "Archives, parts and streams may be bigger than 2 or 4 GiB. Adding, extracting and deleting parts, payload hashes, verification, hash trees, transport encoding and decoding (by files and by streams) and deltas give the same result as their definition on data of any size and at any position: nothing is cut off, wraps around or ends up elsewhere, recorded sizes and offsets are the true ones, and a changed byte anywhere in protected data is noticed.",
  ["inputs", "histories"], "every archive history, tree, delta and stream with sizes and positions around and beyond 2^31, 2^32 and 2^33",
  "Tests use files of a few KiB to MiB, so that 32-bit arithmetic gives the same results.",
  ["lib/pkg.c", "lib/pkg_create.c", "lib/verify.c", "lib/merkle.c", "lib/bspatch.c", "lib/transport_decode.c", "lib/transport_encode.c", "lib/utils.c", "include/bpak/bpak.h"], ["64-bit sizes and offsets in part headers", "off_t positions of bpak_io_t callbacks and stdio streams", "copy loops over whole parts"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
