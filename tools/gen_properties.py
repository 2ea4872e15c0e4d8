#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mechanism],
            observe_at=observe, hook_needed=None)))

p("C01", "Saving a database and reopening it gives back the same database",
  "For every database content and every supported combination of outer cipher, compression, KDF, inner stream cipher and credentials, a save that reports success produces an archive that opens and unlocks with those credentials to a database equal to the one saved: same meta data, groups, entries, fields, protection flags, history and times, in the same order. Only three things may differ: the generator name is that of this library, times are kept to whole seconds, and an empty value is the same as an absent one. The size of the database makes no difference.",
  ["inputs","configurations"], "all databases (tree shapes, strings, times, protected values, sizes from empty to several MiB) x ciphers x compression x KDF x inner cipher x credentials",
  "round_trip.rs saves one tiny database with default settings (AES-256, no compression, Argon2); compression, other ciphers, sizes beyond one 1 MiB block, whitespace, history, nesting and AES-KDF are never saved by any test.",
  ["src/binary/kdbx.rs","src/stream/pipeline.rs","src/stream/hmac.rs","src/stream/block_cipher.rs","src/stream/stream_cipher.rs","src/xml/serialize.rs","src/xml/parse.rs"],
  [("write pipeline: gzip -> cipher -> HMAC blocks","src/stream/pipeline.rs kdbx4_write_stream"),("read pipeline: HMAC blocks -> cipher -> gunzip","src/stream/pipeline.rs kdbx4_read_stream"),("XML writer/parser pair","src/xml/serialize.rs, src/xml/parse.rs")],
  ["Kdbx::from_database, set_key, write","from_reader, unlock, database()"])

p("C02", "Saved archives follow the KDBX 4 format, so other clients read them",
  "Every archive this library saves is a well-formed KDBX 4 file as described in the project's format documentation: an independent reader that derives the keys from the credentials, checks the header checksum, the header HMAC and every block HMAC, decrypts, decompresses and reads the inner header and the XML recovers exactly the saved content and settings. The block sequence is correctly numbered and ends with an authenticated empty block, and the XML handed out for the reopened archive is exactly the decrypted payload, with nothing added or missing.",
  ["inputs","configurations"], "all databases x all supported header settings x all credentials",
  "Tests only read back with the same library, so any error made symmetrically in reader and writer is invisible; no test decodes an output file independently.",
  ["src/binary/kdbx.rs","src/binary/header.rs","src/binary/header_fields.rs","src/binary/variant_dict.rs","src/crypto.rs","src/stream/hmac.rs","docs/kdbx.md"],
  [("header serialisation and checksums","src/binary/header.rs KdbxHeader::write, src/binary/kdbx.rs write"),("key derivation","src/crypto.rs"),("block HMAC numbering","src/stream/hmac.rs HmacWriter")],
  ["bytes produced by Kdbx::write","raw_xml()"])

p("C03", "Every conforming KDBX 4 file opens with exactly its content",
  "Any file that conforms to KDBX 4 and uses supported algorithms opens and unlocks with its credentials, and the database, header settings and raw XML obtained are exactly what the file encodes. This does not depend on choices the format leaves to the writer: order of header fields and dictionary entries, size and number of data blocks, minor version, extra header fields, the encoding of the KDF identifier, XML layout and the order of XML elements.",
  ["inputs","configurations"], "all conforming KDBX 4 files: contents x algorithms x every freedom the format leaves to the writer",
  "Tests read a handful of fixture files produced by two clients with one block each and one layout; block sizes, header orders and most algorithm combinations are never seen.",
  ["src/binary/read.rs","src/binary/header.rs","src/binary/header_fields.rs","src/binary/variant_dict.rs","src/stream/hmac.rs","src/stream/block_cipher.rs","src/xml/parse.rs","docs/kdbx.md"],
  [("TLV header parsing","src/binary/header.rs HeaderParser"),("block reassembly across HMAC blocks","src/stream/hmac.rs HMacReader"),("XML parser","src/xml/parse.rs")],
  ["from_reader, header(), unlock, database(), raw_xml()"])

p("C04", "KDBX 3.1 files open faithfully, and damage to them is noticed",
  "Every conforming KDBX 3.1 file, compressed or not, with any supported cipher and inner stream cipher and any division into hashed blocks, opens with its credentials to exactly the content it encodes. If any byte of the encrypted payload is altered or the file is cut short, or a header that the encrypted content carries a hash of is altered, the file is rejected instead of yielding different content.",
  ["inputs","configurations","fault_sequences"], "all conforming KDBX 3.1 files x single-byte corruptions and truncations",
  "The only KDBX 3 test reads the header of one fixture; no test ever unlocks a KDBX 3 file or corrupts one.",
  ["src/binary/kdbx.rs","src/stream/kdbx3.rs","src/stream/pipeline.rs","src/binary/header.rs","src/xml/decoders.rs","docs/kdbx.md"],
  [("hashed block reader","src/stream/kdbx3.rs"),("start bytes check","src/stream/pipeline.rs kdbx3_read_stream"),("legacy header fields","src/binary/header.rs get_kdf_params, from_legacy_fields")],
  ["from_reader, unlock, database()"])

p("C05", "An archive unlocks with its own credentials and with no others",
  "An archive unlocks if and only if the credentials given combine to the same composite key (password hash, then key file hash, each only when present) as those it was locked with. Any other credentials are refused with the error that signals wrong credentials, and the refusal hands back the locked archive unchanged, so that after any number of failed attempts the right credentials still unlock it.",
  ["inputs","histories"], "all pairs of credentials (absent/empty/Unicode/long passwords, absent/empty/binary key files) x format versions x sequences of attempts",
  "Tests only ever supply the right credentials; wrong keys, swapped or missing components and retry after failure are untested.",
  ["src/crypto.rs","src/binary/kdbx.rs","src/stream/pipeline.rs"],
  [("composite key hashing","src/crypto.rs CompositeKey::composed"),("header HMAC check (KDBX 4), start bytes (KDBX 3)","src/binary/kdbx.rs unlock_v4, src/stream/pipeline.rs kdbx3_read_stream"),("FailedUnlock returns the archive","src/binary/kdbx.rs")],
  ["Kdbx<Locked>::unlock, FailedUnlock"])

p("C06", "No altered or truncated KDBX 4 archive ever unlocks",
  "If any byte of a KDBX 4 archive, from its first byte to the end of its terminating block, is altered, removed or inserted, or its data blocks are reordered, duplicated, dropped or taken from an archive with other seeds or credentials, opening or unlocking with the right credentials fails: it never yields a database. Nothing that was not authenticated is ever returned.",
  ["inputs","fault_sequences"], "all archives x all byte-level edits, truncation points and block-level rearrangements",
  "No test ever opens a corrupted file.",
  ["src/stream/hmac.rs","src/crypto.rs","src/binary/header.rs","src/binary/kdbx.rs","src/stream/pipeline.rs"],
  [("per-block HMAC with block index and length","src/crypto.rs verify_data_block, src/stream/hmac.rs"),("header HMAC and SHA-256","src/binary/kdbx.rs unlock_v4, src/binary/header.rs read")],
  ["from_reader, unlock"])

p("C07", "Malformed input is rejected cleanly: no panic, crash or endless loop",
  "For every byte sequence offered as an archive, with any credentials, and every byte sequence offered as database XML, the library terminates with either an error or a usable database: it never panics, aborts or loops forever (the work its KDF settings ask for excepted). This includes files whose checksums and HMACs are right but whose header fields, dictionaries, payload or XML are malformed. Every accessor works on a database obtained this way.",
  ["inputs"], "all byte strings, in particular mutations of valid files at every layer (header, dictionaries, blocks, inner header, XML) with checksums repaired",
  "Tests only feed well-formed files.",
  ["src/binary/header.rs","src/binary/header_fields.rs","src/binary/variant_dict.rs","src/binary/kdbx.rs","src/crypto.rs","src/stream","src/xml/parse.rs","src/xml/decoders.rs"],
  [("error returns in every parser","src/binary/*.rs, src/xml/*.rs")],
  ["from_reader, unlock, parse_xml, decode_datetime, decode_uuid, Database accessors"])

p("C08", "Memory used to open a file is bounded by the size of the file",
  "Length fields inside a file are not trusted: the memory used to open and unlock a file stays within a small constant plus a small multiple of the number of bytes actually supplied, whatever lengths the file claims. The memory cost its KDF settings ask for and the size of compressed content that really is there are excepted.",
  ["inputs"], "all files, in particular short files claiming huge header fields, dictionary entries or data blocks",
  "No test measures memory or offers a file whose length fields lie.",
  ["src/binary/header.rs","src/binary/variant_dict.rs","src/stream/hmac.rs","src/stream/kdbx3.rs","src/utils.rs"],
  [("reads limited by available input","src/binary/header.rs read_one_header, src/binary/variant_dict.rs, src/stream/hmac.rs, src/stream/kdbx3.rs")],
  ["peak heap during from_reader / unlock"])

p("C09", "Opening does not depend on how the source delivers its bytes",
  "Opening an archive from a stream gives the same result (same locked archive, same unlocked content, or same kind of rejection) however the stream splits its data into reads, including one byte at a time and reads interrupted and retried. If the stream reports an error before its end, opening reports that error and never returns an archive.",
  ["inputs","schedules","fault_sequences"], "all files x all ways of chunking reads x all positions of interruptions and I/O errors",
  "Tests read from a File or a slice, which deliver everything at once.",
  ["src/utils.rs","src/binary/read.rs","src/binary/header.rs"],
  [("header caching for the checksum","src/utils.rs CachingReader"),("read_exact/read_to_end loops","src/binary/read.rs")],
  ["from_reader with a scripted Read"])

p("C10", "A save reports success only if the sink took the complete archive",
  "Whatever way the output accepts data (partial writes, interruptions), a successful save has delivered exactly one complete, readable archive; if the output fails at any byte, the save reports an error and does not panic. A save never alters the archive in memory, so a later save to a working output succeeds with the same content.",
  ["fault_sequences","schedules","inputs"], "all archives x all chunkings of writes x every failure position",
  "Tests write only to a Vec, which never fails or writes partially.",
  ["src/binary/kdbx.rs","src/stream/hmac.rs","src/stream/pipeline.rs"],
  [("write_all and error propagation","src/binary/kdbx.rs KdbxState::write")],
  ["Kdbx::write with a scripted Write"])

p("C11", "Protected values stay protected and decrypt in document order",
  "In the XML payload of a saved archive every value marked as protected appears only encrypted with the inner stream cipher, all protected values sharing one keystream in document order, and unprotected values appear as they are. Reading applies the same rule for every supported inner cipher. Whether a value is protected survives saving, reopening, clearing and refilling it, also when it is empty.",
  ["inputs","histories","configurations"], "all databases mixing protected and plain values of all lengths in fields, history and custom data x inner ciphers x sequences of field edits",
  "The golden XML test has one protected value under one key; keystream continuity, Salsa20, empty protected values and protection after clear/refill are not tested.",
  ["src/xml/serialize.rs","src/xml/parse.rs","src/stream/random.rs","src/database.rs"],
  [("keystream applied while writing/parsing","src/xml/serialize.rs write_field, src/xml/parse.rs parse_field"),("inner cipher set-up","src/stream/random.rs"),("protection state of a field","src/database.rs Field")],
  ["raw_xml(), Field::protected, Field::value"])

p("C12", "XML export and import are lossless for every text, or refused",
  "Writing a database as XML and parsing the result with the same stream cipher (or with none) gives back the same database for every text in any name, key, value or description: markup characters, white space at any position, line breaks, any Unicode. A text that XML cannot carry makes the export fail with an error; an export that succeeds never produces a document that cannot be read back or reads back differently.",
  ["inputs"], "all databases over all Unicode strings x stream ciphers",
  "One golden file with ASCII names is compared; no test parses exported XML or uses unusual text.",
  ["src/xml/serialize.rs","src/xml/parse.rs","src/utils.rs"],
  [("escaping and refusal in the writer","src/xml/serialize.rs"),("text collection in the parser","src/xml/parse.rs parse_string")],
  ["write_xml, parse_xml, NullStreamCipher"])

p("C13", "Unknown XML content never disturbs the data the library understands",
  "Elements, attributes, comments, CDATA sections and processing instructions that the library does not model may appear anywhere in the XML that other clients may put them, in any order, including protected values inside unknown elements, and the groups, entries, fields, history, times and meta data that the library does model are read exactly as if they were absent. Only the unmodelled parts themselves are ignored.",
  ["inputs"], "all documents obtained by inserting foreign content at every allowed position of a valid document",
  "Fixtures contain only the foreign elements two clients happened to write, and none with protected values outside entry fields.",
  ["src/xml/parse.rs"],
  [("catch-all arms of the element loops","src/xml/parse.rs parse_* functions")],
  ["parse_xml, unlock"])

p("C14", "Group tree operations behave like a plain tree of groups and entries",
  "After any sequence of adding, removing, moving, editing and replacing groups and entries, the tree contains exactly the groups and entries a plain model of the same sequence contains, in insertion order. Removal takes out only the first direct child with the given identifier and returns it; recursive iteration visits every descendant exactly once; searching finds a match if and only if one exists and returns the first one (a group's own entries before those of its child groups, a child group before its own descendants, siblings in order), and the mutable and immutable forms agree.",
  ["histories"], "all sequences of tree operations, with duplicate identifiers and arbitrary nesting",
  "Doc tests show one move and one search on a two-level tree.",
  ["src/database.rs"],
  [("Group and Database methods","src/database.rs")],
  ["Database/Group public methods"])

p("C15", "Entry fields and history behave like ordered lists with keyed lookup",
  "After any sequence of field and history operations on an entry, its fields are exactly those of a plain ordered-list model: lookups return the first field with the key, convenience setters change that field or append one and leave all others alone, removing a key removes all its fields. Recording a version appends a copy of the current state, without its history, and changes nothing else, and later edits never alter recorded versions.",
  ["histories"], "all sequences of field and history operations with duplicate keys",
  "Tests set each field once and never remove, duplicate or version an entry.",
  ["src/database.rs"],
  [("Entry, Field and History methods","src/database.rs")],
  ["Entry/Field/History public methods"])

p("C16", "Writing a locked archive copies it unchanged",
  "Writing an archive that was opened but not unlocked produces an archive that is equivalent to the original: it opens with the same header information and unlocks with the same credentials to the same content, for every format version. If the header of the locked archive was changed in between, so that its signature can no longer be valid, the write is refused rather than producing an archive that cannot be unlocked.",
  ["inputs","configurations"], "all KDBX 3.1 and 4 archives, from any conforming writer",
  "No test writes a locked archive.",
  ["src/binary/kdbx.rs","src/binary/header.rs"],
  [("Locked write","src/binary/kdbx.rs impl KdbxState for Locked")],
  ["Kdbx<Locked>::write"])

p("C17", "Every successful save in an archive's life reopens with its current key",
  "Through any history of opening, editing, re-keying, changing cipher, IV, compression, KDF and seeds, and saving, each save that reports success reopens with exactly the credentials last set (or opened with), to the database as last edited and with the settings last chosen, and not with credentials that were replaced. Saving without credentials, or an archive of a format version that can only be read, is refused.",
  ["histories","configurations"], "all sequences of open / edit / set key / change settings / save / reopen",
  "Tests save once, right after setting the key, and never save an archive that was opened.",
  ["src/binary/kdbx.rs","src/crypto.rs"],
  [("master key kept with the archive","src/binary/kdbx.rs Unlocked"),("set_key","src/binary/kdbx.rs")],
  ["set_key, header_mut, write, from_reader, unlock"],
  [("master key","key derived from the credentials under the KDF settings","src/binary/kdbx.rs Unlocked")])

p("C18", "New archives get fresh secrets of the right size",
  "Every newly created archive gets its own master seed, IV, KDF salt and inner stream key from the operating system's random source: no two archives share one, every byte position varies, and the sizes and defaults are the documented ones. New groups and entries get distinct identifiers.",
  ["inputs","histories"], "all sets of newly created archives, groups and entries",
  "No test looks at the generated secrets at all.",
  ["src/binary/header.rs","src/database.rs"],
  [("OsRng fills seeds","src/binary/header.rs from_os_random"),("Uuid::new_v4","src/database.rs")],
  ["Kdbx::from_database, header(), inner_header()"])

p("C19", "Identifier and time codecs are exact inverses and total",
  "Encoding then decoding an identifier or a time (to the second, for every representable date) gives it back, the encodings are the documented ones (base64 of the 16 bytes; base64 of the little-endian seconds since year 1), ISO 8601 times with any offset decode to the corresponding UTC time, and no text makes decoding panic. Times assigned to new items are the current UTC time in whole seconds, whatever the time zone of the machine.",
  ["inputs"], "all UUIDs, all representable dates, all strings",
  "Only the few dates in fixtures are decoded.",
  ["src/xml/decoders.rs","src/database.rs"],
  [("encode/decode functions","src/xml/decoders.rs"),("Times::default","src/database.rs")],
  ["encode_uuid, decode_uuid, encode_datetime, decode_datetime, Times::default"])

p("C20", "One-time-password settings read back as stored",
  "Settings created from a base32 secret (padded or not), a period and a digit count report exactly that secret, period and digit count, also after being stored in an entry, saved and reopened, and are stored as a protected value. For any otpauth URL the parameters are found by name, whatever their order and whatever other parameters are present, and a missing or non-numeric parameter is reported as absent.",
  ["inputs"], "all base32 secrets, all periods and digit counts and parameter orders",
  "One fixture's secret is read; period and digits are never checked.",
  ["src/database.rs"],
  [("URL parameter lookup","src/database.rs Otp")],
  ["Otp::new, secret, period, digits, Entry::otp, set_otp"])

p("C21", "Unsupported or impossible settings are refused, never weakened",
  "Setting a key, saving or unlocking with an unknown KDF, cipher, compression or inner cipher, with KDF parameters outside what can be honoured exactly, or with an IV or salt of a length the algorithm cannot use, returns an error. It never panics, never proceeds with different or weaker parameters, and never produces or opens an archive whose key does not depend on the credentials.",
  ["configurations","inputs"], "all header settings expressible through the public API or in a file",
  "Tests only use supported settings.",
  ["src/crypto.rs","src/stream/pipeline.rs","src/stream/random.rs","src/utils.rs","src/binary/header_fields.rs"],
  [("KDF dispatch","src/crypto.rs ComposedKey::master_key"),("cipher dispatch","src/stream/pipeline.rs")],
  ["set_key, write, unlock"])

p("C22", "The command-line tools report faithfully what the library reads",
  "For every archive and password, the decrypt tool prints exactly the decrypted XML, the parse tool the database the library reads, the header tool the header settings (without needing a password); a wrong password, an unreadable file or missing arguments lead to an error or usage message, not a crash, and no content is printed. The generate tool writes an archive that opens with its documented password.",
  ["inputs"], "all archives and (Unicode) passwords, and all malformed invocations",
  "The tools have no tests.",
  ["src/bin/kdbx_decrypt.rs","src/bin/kdbx_parse.rs","src/bin/kdbx_dump_header.rs","src/bin/kdbx_generate.rs"],
  [("main functions","src/bin/*.rs")],
  ["stdout and exit status of the built binaries"])

p("C23", "Header information before unlocking is exact; foreign files are told apart",
  "Opening a file without credentials reports exactly the version, cipher, compression, seed, IV, KDF algorithm and parameters that the file's header states, for all values including algorithms the library does not know. Files that are not KeePass files, not KDBX, of an unsupported version, with a missing or malformed required field or with a wrong header checksum are each rejected with the error that says so.",
  ["inputs"], "all header contents, known and unknown, complete and incomplete",
  "Four fixtures' headers are compared; no rejection path is exercised.",
  ["src/binary/read.rs","src/binary/header.rs","src/binary/header_fields.rs","src/binary/variant_dict.rs"],
  [("magic/version checks","src/binary/read.rs"),("header builder","src/binary/header.rs"),("KDF dictionary conversion","src/binary/header_fields.rs")],
  ["from_reader, header(), major_version(), OpenError"])

p("C24", "A saved archive reveals nothing of its content without the key",
  "No name, key, value, identifier or other content of the database, no attachment, and none of the credentials or derived keys occurs in a saved archive outside its encrypted payload, whatever the cipher, compression and KDF chosen. Ciphertext depends on the credentials, the master seed, the IV and the KDF settings: changing any one of them changes the encrypted bytes and signatures throughout.",
  ["inputs","configurations"], "all databases x settings x pairs of archives differing in one secret",
  "No test inspects the bytes of an output file.",
  ["src/binary/kdbx.rs","src/stream/pipeline.rs","src/crypto.rs"],
  [("everything after the header goes through the cipher","src/binary/kdbx.rs encrypt_inner")],
  ["bytes produced by Kdbx::write"])

p("C25", "Attachments and foreign header fields survive opening and saving",
  "When an opened archive is saved again, all binary attachments and unknown fields of the inner header and all comments, public custom data and unknown fields of the outer header are still there with identical content, multiplicity and order, whatever was edited in between, and the parameters of header settings that were not changed are unchanged.",
  ["histories","inputs"], "all archives with any number and size of attachments and extra header fields x edit/save/reopen cycles",
  "No test has a file with attachments or extra header fields, and none saves an opened file.",
  ["src/binary/header.rs","src/binary/kdbx.rs"],
  [("other_headers carried through","src/binary/header.rs KdbxHeader::write, KdbxInnerHeader::write")],
  ["bytes produced by Kdbx::write after from_reader/unlock"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
