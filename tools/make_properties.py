"""Writes /verif/properties.jsonl (one property per line)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)

CI = "aiootp/ciphers/"

prop("C01", "Decrypting what was encrypted returns the exact plaintext",
     "For both ciphers, decrypting a ciphertext with the key, associated data and salt it was made with returns exactly the bytes (or JSON value, or url-safe token payload) that were encrypted. This holds for the sync and the async interface and for every mix of the two, and every ciphertext has the documented layout and length.",
     ["inputs", "configurations"],
     "Every key, salt, iv, timestamp, associated data and plaintext (contents and lengths around every block and padding boundary), both ciphers, every sync/async pairing of encryptor and decryptor.",
     "Tests encrypt a handful of fixed or random messages; they cannot visit every length modulo the block size together with every byte value, nor every pairing of sync and async code, which are separate implementations.",
     [CI+"cipher_interface.py", CI+"padding.py", CI+"stream_hmac.py", CI+"stream_junction.py", CI+"dual_output_shake_cipher.py", CI+"shake_permute_cipher.py", CI+"synthetic_iv.py"],
     [("one-shot encrypt/decrypt", CI+"cipher_interface.py"), ("timestamp, siv key and sentinel padding", CI+"padding.py"), ("keystream / permutation chaining", CI+"stream_hmac.py")],
     observe=["return value of the decrypt calls", "length of ciphertext"])

prop("C02", "Any change to a ciphertext, its key or its context is rejected",
     "A ciphertext that differs in any way from the one produced by the encryptor, or one presented with a different key or different associated data, is never decrypted: the call raises a validation error and returns no plaintext. Removing, adding, swapping or repeating whole blocks counts as a change.",
     ["inputs", "fault_sequences"],
     "Every single and multi byte change to any field of a ciphertext, every block-level edit (drop, duplicate, reorder, append, truncate), every different key or associated data, both ciphers.",
     "Tests flip a few sampled bytes of a few messages; a change that weakens authentication of one field, of one position or of the last block only is missed unless exactly that byte is sampled.",
     [CI+"stream_hmac.py", CI+"cipher_interface.py", CI+"ciphertext_formatting.py", CI+"cipher_kdfs.py", CI+"key_bundle.py"],
     [("validation of the final tag", CI+"stream_hmac.py:test_shmac"), ("tag chaining over every block", CI+"stream_hmac.py"), ("constant-time comparison", "aiootp/generics/byte_io.py")],
     observe=["exception raised by decrypt", "value returned by decrypt"])

prop("C03", "Tags and block ids commit to key, salt, aad, iv and all data",
     "The authentication tag of a message, and every block id of a stream, is a function of an unambiguous encoding of the key, salt, associated data, iv, the block-id parameters and all the data processed so far, in order. Two sessions in which any of these differ (keys of equal length) never feed identical material into the tag computation.",
     ["inputs", "histories"],
     "Every pair of sessions (key of equal length, salt, aad of any two lengths, iv, sequences of blocks, block-id sizes and block-id associated data).",
     "A missing length prefix or a dropped field still yields different tags for nearly all tested inputs; the collision needs two specially related contexts that no example test contains.",
     [CI+"stream_hmac.py", CI+"cipher_kdfs.py", CI+"key_bundle.py", "aiootp/generics/canon.py"],
     [("session summary", CI+"key_bundle.py"), ("keyed session copies", CI+"cipher_kdfs.py"), ("block id derivation", CI+"stream_hmac.py:next_block_id")],
     observe=["shmac result", "block ids"])

prop("C04", "Streaming gives the same message as one call, however data is split",
     "Feeding a plaintext to an encryption stream in any sequence of chunks yields packets that decrypt, through a decryption stream fed in any grouping of whole packets, to exactly the same bytes. Sync and async streams interoperate, and the concatenated blocks with the stream's final tag, salt and iv form a ciphertext the one-shot decryptor accepts with the same result.",
     ["inputs", "histories", "configurations"],
     "Every plaintext (contents, lengths around block boundaries), every split into chunks including empty ones, every grouping of packets, every sync/async pairing, both ciphers.",
     "Tests use one or two splits; off-by-one handling of a chunk ending exactly at a block boundary, empty chunk or empty message is only hit by particular splits.",
     [CI+"cipher_streams.py", CI+"decipher_streams.py", CI+"cipher_stream_properties.py", "aiootp/_gentools.py", CI+"padding.py"],
     [("plaintext buffering & end padding", CI+"cipher_streams.py"), ("packet parsing & trimming", CI+"decipher_streams.py")],
     state=[("byte count", "bytes of plaintext processed so far, determines the end padding", CI+"cipher_streams.py")],
     observe=["packets yielded by the stream", "plaintext yielded by the stream"])

prop("C05", "A decryption stream only accepts authenticated packets, in order",
     "A decryption stream accepts a packet only if its block id is the one the encryptor attached to that block at that position of that session; otherwise it raises and queues nothing of that packet. After a rejected packet the stream can continue with the correct packet and still yields the right plaintext and tag.",
     ["inputs", "histories", "fault_sequences"],
     "Every packet sequence of bounded length, every modification of an id or block, replay, reordering or omission, at every position, sync and async, both ciphers.",
     "Tests corrupt one packet at one position; the state after a rejected packet followed by further correct packets is a history property.",
     [CI+"decipher_streams.py", CI+"stream_hmac.py", "aiootp/_exceptions.py"],
     [("block id test before decryption", CI+"decipher_streams.py:buffer"), ("block id derivation from chained digest", CI+"stream_hmac.py")],
     state=[("chained digest", "digest of everything processed so far", CI+"stream_hmac.py")],
     observe=["exception raised by buffer", "plaintext and tag produced later"])

prop("C06", "Encryption always uses fresh randomness and a bundle only once",
     "Every encryption draws a new iv and a new inner random value from the system's randomness, and encryption with a caller-supplied iv, or a second use of the same session bundle, is refused. A sync-mode bundle is refused by async functions and the reverse, a decryption-mode validator is refused for encryption and the reverse, and a validator finalised once cannot be used again.",
     ["inputs", "histories", "configurations"],
     "Every sequence (bounded length) of uses of a bundle and validator, every combination of mode, iv origin and operation, both ciphers.",
     "Tests list particular misuse pairs; the set of orders in which the objects can be combined is a history space.",
     [CI+"key_bundle.py", CI+"stream_hmac.py", CI+"stream_junction.py", CI+"padding.py", CI+"dual_output_shake_cipher.py"],
     [("iv freshness flag", CI+"key_bundle.py"), ("single registration", CI+"key_bundle.py:_register_shmac"), ("mode checks", CI+"stream_junction.py")],
     observe=["exceptions raised", "randomness drawn per encryption", "iv in ciphertext"])

prop("C07", "Messages older than the time-to-live are refused, younger accepted",
     "Decryption with a time-to-live succeeds exactly when the message's age in whole seconds is not greater than it, otherwise it raises an expiry error carrying the exact number of seconds exceeded. Without a time-to-live a message of any age is accepted, and the same rule holds for streams, tokens and all other timestamped checks.",
     ["inputs", "schedules"],
     "Every creation time, every later reading of the clock, every time-to-live, both ciphers, one-shot and streams.",
     "Tests sleep for a second or two; the boundary age == ttl and large values need a controlled clock over all values.",
     [CI+"padding.py", CI+"decipher_streams.py", "aiootp/asynchs/clocks.py", "aiootp/_exceptions.py"],
     [("timestamp test", "aiootp/asynchs/clocks.py:test_timestamp"), ("inner header timestamp", CI+"padding.py")],
     observe=["exception and its expired_by value", "plaintext returned"])

prop("C08", "Malformed ciphertexts and parameters are refused with documented errors",
     "Data that cannot be a ciphertext (any length that is not header plus a positive number of blocks), wrongly sized salts, ivs, keys, tags and block ids, and wrongly typed values are refused with the library's documented value, type or validation errors before any plaintext is produced. No other kind of exception escapes, and stream input that is empty or not a whole number of packets is refused without disturbing the stream.",
     ["inputs"],
     "Every length from zero to several blocks of ciphertext, packet and parameter inputs, arbitrary contents, both ciphers.",
     "Tests try some bad lengths; which error results for each of all lengths is a for-all over inputs.",
     [CI+"ciphertext_formatting.py", CI+"key_bundle.py", CI+"cipher_kdfs.py", CI+"stream_hmac.py", CI+"decipher_streams.py", CI+"synthetic_iv.py"],
     [("ciphertext parsing", CI+"ciphertext_formatting.py"), ("parameter validation", CI+"key_bundle.py"), ("packet length test", CI+"decipher_streams.py")],
     observe=["exception type", "stream state afterwards"])

prop("C09", "Canonical packing is reversible and collision-free",
     "Unpacking a canonically packed sequence of byte strings returns exactly that sequence, for every block size and padding byte. Two different sequences never pack to the same bytes under any parameters, and packing pads to a multiple of the block size or refuses parameters it cannot encode.",
     ["inputs"],
     "Every number of items (bounded), every item length and content, every block size, every padding byte, every integer width, sync and async.",
     "Ambiguity shows only for pairs of sequences whose boundaries differ while their concatenations agree; random tests essentially never build such a pair.",
     ["aiootp/generics/canon.py"],
     [("length-prefixed packing", "aiootp/generics/canon.py:canonical_pack"), ("parsing", "aiootp/generics/canon.py:canonical_unpack")],
     observe=["packed bytes", "unpacked items"])

prop("C10", "Unpacking refuses everything that packing could not have produced",
     "Given arbitrary bytes, canonical unpacking either returns items that re-pack to exactly those bytes, or raises the library's canonical-encoding error. Truncated, extended or re-padded encodings are therefore refused and no other exception escapes.",
     ["inputs"],
     "Every byte string up to a stated length.",
     "Tests damage sample encodings in a few ways; the space of near-valid encodings (short final length field, zero block size, extra padding block) is a for-all over byte strings.",
     ["aiootp/generics/canon.py"],
     [("parsing", "aiootp/generics/canon.py:canonical_unpack"), ("padding validation", "aiootp/generics/canon.py:test_canonical_padding")],
     observe=["exception type", "returned items"])

prop("C11", "Keyed hashes and derived keys are separated by key, domain and inputs",
     "The hashing and key-derivation interfaces feed their underlying hash an unambiguous encoding of key (of fixed length), domain, output size, auxiliary data and every input item in order, so two calls that differ in any of them never hash the same material. The kinds of output a derivation object offers (short, long, extendable) are mutually independent, and updating an object or copying it never changes what other objects derive.",
     ["inputs", "histories"],
     "Every pair of calls with keys of equal length, all item counts/lengths/contents within bounds, every bounded history of update and copy.",
     "Tests compare outputs for unrelated inputs; only related pairs (moved boundaries, swapped domain and data) reveal an ambiguous encoding.",
     ["aiootp/generics/hashing.py", "aiootp/keygens/domain_kdf.py", "aiootp/generics/domains.py", "aiootp/generics/canon.py"],
     [("canonical keyed hashing", "aiootp/generics/hashing.py"), ("domain payload", "aiootp/keygens/domain_kdf.py")],
     observe=["digests"])

prop("C12", "Keyed permutations are exact bijections for every key",
     "For every supported size, key and domain value, inverting a permuted value returns the original value, and permuting never leaves the domain for the domain-preserving permutations. The sync and async variants agree, and wrongly sized keys are refused.",
     ["inputs", "configurations"],
     "All keys, all values, all sizes shipped; the small sizes at bit level, larger ones by integer arithmetic.",
     "Only a vanishing fraction of keys reach the boundary where a value falls between the domain size and the prime modulus; sampling practically never does.",
     ["aiootp/_permutations/affine_permutation.py", "aiootp/_permutations/affine_xor_chain.py", "aiootp/_permutations/fast_affine_xor_chain.py", "aiootp/_permutations/affine_permutation_config.py", "aiootp/_permutations/affine_xor_chain_config.py", "aiootp/_constants/datasets.py"],
     [("affine map with cycle walking", "aiootp/_permutations/affine_permutation.py"), ("xor chain", "aiootp/_permutations/affine_xor_chain.py")],
     observe=["permute/invert results"])

prop("C13", "Unique ids never repeat while their parts differ and can be read back",
     "Ids built from a clock value, randomness, node number and counter decode back to exactly those parts, so two ids made under one key are equal only if all parts are equal. Sequence ids map distinct in-range indexes to distinct ids and back, read-back ids sort by clock, node and counter, and wrongly sized node numbers, keys and unique ids are refused.",
     ["inputs", "histories"],
     "Every clock value, random part, node number, counter state, key, and every size configuration in bounds; histories of several creations within the same tick.",
     "Collisions need two creations in the same tick with equal randomness; tests create some thousands of ids under the real clock.",
     ["aiootp/randoms/ids/guid.py", "aiootp/randoms/ids/raw_guid.py", "aiootp/randoms/ids/sequence_id.py", "aiootp/randoms/ids/guid_config.py", "aiootp/randoms/ids/raw_guid_config.py", "aiootp/randoms/ids/sequence_id_config.py"],
     [("raw id assembly", "aiootp/randoms/ids/raw_guid.py"), ("keyed permutation of the id", "aiootp/randoms/ids/guid.py"), ("sequence permutation", "aiootp/randoms/ids/sequence_id.py")],
     observe=["ids and decoded parts"])

prop("C14", "Text and number encodings are lossless and strict",
     "Every number written in any base of any shipped alphabet, every byte string written url-safe or as a phrase of words, and every number written as a file name decodes back to exactly what was encoded, and the text uses only the characters of its alphabet. A text holding a character outside the alphabet of a number base is refused, and every other text decodes by place value.",
     ["inputs"],
     "Every byte string or number within the stated size bound, every base from 2 to the table length.",
     "Tests use random samples; leading zeros, zero itself, boundary powers of the base and characters just outside the alphabet are rare.",
     ["aiootp/generics/byte_io.py", "aiootp/generics/transform.py", "aiootp/_constants/datasets.py"],
     [("url-safe conversion", "aiootp/generics/byte_io.py"), ("base conversion", "aiootp/generics/transform.py")],
     observe=["decoded values"])

prop("C15", "The concurrency guard serialises exclusive users in arrival order",
     "Under every interleaving, no two exclusive users are ever inside the guard at once, no exclusive user is inside together with a non-exclusive one, users enter in the order they queued, and every user eventually enters once those before it have left. Leaving frees the guard even when the body raises, and a guard object cannot be entered twice.",
     ["schedules", "histories", "fault_sequences"],
     "Every interleaving of up to a bounded number of users at every shared-state step, threads and async tasks, every mix of exclusive/non-exclusive users, bodies that raise.",
     "Tests run a few timed schedules; interleavings at single shared-state operations cannot be forced by tests.",
     ["aiootp/asynchs/guards/concurrency_guard.py", "aiootp/asynchs/guards/policies.py", "aiootp/asynchs/guards/state_machine.py"],
     [("queue and observer deques", "aiootp/asynchs/guards/policies.py"), ("enter/exit protocol", "aiootp/asynchs/guards/concurrency_guard.py")],
     state=[("queue", "users waiting or running, in order", "aiootp/asynchs/guards/concurrency_guard.py"), ("observers", "active policy markers", "aiootp/asynchs/guards/policies.py")],
     observe=["set of users inside at each step"])

prop("C16", "Managed guards keep targets independent and leave nothing behind",
     "Users of different targets never wait for each other, users of the same target obey exclusion, and once the last user of a target has left nothing about that target remains. This holds for every interleaving, including users that fail to enter or whose body raises.",
     ["schedules", "histories", "fault_sequences"],
     "Every interleaving of bounded users over bounded targets, sync and async, failing bodies and failing entries.",
     "Creation and removal of a target's state races with new arrivals only in particular interleavings.",
     ["aiootp/asynchs/guards/manager.py", "aiootp/asynchs/guards/policies.py", "aiootp/asynchs/guards/concurrency_guard.py"],
     [("target table", "aiootp/asynchs/guards/manager.py")],
     state=[("targets", "target -> deques and users", "aiootp/asynchs/guards/manager.py")],
     observe=["users inside per target", "target table after all left"])

prop("C17", "Concurrent users of one stream never interleave or lose data",
     "When several tasks feed one encryption or decryption stream at the same time, each task's chunk is processed whole and in the order the tasks entered, so the result equals that of feeding the chunks sequentially in that order. Feeding after finalisation has begun is refused and never corrupts the output.",
     ["schedules"],
     "Every interleaving of bounded concurrent feeders (at every suspension point) with finalisation, both ciphers.",
     "Tests gather a few feeders under the real event loop which always schedules them the same way.",
     [CI+"cipher_streams.py", CI+"decipher_streams.py", "aiootp/asynchs/guards/concurrency_guard.py"],
     [("guarded buffering", CI+"cipher_streams.py"), ("guarded packet intake", CI+"decipher_streams.py")],
     observe=["decrypted plaintext vs entry order"])

prop("C18", "Stored passphrase hashes carry their parameters and verify exactly",
     "A stored hash decodes to exactly the timestamp, cost parameters and salt it was made with, and verification accepts it for the same passphrase and associated data. Any change to a byte of the stored hash, the passphrase or the associated data makes verification raise, and truncated or otherwise malformed hashes are refused with a documented error.",
     ["inputs"],
     "Every legal cost parameter value, salt size, tag size, timestamp; every altered byte; every truncation.",
     "Running the real function for every cost value is impossible (memory/time); the packing of each boundary value is only checked symbolically.",
     ["aiootp/keygens/passcrypt/hash_format.py", "aiootp/keygens/passcrypt/interface.py", "aiootp/keygens/passcrypt/sessions_manager.py", "aiootp/keygens/passcrypt/session_init.py"],
     [("hash layout", "aiootp/keygens/passcrypt/hash_format.py"), ("verify", "aiootp/keygens/passcrypt/interface.py")],
     observe=["import/export results", "verify outcome"])

prop("C19", "Passphrase hashing uses all requested resources and refuses bad limits",
     "Cost parameters outside the documented ranges are refused before any work, and verification refuses a stored hash whose costs exceed the caller's allowed ranges before doing the work it asks for. The memory each worker fills is the requested amount divided over the workers (rounded up), is fully written, and the result depends on the passphrase, salt, associated data, tag size and every cost parameter.",
     ["inputs", "configurations"],
     "Every value of memory, cpu and core counts in and around the documented ranges, every allowed-range setting.",
     "Real runs at the range limits need gigabytes; tests run the smallest costs only.",
     ["aiootp/keygens/passcrypt/config.py", "aiootp/keygens/passcrypt/session_init.py", "aiootp/keygens/passcrypt/sessions_manager.py", "aiootp/keygens/passcrypt/interface.py"],
     [("range checks", "aiootp/keygens/passcrypt/config.py"), ("memory layout", "aiootp/keygens/passcrypt/config.py"), ("core splitting", "aiootp/keygens/passcrypt/sessions_manager.py")],
     observe=["exception type and whether work started", "memory size arithmetic"])

prop("C20", "Both sides of a key exchange derive the same, session-bound key",
     "For the double and triple exchange, client and server following the protocol always derive equal keys, sync or async. The derived key is bound to every public value exchanged, so changing any exchanged public key or identity makes the two sides' keys differ, and the unauthenticated parts cannot be reordered or swapped.",
     ["inputs", "configurations"],
     "All private keys (curve modelled as an ideal commutative operation), every substitution of one exchanged value, every sync/async pairing.",
     "Tests run honest exchanges and one or two mismatches; binding to every exchanged value is a for-all.",
     ["aiootp/keygens/curve_25519/double_diffie_hellman_client.py", "aiootp/keygens/curve_25519/double_diffie_hellman_server.py", "aiootp/keygens/curve_25519/triple_diffie_hellman_client.py", "aiootp/keygens/curve_25519/triple_diffie_hellman_server.py", "aiootp/keygens/curve_25519/shared_interface.py", "aiootp/keygens/curve_25519/x25519.py"],
     [("protocol generators", "aiootp/keygens/curve_25519/"), ("shared key derivation", "aiootp/keygens/curve_25519/shared_interface.py")],
     observe=["derived key material of both sides"])

DB = "aiootp/databases/"
prop("C21", "A database behaves like a map with save, rollback and reload",
     "Through any sequence of set, get, pop, rollback, clear, save and reload operations, a database returns for each tag exactly what a simple model predicts: unsaved values are visible until rolled back, saved values survive reopening with the same credentials, and removed tags are gone after the next save. Values round-trip exactly (JSON values and raw bytes), and the sync and async databases read each other's files. Leaving the database's context saves it and lets an error raised inside pass.",
     ["histories", "inputs"],
     "Every operation sequence up to a bounded length over bounded tags with arbitrary values, caching on and off, sync and async.",
     "Tests follow a few scripted sequences; interactions such as rollback after pop or set after clear are a history space.",
     [DB+"sync_database.py", DB+"async_database.py", DB+"database_properties.py", DB+"dbkdf.py", DB+"dbdomains.py"],
     [("cache, manifest and file operations", DB+"sync_database.py")],
     state=[("manifest", "tag file name -> tag", DB+"sync_database.py"), ("cache", "loaded or unsaved values", DB+"sync_database.py")],
     observe=["values returned", "files written"])

prop("C22", "Database files are bound to their key, tag and database",
     "A tag file or manifest is only readable with the same key and under the same tag of the same database: moving a file to another tag's name, to another sub-database, or swapping files raises an error instead of returning another value. A sub-database never shares files or keys with its parent or siblings.",
     ["inputs", "fault_sequences"],
     "Every pair of tags, databases and sub-databases in bounds, every file swap, arbitrary values.",
     "Tests do not swap files between names systematically.",
     [DB+"sync_database.py", DB+"async_database.py", DB+"database_properties.py", DB+"dbdomains.py"],
     [("per-file cipher context", DB+"sync_database.py"), ("file naming", DB+"sync_database.py")],
     observe=["exception or value on query"])

prop("C23", "Deleting databases, tags and profiles removes only their own files",
     "Deleting a tag, sub-database, database or profile removes exactly the files that the deleted object owns and no other file, even files in the same directory or of other databases. After deletion none of its owned files remain.",
     ["histories", "inputs", "fault_sequences"],
     "Every bounded history of creations and deletions, with other databases' and foreign files of any name in the directory.",
     "Tests look at their own database only, never at unrelated files in the directory.",
     [DB+"sync_database.py", DB+"async_database.py", DB+"profile_tokens.py", "aiootp/_paths.py"],
     [("deletion", DB+"sync_database.py:delete_database")],
     observe=["set of files removed"])

prop("C24", "Salt files stay intact and locked under concurrency and faults",
     "Reading or updating a salt file returns or stores exactly the salt, refuses salts that are too short, and leaves the file locked (no permissions) afterwards, even if reading or writing fails part way. Concurrent readers, writers and deleters of one file never make each other fail, and never block each other forever.",
     ["fault_sequences", "schedules", "inputs"],
     "Every point of failure in the file operations, every interleaving of bounded concurrent operations, sync and async, every salt length.",
     "Tests run as a user for whom permission bits have no effect and run operations one after another.",
     ["aiootp/_paths.py"],
     [("permission bracket", "aiootp/_paths.py"), ("path guards", "aiootp/_paths.py")],
     observe=["file mode and content after each call", "exceptions"])

prop("C25", "Frozen containers never change and mappings behave like dicts",
     "Once an attribute of a frozen container has been set it can never be changed or deleted by any route the container offers, and typed containers never hold a value of the wrong type. Through any sequence of operations the non-frozen containers agree with a plain dictionary, and the masked representation never shows a stored value.",
     ["histories", "inputs"],
     "Every bounded sequence of get/set/delete/update/clear operations over slot names, dynamic names and non-string keys, arbitrary values.",
     "Tests check single operations on single containers; combinations through item, attribute and bulk interfaces form a history space.",
     ["aiootp/commons/slots.py", "aiootp/commons/namespaces.py", "aiootp/commons/instances.py", "aiootp/commons/typed_slots.py", "aiootp/commons/configs.py"],
     [("item/attribute assignment", "aiootp/commons/slots.py"), ("type validation", "aiootp/commons/typed_slots.py")],
     observe=["contents after each operation", "exceptions", "repr text"])

prop("C26", "A signed package verifies, and any altered file or summary does not",
     "A package summary signed with the signer verifies for the same files with the matching public key. Changing any file's content, adding or removing a listed file's entry, or changing any field of the summary, the signature or the public key makes verification raise. A summary names the package, version, date, scope, credentials and checksums that the signer was given.",
     ["inputs", "fault_sequences"],
     "Every change to one file, one summary field or the signature (signature scheme modelled as ideal), arbitrary file contents.",
     "Tests alter a few fields; that every field is under the signature is a for-all.",
     ["aiootp/keygens/package_signer.py", "aiootp/keygens/package_verifier.py", "aiootp/keygens/curve_25519/ed25519.py"],
     [("summary checksum", "aiootp/keygens/package_signer.py"), ("verification", "aiootp/keygens/package_verifier.py")],
     observe=["exception from verification"])

prop("C27", "Chunking and iteration helpers lose, repeat and reorder nothing",
     "Splitting, resizing, unpacking, zipping, collating and counting helpers yield exactly the data given to them, in order and in pieces of the requested size, sync and async alike. Byte counters yield consecutive integers of the requested width.",
     ["inputs"],
     "Every input length and piece size in bounds with arbitrary contents, every split of the input into incoming pieces.",
     "Tests use a few sizes; a piece ending exactly at a boundary is a special case.",
     ["aiootp/_gentools.py"],
     [("batching and resizing", "aiootp/_gentools.py")],
     observe=["sequence of yielded values"])

prop("C28", "Clocks convert between units and timestamps exactly",
     "A clock reading is exactly the whole number of its units elapsed since its epoch, never early and never late, for integer units from nanoseconds to days. Timestamps round-trip through their byte form at every width, ages are exact differences, and a value that does not fit the requested width is refused.",
     ["inputs"],
     "Every reading of the system clock up to the year 2500, every unit, epoch and width.",
     "Rounding shows only at particular nanosecond values; the real clock never presents chosen values.",
     ["aiootp/asynchs/clocks.py"],
     [("unit conversion", "aiootp/asynchs/clocks.py")],
     observe=["clock readings", "timestamps"])

prop("C29", "Async functions return what their sync twins return",
     "Every operation offered in an async and a sync form returns the same value and raises the same kind of error for the same inputs and the same randomness and clock readings. This includes hashing, packing, encodings, key derivation, ids, random helpers, permutations and padding.",
     ["inputs", "configurations"],
     "Every input in bounds for each twin pair, with randomness and clock readings equal for both.",
     "The twins are separate copies of the logic; a change to one is missed unless tests cover the same inputs on both.",
     ["aiootp/generics/canon.py", "aiootp/generics/hashing.py", "aiootp/generics/byte_io.py", "aiootp/generics/transform.py", "aiootp/generics/domains.py", "aiootp/keygens/domain_kdf.py", CI+"padding.py", "aiootp/randoms/simple.py", "aiootp/randoms/ids/guid.py", "aiootp/_permutations/affine_xor_chain.py"],
     [("paired implementations", "aiootp/")],
     observe=["results and exception types of both twins"])

prop("C30", "Random outputs have the asked size and absorb fresh system entropy",
     "Every random generator call returns exactly the requested number of bytes, and its output depends on randomness drawn from the operating system during that call, whatever the shared pools hold and whatever entropy the caller supplies. Every draw is also absorbed into the shared pool for later calls, and consecutive calls never give the same output. Entropy supplied by the caller takes part in the output.",
     ["inputs", "histories", "schedules"],
     "Every requested size in bounds, every value of the system randomness and pools, every bounded sequence of calls.",
     "Statistical tests cannot see that an output no longer depends on fresh entropy.",
     ["aiootp/randoms/rng.py", "aiootp/randoms/simple.py", "aiootp/randoms/threading_safe_entropy_pool.py"],
     [("entropy mixing", "aiootp/randoms/rng.py"), ("entropy pools", "aiootp/randoms/threading_safe_entropy_pool.py")],
     observe=["output length", "outputs of calls that draw different randomness"])

prop("C31", "The exception-suppressing context hides only the listed errors",
     "Leaving the context suppresses an exception exactly when it is an instance of one of the listed types and the handler, if given, returned true. The success handler runs only without an exception, the final handler always runs once, and sync and async contexts behave the same.",
     ["inputs", "histories", "configurations"],
     "Every combination of listed types, raised exception (subclasses and unrelated), handler results and handlers that raise.",
     "Tests check a few pairs; the decision table over all combinations is a for-all.",
     ["aiootp/_exceptions.py"],
     [("suppression", "aiootp/_exceptions.py:Ignore")],
     observe=["whether the exception propagates", "handlers run"])

prop("C32", "A profile opens with exactly its own credentials",
     "Opening a profile again with the same username, passphrase, salt, aad, further credentials and cost settings in the same directory gives the same database, sync or async. Changing any of them, or moving bytes from one to another, gives a different database that shows nothing of the first.",
     ["inputs", "configurations", "histories"],
     "All pairs of credentials in bounds, every way of moving a byte between them, every cost setting from 1 to 60, sync and async in any mix.",
     "Tests open a few profiles; which pairs of credentials coincide is a question about all pairs.",
     ["aiootp/databases/profile_tokens.py", "aiootp/databases/sync_database.py", "aiootp/databases/async_database.py", "aiootp/_paths.py"],
     [("profile identity", "aiootp/databases/profile_tokens.py"), ("profile salts", "aiootp/_paths.py")],
     observe=["whether a tag saved in the first profile is found in the second"])

prop("C33", "Equal plaintext blocks look alike only after equal histories",
     "Two ciphertext blocks, or 32-byte pieces at the same place in them, that hide the same plaintext are equal only if key, salt, aad, iv, unique header and everything encrypted before them are equal. Within one message no two blocks hide the same plaintext in the same way.",
     ["inputs", "histories"],
     "Every pair of sessions in bounds with any keys, salts, aads, ivs, headers and earlier data; every pair of block positions in bounds; one-shot and streaming, sync and async.",
     "A repeating keystream round-trips perfectly; only a comparison over all pairs of sessions and blocks shows it.",
     [CI+"dual_output_shake_cipher.py", CI+"shake_permute_cipher.py", CI+"stream_hmac.py", CI+"key_bundle.py", CI+"cipher_kdfs.py"],
     [("keystream ratchet", CI+"dual_output_shake_cipher.py"), ("block masks", CI+"shake_permute_cipher.py"), ("running digest", CI+"stream_hmac.py")],
     observe=["ciphertext blocks"])

prop("C34", "Work handed to threads or processes comes back complete and in order",
     "A gathering returns every function's own result in the order of the functions, whichever finishes first, or raises the error of the first one that failed and lets nothing that has not begun run later. A submitted or newly started job runs exactly once with the given arguments, and its result, of any value and size, or its error reaches the caller, who never waits for ever.",
     ["schedules", "inputs", "fault_sequences"],
     "Every order in which up to three jobs start and finish, every timing of a worker's start and end, results and errors of any of them, results larger than a pipe holds.",
     "Tests see the few schedules that the machine happens to produce.",
     ["aiootp/asynchs/concurrency_interface.py", "aiootp/asynchs/threads.py", "aiootp/asynchs/processes.py"],
     [("gathering", "aiootp/asynchs/concurrency_interface.py"), ("workers", "aiootp/asynchs/threads.py")],
     observe=["results", "exceptions", "calls made"])

prop("C35", "A mnemonic follows from its passphrase, salt, costs, size and list",
     "A mnemonic has exactly the asked number of words, all from the list. The same passphrase, salt, hashing costs, size and list length give the same words, sync or async, and a change of any of them gives other words, as do other keys or domains of a keyed selection. Without a passphrase the words follow from fresh randomness, and hashing costs are refused.",
     ["inputs", "configurations"],
     "All pairs of requests in bounds, sync and async in any mix; that words differ is decided for lists so long that a chance repeat is excluded.",
     "Tests look at the words of a few requests; which pairs of requests coincide is a question about all pairs.",
     ["aiootp/keygens/mnemonics.py", "aiootp/keygens/domain_kdf.py"],
     [("keyed selection", "aiootp/keygens/mnemonics.py"), ("mnemonic keys", "aiootp/keygens/mnemonics.py")],
     observe=["the words"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
