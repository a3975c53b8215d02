#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "A signature covers exactly the bytes the data source delivered",
  "Signing a data stream returns a signature that is valid for exactly the bytes the source delivered before end of stream, and verification reaches the same verdict on those bytes. This holds no matter how delivery is split into reads and no matter how often a read is interrupted and has to be retried.",
  ["schedules", "inputs", "fault_sequences"],
  "every data length and content, every split of the stream into reads (1 byte to more than the caller's buffer), every placement of retryable interruptions, prehashed and legacy verification, streams longer than 32-bit counters",
  "The tests sign the 4-byte string `test` from an in-memory cursor that always delivers everything in one read and is never interrupted.",
  ["src/lib.rs", "src/crypto/blake2b.rs", "src/crypto/ed25519.rs", "src/crypto/sha512.rs"],
  [("read-until-zero hashing loop", "src/lib.rs prehash"), ("incremental BLAKE2b buffering and counter", "src/crypto/blake2b.rs update/finalize")],
  observe=["minisign::sign result checked by an independent BLAKE2b + Ed25519 verifier", "minisign::verify verdict"])

p("C02", "A failing data source never yields a signature or an acceptance",
  "If the data source reports an error other than a retryable interruption, at whatever point of whichever pass over the data or while being repositioned, signing and verification report an error. No signature is returned for, and no success verdict given on, a stream that could not be read to its end.",
  ["fault_sequences", "inputs"],
  "every error kind, every position of the failing read or seek, every chunking before it, prehashed and legacy verification, with and without output",
  "No test ever makes a reader fail.",
  ["src/lib.rs", "src/errors.rs"],
  [("error propagation in the hashing loop", "src/lib.rs prehash"), ("read_to_end / rewind / output loop error propagation", "src/lib.rs verify")],
  observe=["Result of minisign::sign and minisign::verify"])

p("C03", "Verification accepts only what the key holder signed",
  "However the stored signature, the stored public key or the data are corrupted, torn, swapped with others or altered between signing and verification, verification succeeds only if the data are exactly data that the holder of that public key signed, under the matching key identifier, together with exactly the trusted comment being reported, and the signature bytes are ones that holder produced, not a re-encoding of them. Earlier operations in the same process never change a verdict.",
  ["inputs", "histories", "fault_sequences"],
  "every alteration (bit flips, truncations, torn or mixed sectors, swapped lines, fields, files, adversarially re-encoded signatures) of any stored artefact at any point of any history of signing, loading and verifying",
  "The tests verify two fixed signatures and one wrong 5-byte message; no stored byte is ever changed.",
  ["src/lib.rs", "src/signature_box.rs", "src/signature.rs", "src/public_key.rs", "src/crypto/ed25519.rs"],
  [("key id comparison, data signature, comment signature", "src/lib.rs verify"), ("canonical-S check and group equation", "src/crypto/ed25519.rs verify"), ("text parsing", "src/signature_box.rs from_string")],
  observe=["minisign::verify verdict against a ledger of everything the simulated key holders signed"])

p("C04", "Stored keys and signatures still work after restart",
  "A key or signature that was completely stored in any of its serialised forms and reloaded, in the same or a later process, is equal to what was stored: same key identifier, same key material, same trusted and untrusted comment. The reloaded signature verifies the signed data, and a reloaded secret key makes signatures that the reloaded public key accepts.",
  ["histories", "inputs", "crash_points"],
  "every history of generating, signing, storing, restarting, reloading and verifying; every comment and password the API accepts, including empty and whitespace ones; every serialised form (box text, base64, raw bytes, comment-less signature)",
  "Tests convert one fresh key to bytes and back in the same process and never reload a signature they made; comments and passwords are one fixed value or absent.",
  ["src/signature_box.rs", "src/signature_bones.rs", "src/secret_key.rs", "src/public_key.rs", "src/keypair.rs", "src/lib.rs"],
  [("box text writers and parsers", "src/signature_box.rs, src/secret_key.rs, src/public_key.rs"), ("key encryption and checksum", "src/secret_key.rs encrypt/from_box_")],
  state=[("key box", "encrypted or plain secret key plus KDF parameters", "src/secret_key.rs SecretKey")],
  observe=["values reloaded in a later simulated process compared with the stored ones"])

p("C05", "Output mode emits exactly the verified data",
  "Verification writes to standard output only when asked to, and only after the signature has been found valid. It returns success only if standard output has accepted, in order, exactly the bytes that were verified, even if the source changes between the two passes or was not at its start when handed over, and even if standard output accepts partial writes, is interrupted or fails.",
  ["fault_sequences", "schedules", "inputs"],
  "every data length and start position, every chunking of both passes, every modification of the source between them, every short write, interruption and failure of standard output",
  "Every test passes output=false; nothing ever checks standard output.",
  ["src/lib.rs"],
  [("verify, then rewind and copy loop", "src/lib.rs verify")],
  observe=["bytes received by the simulated standard output descriptor, and the verdict"])

p("C06", "Writing a key pair is complete or reported as failed",
  "Generating and writing a key pair returns success only if both destinations have accepted and flushed the complete serialised public and secret key of the very pair that is returned. A destination that fails, is full, refuses bytes or cannot be flushed yields an error, and retryable interruptions and partial writes lose or duplicate nothing.",
  ["fault_sequences", "crash_points"],
  "every position and kind of write or flush fault on either destination, every partial-write pattern, protected and unprotected keys, every comment",
  "No test calls the generate-and-write functions at all.",
  ["src/keypair.rs", "src/secret_key.rs", "src/public_key.rs"],
  [("write_all followed by flush for each destination", "src/keypair.rs generate_and_write_encrypted_keypair / generate_and_write_unencrypted_keypair")],
  observe=["bytes accepted and flushed by each simulated destination, and the Result"])

p("C07", "Protected secret keys open only with their password, and intact",
  "A password-protected secret key box yields a secret key only when the protecting password is given. A stored box that was corrupted, torn or mixed with another is either refused or yields exactly the original key material, and a protected box is never opened as an unprotected one nor the reverse.",
  ["inputs", "fault_sequences", "histories"],
  "every password and every other candidate password (prefixes, extensions, case and whitespace variants), every flipped or torn stored byte, every order of successful and failed attempts in one process",
  "One test checks that an unprotected key is not opened with an empty password; no protected key is ever reloaded, let alone a damaged one.",
  ["src/secret_key.rs", "src/helpers.rs", "src/crypto/blake2b.rs"],
  [("key-derivation stream and checksum comparison", "src/secret_key.rs encrypt, from_box_"), ("KDF parameter derivation", "src/helpers.rs raw_scrypt_params")],
  observe=["Result of into_secret_key / from_unencrypted_box and the key material inside"])

p("C08", "Secrets of protected keys never leave in the clear",
  "While a password-protected key is generated, written, loaded or used, neither its secret key nor the password appears in clear in anything the library writes or returns as text: key files, signatures, standard output, standard error, the terminal, or error messages. This includes operations that fail midway.",
  ["fault_sequences", "inputs"],
  "every password, every fault in entropy, destinations, terminal or standard streams, at every step of generating, storing, loading and signing",
  "Tests never look at what is written for a protected key.",
  ["src/keypair.rs", "src/secret_key.rs", "src/helpers.rs", "src/errors.rs"],
  [("encryption before serialisation", "src/keypair.rs generate_encrypted_keypair"), ("error texts", "src/errors.rs")],
  observe=["all bytes reaching simulated destinations, descriptors and error strings, searched for the secret in raw, hex and base64 form"])

p("C09", "Entropy failure stops key generation and signing",
  "If the operating system's entropy source fails, key generation and signing report an error and return no key and no signature; nothing is ever produced from missing or partial randomness. Interrupted or short entropy reads are completed transparently.",
  ["fault_sequences"],
  "failure of every entropy request, at every byte offset, with every error code, transient or persistent, including the device-file fallback",
  "The tests run with a working entropy source only.",
  ["src/keypair.rs", "src/lib.rs", "src/errors.rs"],
  [("error propagation of every entropy request", "src/keypair.rs generate_unencrypted_keypair, generate_encrypted_keypair; src/lib.rs sign")],
  observe=["Result of key generation and signing when the simulated system calls fail"])

p("C10", "Signing nonces are never reused or biased",
  "No two signatures made with one key over different content share a nonce, and no two keys share a nonce, whatever the entropy source returns: stuck, constant, repeated after a snapshot restore, or identical in two processes. Nonces use their full range.",
  ["fault_sequences", "histories"],
  "every history of signatures (data signatures and comment signatures) by any number of keys, processes and threads, with stuck, zero, repeated or replayed entropy",
  "A nonce collision is invisible to verification, which is all the tests do, and their entropy is always good.",
  ["src/crypto/ed25519.rs", "src/lib.rs"],
  [("nonce = hash(randomness, secret, message)", "src/crypto/ed25519.rs signature")],
  observe=["nonce recovered from each signature with the known secret key"])

p("C11", "Every key, key identifier and salt is fresh",
  "Every generated key pair has a secret seed, key identifier and, when protected, a password salt that are independent of those of every other key pair and fully random in every byte, for the whole life of a process and across processes. The public key and secret key of a generated pair belong together.",
  ["histories", "schedules"],
  "every history and interleaving of key generations in one or more processes and threads, with interrupted and short entropy reads",
  "Each test generates one key and compares it with nothing.",
  ["src/keypair.rs", "src/crypto/ed25519.rs"],
  [("per-key entropy requests", "src/keypair.rs")],
  observe=["decrypted generated keys, compared across a history"])

p("C12", "Signing time is recorded faithfully and nothing else depends on the clock",
  "Without an explicit trusted comment, a signature's trusted comment is `timestamp:` followed by the whole Unix seconds the system clock showed during that signing call; an explicit trusted comment is used as given. Verification verdicts never depend on the clock, and a clock set before 1970 yields an error, never a wrong or fabricated timestamp.",
  ["schedules", "fault_sequences", "histories"],
  "every clock value, every forward or backward jump between or during operations, every sequence of signings and verifications",
  "Tests never look at the default comment and cannot move the clock.",
  ["src/lib.rs", "src/helpers.rs"],
  [("timestamp taken per call", "src/lib.rs sign, src/helpers.rs unix_timestamp")],
  observe=["trusted comment of returned signatures against the simulated clock readings of the call"])

p("C13", "Loading from a file yields the whole file or an error",
  "Loading a public key, secret key or signature from a file gives the same result as parsing the file's complete contents, however the file is read in pieces or interrupted. If the file cannot be opened or read to its end the load reports an error.",
  ["fault_sequences", "inputs"],
  "every split of the file into reads, every interruption, every open/read/metadata failure at every offset, every file length, wrong size hints",
  "No test calls any of the from_file functions.",
  ["src/public_key.rs", "src/secret_key.rs", "src/signature_box.rs"],
  [("whole-file read then box parsing", "from_file in the three files")],
  observe=["Result and loaded value against parsing of the complete text"])

p("C14", "Interactive passwords behave exactly like given ones",
  "When no password is supplied, it is read from the terminal: a key pair is generated only if both entries are equal, and is then protected by exactly the typed password, and a protected key opens exactly when its password is typed. Terminal failure or an entry longer than 1024 bytes yields an error and no key.",
  ["fault_sequences", "inputs", "schedules"],
  "every pair of typed entries, every split of terminal input into reads, interruptions, open/read/write failures and end of input at any point",
  "Every test supplies the password; the terminal path is never executed.",
  ["src/helpers.rs", "src/keypair.rs", "src/secret_key.rs"],
  [("prompting and confirmation", "src/helpers.rs get_password, src/keypair.rs generate_encrypted_keypair, src/secret_key.rs from_box_")],
  observe=["Result, and the produced box opened with the typed password by an independent implementation"])

p("C15", "Concurrent use gives the same results as sequential use",
  "Any number of threads may generate, load, sign and verify at the same time, sharing keys and signatures, under every interleaving. Each call returns what it would have returned alone, and none blocks forever.",
  ["schedules"],
  "every interleaving of concurrent calls at every instruction boundary between basic blocks and at every I/O, entropy, clock and allocation point",
  "Each test calls the library from a single thread with unrelated keys.",
  ["src/lib.rs", "src/keypair.rs", "src/secret_key.rs", "src/signature_box.rs", "src/crypto/"],
  [("no shared mutable state: all state is on the stack or owned by the call", "whole crate")],
  observe=["each call's result under a simulator-chosen interleaving against its own sequential specification"])

p("C16", "Faults and damaged files surface as errors, never as panics or hangs",
  "Whatever the data source, destinations, standard streams, terminal, entropy source or clock do, and whatever a stored key or signature file has been torn or corrupted into, every operation returns success or an error after bounded work. It never panics, aborts the process, spins, or demands unbounded time or memory.",
  ["fault_sequences", "inputs", "crash_points"],
  "every fault of every environment interface at every point, every torn prefix and corruption of every stored artefact fed to every loading and verifying operation",
  "Tests feed well-formed or trivially malformed input only and inject no fault.",
  ["src/lib.rs", "src/signature_box.rs", "src/signature.rs", "src/secret_key.rs", "src/public_key.rs", "src/helpers.rs", "src/crypto/ed25519.rs"],
  [("Result-returning parsers and I/O", "all of src/"), ("KDF cost caps", "src/secret_key.rs encrypt, src/helpers.rs raw_scrypt_params")],
  observe=["outcome (value, error, panic, abort, step count) of every call"])

p("C17", "Legacy signatures are accepted only on request",
  "A non-prehashed (legacy) signature is accepted only when the caller allows legacy signatures; a prehashed signature is accepted either way. Corruption or tampering of the stored algorithm identifier never turns a signature of one kind into an accepted signature of the other for the same data.",
  ["inputs", "fault_sequences", "histories"],
  "both kinds of signature, both settings, full and comment-less forms, every corruption of the algorithm identifier, every order of calls in one process",
  "One legacy and one prehashed fixed signature are each verified with one setting.",
  ["src/lib.rs", "src/signature_box.rs", "src/signature_bones.rs"],
  [("algorithm identifier parsing", "src/signature_box.rs from_string, src/signature_bones.rs from_bytes"), ("legacy policy check", "src/lib.rs verify")],
  observe=["verdict for each kind, setting and tampering"])

p("C18", "Signing with a public key returns only signatures that key accepts",
  "When the caller supplies a public key to the signing operation, a signature is returned only if it verifies under that public key, key identifier included; otherwise signing reports an error. With the genuine public key, signing succeeds.",
  ["inputs", "fault_sequences"],
  "every supplied public key: genuine, of another pair, or reloaded after corruption of any stored byte; every data stream and comment",
  "Every test signs without a public key.",
  ["src/lib.rs"],
  [("self-check of the fresh signature", "src/lib.rs sign")],
  observe=["Result of sign with the supplied key and verify with the same key"])

p("C19", "Ed25519 implementation conforms to RFC 8032",
  "Key derivation, signing and verification agree with RFC 8032 for every key, message and signature, including all edge-case points and scalars.",
  ["inputs"], "every 32-byte key, 64-byte signature and message",
  "Two fixed vectors are verified.",
  ["src/crypto/ed25519.rs", "src/crypto/curve25519.rs", "src/crypto/sha512.rs"],
  [("field, group and scalar arithmetic", "src/crypto/")], observe=["pure function results"])

p("C20", "Mixed deployments interoperate: peers read what is written here and the reverse",
  "In a deployment where this library and other minisign implementations share keys and signature files, every public key, secret key and signature this library stores is accepted by a strict peer, which sees the same key, key identifier, comments and verdict. Everything a peer stores (protected with any limits it uses, unprotected, prehashed or legacy, re-sealed under a new password) is read here with exactly that meaning and stored again unchanged.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "every interleaving of peers and this library generating, storing, re-sealing, signing, verifying and regenerating keys in a shared directory over several process lives; every key, comment and password both sides can carry; every piecewise or interrupted file access",
  "Only two foreign signatures and one foreign public key are parsed, nothing written here is ever shown to another implementation, and a change applied to both the writer and the reader passes every round trip.",
  ["src/signature_box.rs", "src/secret_key.rs", "src/public_key.rs", "src/signature.rs", "src/signature_bones.rs", "src/keypair.rs"],
  [("field order, base64 and comment lines", "to_bytes / from_bytes / to_string / from_string"), ("checksum and encryption of stored keys", "src/secret_key.rs write_checksum, encrypt")],
  state=[("shared directory", "key and signature files written by either side", "files")],
  observe=["files parsed by an independent strict reference peer", "values loaded from files the peer wrote"])

p("C21", "Stored key-derivation limits decide the cost, identically everywhere",
  "A protected key sealed by another implementation under any operation and memory limits up to minisign's own (33554432 operations, 1 GiB) opens here with its password, and the scrypt derivation actually performed has exactly the parameters libsodium derives from those limits. A key sealed here records the limits it was really sealed with, and its derivation costs no less than libsodium's interactive preset. Exactly one derivation is made to open a key, and no more to refuse a password.",
  ["inputs", "histories", "configurations"],
  "every pair of limits in the supported range, in particular around powers of two and where the deciding limit changes; given and typed passwords; keys loaded from text and from files; several keys in one process in any order",
  "One pair of limits (the defaults) is used and no foreign protected key is opened.",
  ["src/helpers.rs", "src/secret_key.rs", "src/keypair.rs", "src/constants.rs"],
  [("raw_scrypt_params", "src/helpers.rs"), ("limits stored with the key", "src/secret_key.rs encrypt")],
  observe=["cost reported at the scrypt seam", "key material opened", "limits in the written box"])

p("C22", "Secret-dependent timing does not leak key material",
  "The running time of signing, key loading and key comparison does not depend on secret key bytes.",
  ["inputs"], "every pair of secret keys and messages of equal length",
  "Tests measure no timing.",
  ["src/crypto/util.rs", "src/crypto/ed25519.rs", "src/crypto/curve25519.rs", "src/secret_key.rs"],
  [("fixed-time comparison and constant-time scalar multiplication", "src/crypto/")], observe=["execution time"])

p("C23", "Once faults stop, everything works again",
  "Whatever failed earlier in a process (data sources, destinations, standard streams, terminal, entropy, clock, wrong passwords, damaged files, refused requests, callers whose own source or destination panicked in the middle of a call, several threads in trouble at once), the next operation whose environment is in order completes at once, with the result it would have had in a fresh process.",
  ["fault_sequences", "histories", "schedules"],
  "every sequence of failing operations and faults, sequential or concurrent, followed by any fault-free operation",
  "Tests never make anything fail and then go on.",
  ["src/lib.rs", "src/keypair.rs", "src/secret_key.rs", "src/helpers.rs", "src/crypto/cryptorand.rs"],
  [("no state is carried from one call to the next", "whole crate"), ("output buffer and lock released on error", "src/lib.rs verify"), ("error propagation", "src/errors.rs")],
  observe=["Result and value of the operations after the last fault"])

p("C24", "Memory use does not grow with the data",
  "Signing a data stream, and verifying a prehashed signature over one with or without output, need an amount of memory that does not depend on the length of the stream, however it is delivered and whether or not it fails near its end.",
  ["inputs", "schedules", "fault_sequences"],
  "every stream length (megabytes to more than memory), every read size, interruptions and partial writes, failures near the end of either pass",
  "Every test signs or verifies less than 100 bytes.",
  ["src/lib.rs", "src/crypto/blake2b.rs"],
  [("fixed-size buffer in the hashing loop", "src/lib.rs prehash"), ("fixed-size buffer in the output loop", "src/lib.rs verify")],
  observe=["peak of live heap bytes at the allocator seam during the call"])

p("C25", "No operation does more than it was asked to",
  "Verification writes nothing but the requested output of verified data to standard output, and to standard error only when it is not quiet and has found the signature valid, and then shows exactly the verified trusted comment, never an unverified one. Signing, loading, parsing, opening with a given password and writing keys print nothing and ask nobody; without a given password exactly one line per question is taken from the terminal. A load opens only the file it names, and no operation creates, changes or removes a file. Verifying and loading need neither randomness nor a sensible clock nor, without output, a source that can be repositioned, and environment variables change nothing.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every combination of flags, valid, tampered and foreign signatures, right and wrong passwords; any files lying around, input queued on the terminal, environment variables, missing entropy, any clock, and faults in every call",
  "Tests look at return values only: nothing printed, read from a terminal, opened or changed is observed.",
  ["src/lib.rs", "src/helpers.rs", "src/secret_key.rs", "src/keypair.rs", "src/public_key.rs", "src/signature_box.rs"],
  [("status messages only after verification and unless quiet", "src/lib.rs verify"), ("progress notes and prompts only without a given password", "src/secret_key.rs, src/keypair.rs"), ("one prompt per question", "src/helpers.rs get_password")],
  observe=["bytes on standard output, standard error and the terminal", "lines taken from the terminal", "files opened, created, changed or removed", "other calls with effects outside the process"])

p("C26", "No operation depends on what the process did before",
  "The result of every operation (success or failure, the error, the values and files it produces apart from fresh randomness, what it prints, how much it asks at the terminal) is determined by its arguments, the objects it is called on, the files it names, the clock and the terminal input of that moment. Nothing else decides it, environment variables in particular. It is the same in a fresh process and after any history of other operations in the same process, successful or failed, on any threads, with the same or other keys, passwords, files, signatures and flags; using an object never changes what it means.",
  ["histories", "inputs", "fault_sequences"],
  "every operation after every history: the same objects, texts, paths, passwords, salts and identifiers used before with something else about them changed, in any order and number",
  "Each test makes its own keys and signatures and uses them once; no test compares an operation with the same operation after others.",
  ["src/lib.rs", "src/secret_key.rs", "src/public_key.rs", "src/signature_box.rs", "src/keypair.rs", "src/helpers.rs"],
  [("no statics, caches or interior mutability", "whole crate"), ("every load reads its file anew", "from_file"), ("every opening derives its key anew", "src/secret_key.rs from_box_")],
  observe=["result, value, standard output, standard error, terminal of the same operation in a fresh process and after a history"])

p("C27", "The work an operation does is in proportion to its input",
  "For every operation, the computation executed, the memory asked for, the bytes copied in memory and the calls made into the environment stay below a constant plus a constant multiple of the size of what it was given (the stream, text, file, comment or password), however the input is shaped and however small the pieces in which it is delivered or accepted; key derivation, whose cost the key's own limits decide, is counted separately.",
  ["inputs", "fault_sequences"],
  "every size and shape of files, comments, passwords and streams, hostile ones included, and every way of delivering them in pieces",
  "Tests use inputs of a few hundred bytes, on which quadratic and linear work cannot be told apart.",
  ["src/lib.rs", "src/signature_box.rs", "src/public_key.rs", "src/secret_key.rs", "src/helpers.rs"],
  [("the stream is hashed in pieces as it is read", "src/lib.rs prehash"), ("texts are split in one pass", "src/signature_box.rs From<String>"), ("comments are moved, not searched repeatedly", "sign, verify")],
  observe=["basic blocks executed", "bytes asked from the allocator", "bytes moved by memcpy and memmove", "calls into the environment"])

p("C28", "No operation leaves anything behind in the process",
  "When an operation is over, whether it succeeded, failed, or was left through a panic of a caller's stream, and its result was dropped, the process holds no descriptor and runs no thread because of it, and its memory has not grown: any number of operations, on ever new keys, files, passwords, comments and data, with or without faults, run in bounded memory.",
  ["histories", "inputs", "fault_sequences"],
  "every long history of operations, and every fault or panic at any point of each of them",
  "Each test performs a few operations and exits; what they leave behind is not looked at.",
  ["src/lib.rs", "src/signature_box.rs", "src/public_key.rs", "src/secret_key.rs", "src/keypair.rs", "src/helpers.rs"],
  [("no statics or registries", "whole crate"), ("files are closed on all paths", "from_file"), ("the terminal is closed and restored on all paths", "src/helpers.rs get_password")],
  observe=["heap bytes held after each operation", "open descriptors", "threads that have not ended"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
