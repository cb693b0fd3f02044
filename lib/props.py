#!/usr/bin/env python3
"""The properties, and from them properties.jsonl and MANIFEST.json
(python3 lib/props.py rewrites both)."""
import json, os, sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, level='exploration', hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state or [], observe=observe or [], level=level, hook=hook))


HS = 'src/protocol/handshakestate.c'
SY = 'src/protocol/symmetricstate.c'
CS = 'src/protocol/cipherstate.c'
HA = 'src/protocol/hashstate.c'
DH = 'src/protocol/dhstate.c'
SG = 'src/protocol/signstate.c'
PA = 'src/protocol/patterns.c'
NA = 'src/protocol/names.c'
RS = 'src/protocol/randstate.c'
RO = 'src/protocol/rand_os.c'
UT = 'src/protocol/util.c'
PB = 'src/protobufs/protobufs.c'
LO = 'src/keys/loader.c'
CE = 'src/keys/certificate.c'
EXPL = 'Bounded generated-input search: no failure among the cases counted in the evidence, on the reference, libsodium and OpenSSL builds of the library. Trusts OpenSSL 3 as the source of the primitives and the model written from the Noise specification, and the compiler and sanitizers.'

prop('C01', 'Handshakes produce exactly the bytes the Noise specification prescribes',
     'For every supported protocol name (pattern, prefix, DH, hybrid, cipher and hash), every choice of keys, prologue, pre-shared key and payloads, both parties of an honest session emit exactly the messages that the Noise specification (with the noise-c rules for pre-shared keys, fallback and hybrid forward secrecy) prescribes, recover each payload, agree on the handshake hash, and split into transport keys that interoperate in both directions. Messages and keys depend only on those inputs and on the random bytes drawn, and fresh ephemeral keys are drawn for every session.',
     ['inputs', 'configurations', 'histories'],
     'all protocols (23 patterns and their hfs forms, 2 prefixes, 3 DH functions, 4 hybrid settings, 2 ciphers, 4 hashes), keys, prologues, PSKs and payload sizes 0..65535',
     'The shipped vectors fix one set of keys and payloads for a sample of protocol names; they cannot cover every combination of name, key, prologue, PSK and payload length.',
     [HS, SY, CS, HA, DH, PA, NA], [{'name': 'pattern token interpreter', 'where': HS}, {'name': 'MixKey/MixHash/EncryptAndHash/Split', 'where': SY}, {'name': 'pattern table', 'where': PA}],
     'model-based property testing of whole sessions against an independent executable model of the specification', EXPL,
     observe=['noise_handshakestate_write_message', 'noise_handshakestate_read_message', 'noise_handshakestate_split', 'noise_handshakestate_get_handshake_hash'])

prop('C02', 'A handshake between parties that disagree, or that is tampered with, fails',
     'If any byte of a handshake message protected by the pattern is changed, truncated, extended, replayed or taken from another session, or if the two parties disagree on protocol, prologue, pre-shared key or a pre-known static key, then the receiving party rejects that message or a later one, or, where nothing was authenticated yet, the transport messages do not decrypt. A rejecting call returns the documented error, delivers no payload and leaves the session unable to continue or to be split.',
     ['inputs', 'histories', 'configurations'],
     'every protocol, every message of the session, every kind and position of alteration, every parameter on which the two sides may differ',
     'The tests exercise one or two hand-picked corruptions; the claim ranges over every byte position of every message of every protocol.',
     [HS, SY, CS], [{'name': 'DecryptAndHash and MAC check', 'where': SY}, {'name': 'FAILED action after an error', 'where': HS}],
     'mutation-based property testing of sessions; a model predicts the message at which rejection is due', EXPL)

prop('C03', 'The handshake API enforces keys, turns and completion in any call sequence',
     'Whatever sequence of calls is made, a handshake starts only when the keys its pattern requires are present (and reports which is missing), sends and receives only in the prescribed turn and only as many messages as the pattern has, splits exactly once and only after completion, and otherwise reports the documented error without changing anything. A creation call that fails leaves the caller with a null object.',
     ['histories', 'inputs', 'configurations'],
     'random call sequences (valid, early, late, repeated, with missing keys and too-small buffers) over all patterns, both roles',
     'The tests call the functions in the intended order plus a few chosen mistakes; histories are unbounded.',
     [HS, PA], [{'name': 'action state machine', 'where': HS}, {'name': 'requirement flags', 'where': HS}],
     'stateful (model-based) property testing with random call histories', EXPL,
     state=[{'name': 'action', 'meaning': 'what the caller has to do next', 'where': HS}])

prop('C04', 'A null remote public key never yields an established session',
     'When a peer presents an all-zero Curve25519 or Curve448 public key, as its ephemeral, static or hybrid key, or such a key is configured in advance for the remote party, the handshake is refused with an error at that point, whatever the pattern and role, and no payload is delivered.',
     ['inputs', 'configurations'], 'every pattern, position of the key (ephemeral, static, hybrid), sent in the clear or encrypted, both roles',
     'Tests cover null keys set through the API, not every token position in every pattern.',
     [HS, DH], [{'name': 'null key checks while reading tokens and at start', 'where': HS}],
     'property testing: an attacker built from the model sends null keys in every position of every pattern', EXPL)

prop('C05', 'Noise Pipes fallback works from both sides and only where it is allowed',
     'When a first message is rejected or the responder prefers to, both parties of a handshake whose initiator knew the responder key in advance can fall back to XXfallback (or its hybrid variant), keep the already exchanged ephemeral keys and prologue, and finish with exactly the messages the specification prescribes. At any other moment, from any other pattern, or to any other target, fallback is refused with the documented error and changes nothing.',
     ['histories', 'inputs', 'configurations'],
     'all patterns as origin, all targets, every point of the session, all reasons of rejection',
     'The tests fall back from IK with fixed keys and payloads; not at every point, from every pattern, with hybrid keys or PSKs.',
     [HS, PA], [{'name': 'fallback', 'where': HS}], 'model-based property testing of Noise Pipes sessions, plus enumeration of every point x target', EXPL)

prop('C06', 'Cipher objects compute exactly the standard AEAD for every size and nonce',
     'For each cipher, key, 64-bit nonce, associated data and plaintext of any length allowed, encryption yields exactly the standard ChaChaPoly or AES-256-GCM ciphertext and tag with the nonce layout of the Noise specification, decryption of it returns the plaintext, and lengths are limited to 65535-byte packets. Without a key the data passes through unchanged, and all back ends agree.',
     ['inputs', 'configurations'], 'sizes 0..65535 including block edges, all 64-bit nonces, associated data of any size',
     'Tests use a handful of standard vectors; edge lengths, counter carries and big associated data are not covered.',
     [CS, 'src/backend/ref/cipher-aesgcm.c', 'src/backend/ref/cipher-chachapoly.c', 'src/backend/openssl/cipher-aesgcm.c', 'src/backend/sodium/cipher-aesgcm.c', 'src/backend/sodium/cipher-chachapoly.c', 'src/crypto/ghash/ghash.c', 'src/crypto/chacha/chacha.c'],
     [{'name': 'AEAD back ends', 'where': 'src/backend'}], 'differential property testing against OpenSSL', EXPL)

prop('C07', 'Any change to ciphertext, tag, associated data, key or nonce is rejected',
     'A packet whose ciphertext, tag, length, associated data, key or nonce differs from what was encrypted is rejected with the MAC-failure error (or the length error if too short for a tag). The rejection does not consume the nonce, so the genuine packet still decrypts afterwards, and the caller never finds the plaintext in the buffer.',
     ['inputs', 'histories'], 'every bit position of packets of every size; every kind of mismatch',
     'The tests flip a few bits of fixed vectors.', [CS, 'src/backend'], [{'name': 'constant-time tag comparison', 'where': 'src/backend'}],
     'mutation-based property testing with a differential oracle', EXPL)

prop('C08', 'A cipher object never uses the same nonce twice with one key',
     'In every sequence of encrypt, decrypt, set-nonce and set-key calls, no two encryptions under one key ever use the same nonce; each successful operation advances the nonce by one and a failed one never moves it back; the last value (2^64-1) is never used and reports the nonce error from then on; and the nonce can be moved forward but not backward.',
     ['histories', 'inputs'], 'random operation sequences including failures and nonces near 2^64-1 and 2^32',
     'Histories of operations are unbounded; the tests count a few steps.', [CS], [{'name': 'nonce counter', 'where': CS}],
     'stateful property testing against a counter model, comparing every ciphertext', EXPL,
     state=[{'name': 'n', 'meaning': 'next nonce', 'where': CS}])

prop('C09', 'Hashes, HKDF and PBKDF2 equal their standards however the input is split',
     'Each hash object returns the standard digest of the concatenation of everything fed since the last reset, for every length and every way of splitting it into updates, and can be reused afterwards. The two-output HKDF of the Noise specification and PBKDF2 return the standard values for all key, salt and output lengths, in and out of place.',
     ['inputs', 'histories'], 'lengths 0..>200 kB (and beyond the 32-bit length counters), arbitrary splits, key sizes around the block size, output truncation',
     'Tests check short standard vectors in one or few pieces.', [HA, 'src/crypto/blake2/blake2s.c', 'src/crypto/blake2/blake2b.c', 'src/crypto/sha2/sha256.c', 'src/crypto/sha2/sha512.c', 'src/backend'],
     [{'name': 'HMAC/HKDF/PBKDF2 over any hash', 'where': HA}], 'differential property testing against OpenSSL with random chunking', EXPL)

prop('C10', 'Diffie-Hellman equals X25519 and X448 for every key pair and point',
     'For every private key the public key, and for every private and public key the shared secret, equals what RFC 7748 prescribes (including clamping, ignored top bit, non-reduced and low-order points), so both parties always compute the same secret. Missing keys are reported as such.',
     ['inputs', 'configurations'], 'all private keys; honest, arbitrary, low-order and non-canonical points, all back ends',
     'A few RFC vectors cannot reveal carry or reduction errors in field arithmetic.', [DH, 'src/backend/ref/dh-curve25519.c', 'src/backend/ref/dh-curve448.c', 'src/backend/sodium/dh-curve25519.c', 'src/crypto/donna', 'src/crypto/curve448/curve448.c', 'src/crypto/goldilocks'],
     [{'name': 'Montgomery ladders', 'where': 'src/crypto'}], 'differential property testing against OpenSSL with edge-biased field elements', EXPL)

prop('C11', 'New Hope exchanges always agree and equal the reference algorithm',
     'For all random inputs both New Hope parties derive the same 32-byte secret, and keys, messages and secret are exactly those of the published New Hope algorithm with the random bytes drawn; a secret derived for one exchange is not obtained from an unrelated message. The scheme accepts ephemeral use only and reports static use as not applicable.',
     ['inputs', 'configurations'], 'all random seeds and noise; arbitrary and non-reduced received polynomials',
     'The tests run one agreement with one seed.', ['src/backend/ref/dh-newhope.c', 'src/crypto/newhope', DH],
     [{'name': 'reconciliation', 'where': 'src/crypto/newhope/error_correction.c'}, {'name': 'NTT', 'where': 'src/crypto/newhope/ntt.c'}],
     'differential property testing against an independent model of New Hope', EXPL)

prop('C12', 'Ed25519 signatures equal the standard and every alteration is rejected',
     'Signing any message gives exactly the RFC 8032 signature for that key, which verifies with only the public key; and a signature checked against any other message, key, or altered signature (including S increased by the group order) is rejected with the signature error.',
     ['inputs'], 'all keys and messages up to several kB; bit flips, malleations, swaps', 'Few fixed vectors; no malleability, no random alteration.',
     [SG, 'src/backend/ref/sign-ed25519.c', 'src/backend/sodium/sign-ed25519.c', 'src/crypto/ed25519'], [{'name': 'Ed25519 back ends', 'where': 'src/backend'}],
     'differential and mutation-based property testing against OpenSSL', EXPL)

prop('C13', 'Names, identifiers and error strings convert back and forth exactly',
     'A protocol name parses if and only if it is a well-formed combination of known algorithm names, and then yields those identifiers; formatting identifiers yields the canonical name which parses back to the same identifiers; names that do not fit the given buffer are refused without writing beyond it. Looking up single algorithm names and identifiers is one-to-one per category, and error codes give a stable, terminated string within any buffer size.',
     ['inputs'], 'all identifier combinations; valid names and mutations of them; all buffer sizes', 'Tests list some names; the space of malformed names and buffer sizes is unbounded.',
     [NA, 'src/protocol/errors.c'], [{'name': 'name table', 'where': NA}], 'property testing: exhaustive identifiers, round-trips, and a grammar-based reference parser', EXPL)

prop('C14', 'The protobuf writer emits standard encodings and measures exactly what it writes',
     'For every sequence of fields and nested elements, the encoder produces the standard protocol-buffer wire encoding of those values (minimal varints, right wire types and tags, correct nested lengths); a measuring pass reports exactly the number of bytes the writing pass produces; and a buffer that is too small gives the space error without any write outside it.',
     ['inputs', 'histories'], 'all field types, tags, values, nesting; all buffer sizes', 'Tests check a few values per type.', [PB],
     [{'name': 'backward writer', 'where': PB}, {'name': 'measuring mode', 'where': PB}], 'property testing against an independent encoder', EXPL)

prop('C15', 'The protobuf reader returns what was encoded and rejects everything malformed',
     'For every byte string, reading fields one by one returns exactly the tags, types and values a standard protocol-buffer decoder finds, up to the first malformed, truncated or wrong-type item, which yields the documented error (after which nothing more is delivered); peeking agrees with reading; skipping unknown fields lands on the next one; and elements end exactly where their length says.',
     ['inputs', 'histories'], 'valid encodings, non-minimal varints, truncations, mutations and random bytes; every reader operation', 'Tests decode a few well-formed values.', [PB],
     [{'name': 'reader', 'where': PB}], 'differential property testing against an independent decoder', EXPL)

prop('C16', 'No input can make a parser read or write outside its memory',
     'Whatever bytes arrive - key files, certificates, chains, encrypted keys, protobuf data, protocol names, handshake or transport messages - the library accepts or rejects them without accessing memory outside the objects and buffers given to it, without undefined arithmetic, leaks, or memory out of proportion to the input.',
     ['inputs'], 'all byte strings fed to every parsing entry point', 'Memory errors need the one malformed input that triggers them; the tests run without sanitizers on good inputs.',
     [LO, CE, PB, NA, HS], [{'name': 'length checks', 'where': PB}], 'coverage-guided fuzzing (libFuzzer, ASan, UBSan, leak check) with structured seeds and round-trip oracles', EXPL)

prop('C17', 'String fields are accepted exactly when they are valid UTF-8',
     'A string is accepted by the string checks of the protobuf layer, and by readers that enforce them, if and only if it is well-formed UTF-8 of the documented profile (no overlong forms, surrogates, values beyond U+10FFFF, or embedded NULs), whatever its length and position in the data.',
     ['inputs'], 'all byte strings; every code point; truncations and mutations', 'There are over a million code points and infinitely many malformed sequences.', [PB],
     [{'name': 'UTF-8 validator', 'where': PB}], 'property testing against an independent UTF-8 decoder; enumeration of code points', EXPL)

prop('C18', 'Certificates, chains and key objects survive saving and loading unchanged',
     'Every certificate, certificate chain or private key built through the API and written out reads back as an equal object, writes the same bytes again, and matches the documented message layout; the containers behave like ordered lists under any sequence of add, insert, get, clear and set calls.',
     ['inputs', 'histories'], 'random objects of every message type, with absent, empty, large and repeated fields; random operation sequences', 'The object API has no such tests at all for most types.',
     [CE, LO, PB], [{'name': 'generated readers and writers', 'where': CE}], 'round-trip and model-based property testing with an independent encoder', EXPL)

prop('C19', 'An encrypted private key opens with its passphrase and with nothing else',
     'A private key saved under a passphrase and any supported protection algorithm loads back identically with that passphrase, in any build; with any other passphrase, or after any change to the protected data, salt, iteration count or algorithm name, loading is refused and no key object is returned. The protected form is exactly the documented one and never contains the key in the clear, and two saves never share a salt.',
     ['inputs', 'fault_sequences'], 'random keys, passphrases and protection names; every position of alteration', 'Tests do not cover the loader at all.', [LO],
     [{'name': 'PBKDF2 + AEAD wrapping', 'where': LO}], 'round-trip, mutation and differential property testing (independent decryption)', EXPL)

prop('C20', 'Saving to and loading from files reports every failure and loses nothing',
     'A file that was reported as saved contains exactly the object; any failure of the file system (missing, unreadable, full, write or close error) is reported as the system error, never as success; files that are empty, too long or damaged are refused; and a failed load never hands out an object.',
     ['fault_sequences', 'inputs'], 'failures injected at every file operation; random file contents and sizes around the limit', 'Tests do not touch the file functions; faults do not occur in test runs.', [LO],
     [{'name': 'stdio error checks', 'where': LO}], 'property testing with fault injection into stdio', EXPL, level='fault_enumeration')

prop('C21', 'Random output follows the documented construction and never repeats',
     'The output of a random-number object is exactly that of the documented ChaCha20 construction for the seed material drawn, for every sequence of generate, reseed and padding calls of any size; it rekeys after every request and every block limit, draws new seed material when the documented amount has been produced, and never returns the same stream twice. Padding is random of the requested size or zeros as requested.',
     ['histories', 'inputs'], 'random sequences of requests of all sizes, including the reseed limit', 'Randomness tests only check that outputs differ.', [RS],
     [{'name': 'fast key erasure and reseed counter', 'where': RS}], 'model-based property testing with scripted entropy', EXPL)

prop('C22', 'System entropy is complete or the process stops',
     'Every byte of key material and seeds comes from the operating system, in full: interrupted reads are repeated, a short read is never taken for a complete one, and when the source cannot be opened, ends or fails, the process ends with a failing status rather than continue with unfilled or predictable bytes.',
     ['fault_sequences'], 'all sequences of short reads, interruptions and errors of the entropy source', 'Faults of the entropy device never occur in the tests.', [RO, 'src/protocol/randstate.c', 'src/backend'],
     [{'name': 'read loop', 'where': RO}], 'fault-injection property testing of the entropy source', EXPL, level='fault_enumeration')

prop('C23', 'Calls never write outside the caller\'s buffers or beyond what they report',
     'For every call that produces output, with every buffer capacity from zero up, the call either reports that the space is too small (leaving the rest of the caller\'s memory untouched) or writes exactly what it reports, and never reads or writes outside the given buffer.',
     ['inputs'], 'every output function x every capacity x valid and invalid lengths', 'Tests use sufficient buffers and no guard zones.', [HS, CS, HA, DH, SG, NA, PB, UT],
     [{'name': 'length checks before every write', 'where': HS}], 'property testing with exactly-sized guarded buffers under AddressSanitizer', EXPL)

prop('C24', 'Secret keys are wiped from memory before it is given back',
     'When handshake, cipher, symmetric, DH, signature, hash or random objects, or loaded private keys, are freed, cleared or replaced, no memory returned to the allocator still contains private keys, shared secrets, chaining, handshake or transport keys, passphrase-derived keys or decrypted key files; an object whose key was cleared or replaced holds nothing of the old private key; and a handshake message that was read, or that could not be read, is cleared from the caller\'s buffer.',
     ['histories', 'inputs'], 'random sessions and object histories, ended at any point', 'No test inspects freed memory.', ['src/protocol/internal.c', UT, HS, SY, CS, DH, 'src/backend', LO, PB],
     [{'name': 'noise_clean / noise_free', 'where': 'src/protocol/internal.c'}], 'property testing with an allocator that scans every freed block for the known secrets', EXPL)

prop('C25', 'Running out of memory at any allocation is reported cleanly',
     'If any single memory allocation (or all from some point on) fails, the call in progress reports an error, never crashes, never reports success for an incomplete object, releases everything it had allocated, and leaves existing objects usable and freeable.',
     ['fault_sequences', 'inputs'], 'every allocation of every operation made to fail in turn', 'Allocation never fails in the tests.', [HS, SY, CS, HA, DH, SG, PB, LO, CE],
     [{'name': 'null checks after every allocation', 'where': HS}], 'exhaustive allocation-fault injection over generated operations, with leak accounting', EXPL, level='fault_enumeration')

prop('C26', 'DH and signature key objects follow their documented life cycle',
     'For every sequence of set, generate, get, copy, clear and calculate calls on DH and signature key objects, the keys held, the answers about which keys are present, and the errors are exactly those documented: a mismatched pair is refused, a private key alone derives its public key, reads of absent keys are errors, copies are equal and independent.',
     ['histories', 'inputs'], 'random operation sequences over all key types', 'Tests run each call once or twice.', [DH, SG],
     [{'name': 'key type state', 'where': DH}], 'stateful model-based property testing', EXPL)

prop('C27', 'Fingerprints are the documented hash of the public key',
     'The basic and full fingerprints of any public key are the documented truncation of SHA-256 in lower-case colon-separated hexadecimal, whatever the key, produced only when a public key is present and the buffer is large enough, never writing beyond it.',
     ['inputs'], 'all keys, types and buffer sizes', 'Tests check one vector per type.', [DH, SG, 'src/protocol/internal.c', UT], [{'name': 'fingerprint formatting', 'where': UT}],
     'property testing against an independent formatter', EXPL)

prop('C28', 'The key tool\'s commands produce correct, consistent files or fail with an error',
     'Keys and certificates generated by the command-line tool load with the passphrase given, contain the requested identity and algorithm keys, match between private and public output, and are shown as stored; wrong passphrases, bad options or unreadable files give an error message and a failing exit status, never a success.',
     ['inputs', 'configurations'], 'random option combinations, names, passphrases and file states', 'There are no tests of the tool.', ['tools/keytool', LO, CE],
     [{'name': 'commands', 'where': 'tools/keytool'}], 'property testing of the built tool with an independent parser of its files', EXPL)

prop('C29', 'Code made by the protobuf compiler round-trips every message faithfully',
     'For any valid schema, the generated code compiles, and values stored in generated objects are encoded in the standard protocol-buffer encoding and decoded back identically, with repeated fields in order, unknown fields skipped, absent fields left absent, and malformed input refused; schemas with errors are refused with a message, and outputs that cannot be written in full are reported and not left behind cut off.',
     ['programs', 'inputs'], 'random schemas (all scalar types, nesting, repeated, optional, packages) and random values', 'Only the checked-in certificate code was ever generated.', ['tools/protoc', PB],
     [{'name': 'generator', 'where': 'tools/protoc'}], 'generation of random schemas and values, compiled and compared with an independent encoder', EXPL)

prop('C30', 'The echo example interoperates for every protocol and refuses bad peers and keys',
     'The echo client and server complete a handshake for every protocol they offer and return exactly the bytes sent, for any line and padding, and end with an error when keys do not match; the key-file readers of the examples accept exactly the documented forms of keys.',
     ['inputs', 'configurations'], 'protocol names, keys, padding options, input lines', 'The examples have no tests.', ['examples/echo'],
     [{'name': 'packet framing', 'where': 'examples/echo'}], 'property testing of the real programs over loopback', EXPL)

prop('C31', 'The symmetric-state API composes hash, cipher and key operations as specified',
     'For every sequence of mix-key, mix-hash, encrypt-and-hash, decrypt-and-hash and split calls, the symmetric state produces the bytes, hashes and keys the Noise specification prescribes for that sequence, refuses use after splitting or with the wrong sizes with the documented error, and changes nothing when it refuses.',
     ['histories', 'inputs', 'configurations'], 'random operation sequences for every cipher and hash', 'Tests follow one canonical sequence.', [SY, CS, HA],
     [{'name': 'ck / h / key chain', 'where': SY}], 'stateful model-based property testing', EXPL)

prop('C32', 'Independent objects used in different threads do not affect each other',
     'Work on separate objects gives the same results as if each ran alone, whether the calls are interleaved in one thread in any order or made by several threads at once, from the first use of the library on: there is no hidden shared state and there are no data races on it. Random values drawn by different threads never coincide.',
     ['schedules', 'inputs'], 'random sessions and key operations in several threads, including first use of the library', 'All tests are single-threaded and finish with one object before they use the next.', [HS, HA, RS, 'src/backend', 'src/protocol/util.c'],
     [{'name': 'no mutable globals', 'where': 'src'}], 'randomised multi-threaded property testing under ThreadSanitizer, results compared with a single-threaded run', EXPL)

prop('C33', 'The other forms of the reference crypto compute the same standards',
     'The code chosen by word size, CPU features or configure options (32, 16 and 8-bit Poly1305, ChaCha20 and BLAKE2s without vectors, 32-bit X25519, 32-bit, SSE2 and assembler-free Ed25519, 32-bit and portable 64-bit Curve448), and the default code built with or without optimisation and with the instructions of the CPU, encrypts, authenticates, hashes, agrees keys and signs exactly as the standards say, as the form built here by default does, for every input.',
     ['inputs'], 'as C06, C07, C09, C10 and C12', 'The suite only ever runs the one form the machine it runs on selects.', ['src/crypto', 'src/backend/ref', 'configure.ac'],
     [{'name': '--with-ed448-arch; __WORDSIZE, __SSE2__, POLY1305_*BIT, ED25519_FORCE_32BIT', 'where': 'configure.ac, src/crypto'}], 'property-based testing of each form of the code, built with the macros that select it, differential against OpenSSL', EXPL)


prop('C34', 'What is executed and which addresses are touched does not depend on secrets',
     'For inputs of the same sizes, the reference cryptography (X25519, X448, Ed25519 signing, New Hope noise sampling and reconciliation apart from its documented rejection sampling, ChaCha20, Poly1305, GHASH, the hashes) and the library around it (comparison of tags and keys, null checks, key set-up, encryption, decryption, handshakes, random numbers) take the same branches and read and write the same addresses whatever the values of private keys, shared secrets, session keys and plaintext; in particular tags and keys are compared in the same way wherever they first differ. AES with its documented look-up tables is excepted.',
     ['inputs', 'configurations'], 'pairs of secrets (random, sparse, edge values) for every operation, with sizes, public inputs and algorithms drawn at random; the reference code in its default, 32-bit, 64-bit and 8-bit forms and the library around libsodium and OpenSSL',
     'The result of a comparison or a key agreement is the same whether or not its timing betrays the secret; no test of results can see it.',
     [UT, DH, CS, 'src/crypto/donna', 'src/crypto/curve448', 'src/crypto/ed25519', 'src/crypto/ghash', 'src/crypto/newhope', 'src/backend/ref'],
     [{'name': 'noise_is_equal, noise_is_zero', 'where': UT}, {'name': 'masked selection and swaps', 'where': 'src/crypto'}],
     'metamorphic property testing: two runs that differ only in secrets must give equal traces of basic blocks and addresses (instrumented build)', EXPL.replace(' Trusts OpenSSL 3 as the source of the primitives and the model written from the Noise specification, and the compiler and sanitizers.', ' Judges the code clang makes at -O1; instructions whose own time varies with their operands are not seen. What libsodium, libcrypto and the AES tables do inside is not traced.'))

prop('C35', 'No result depends on memory that was never set',
     'Whatever is asked of the library - handshakes, encryption, hashing, key agreement, encodings, key files, random numbers, and all the error paths of these - no branch it takes, no address it forms, nothing it returns and nothing it writes to a file or the system depends on memory that was allocated or declared but never given a value.',
     ['inputs', 'histories', 'configurations'], 'the generated cases of the other checks (sessions, primitives, encodings, key files, random numbers, small buffers, failing allocations)',
     'A value that happens to be zero or left over from before gives the expected result in a test; whether it was ever set cannot be told from results.',
     ['src/protocol', 'src/backend', 'src/crypto', 'src/protobufs', 'src/keys'], [{'name': 'noise_new_object clears objects; out parameters cleared on error', 'where': UT}],
     'property testing over the generators of the other checks with the definedness of every byte tracked by Valgrind memcheck; outputs are checked for definedness as they are compared', EXPL)

prop('C36', 'Everything allocated is given back: no leak on any path',
     'When every object a caller was given has been freed, nothing that the library allocated for them - its own memory, the objects it obtained from OpenSSL, file descriptors and streams it opened - remains, whatever succeeded or failed in between: refused names and keys, rejected messages, fallbacks, truncated files, replaced keys, failed allocations.',
     ['inputs', 'histories', 'configurations'], 'the generated cases of the other checks, each followed by freeing what it holds',
     'The suite is not run under a leak checker, and the paths that leak are the many combinations of errors and replacements it does not visit.',
     ['src/protocol', 'src/backend', 'src/keys', 'src/protobufs'], [{'name': 'the destroy functions of the back ends; noise_*_free', 'where': 'src'}],
     'property testing over the generators of the other checks with an allocation and descriptor ledger kept per case', EXPL)

prop('C37', 'A call with wrong arguments gets its documented error and changes nothing',
     'A call with a null pointer, a length that does not fit, an unknown identifier, role or name, a flag or key of the wrong kind, or made when the object is not ready for it, returns the error documented for that mistake (or null, zero or false where it returns no error code) without touching memory outside what it was given; and the object afterwards behaves in every way as if the call had not been made: later keys, nonces, hashes, messages, random bytes and encodings are the same.',
     ['inputs', 'histories'], 'random histories of correct calls with wrong ones of every kind put in between, on cipher, hash, DH, signature, random, symmetric and handshake objects and on protobufs, and the calls that load and save keys and certificates',
     'The suite makes a few wrong calls on fresh objects and looks at the error code; that a refused call leaves no trace in what follows, wherever it comes in the history, it does not see.',
     [HS, SY, CS, HA, DH, SG, RS, PB, LO, CE], [{'name': 'validation of parameters before any change', 'where': 'src/protocol'}, {'name': 'sticky error and position', 'where': PB}],
     'metamorphic property testing: the same history with and without the refused calls on twin objects must give the same results; error codes against the documentation', EXPL)

prop('C38', 'No function of the library leaves secrets behind on the stack',
     'When a function of the library outside the bundled primitives (src/protocol, src/keys, src/protobufs, src/backend) returns, its stack frame holds no private key, shared secret, HMAC or HKDF intermediate, chaining, handshake or transport key, passphrase-derived key, generator state or key stream: temporaries are wiped on every path, also the failing ones, whatever their sizes.',
     ['histories', 'inputs'], 'random sessions, object histories and key files, as for C24', 'No test looks at dead stack frames.',
     ['src/protocol', 'src/keys', 'src/backend'], [{'name': 'noise_clean of local buffers', 'where': 'src/protocol/util.c'}],
     'property testing over generated histories with every dying stack frame of the instrumented library copied and searched for the secrets of the case, known from the model', EXPL)


def main():
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    import driver
    with open(f'{VERIF}/properties.jsonl', 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': p['mech']}}
            if p['state']:
                d['anchors']['state'] = p['state']
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            d['anchors']['hook_needed'] = p['hook']
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in driver.CHECKS:
            checks.append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} quick',
                           'thorough_cmd': f'python3 check.py {p["id"]} thorough',
                           'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['technique'],
                           'level': p['level'], 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'check under construction'})
    m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: the checks build unmodified sources with sanitizers and link-time wrapping. See DESIGN.md; findings in KNOWN_FINDINGS.txt.'}
    with open(f'{VERIF}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
