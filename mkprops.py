#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["syscall boundary (simulated kernel)", "returned error", "files left on the simulated disk"]
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))
KEY, SIG, COM, CRY, B64, CLI = "signify/key.go", "signify/signature.go", "signify/common.go", "crypto/crypto.go", "base64/coding.go", "cmd/psignify/main.go"

p("C01", "Signing that reports success has stored a valid signature of the whole message",
  "Whenever signing a file reports success, the signature file (the one named, or <message>.sig by default) holds exactly one signature in signify form, carrying the signing key's number, that verifies with the matching public key over exactly the bytes of the message file. With intact inputs and only legal disturbances (short transfers, interrupted calls, delays) signing succeeds; an I/O error that keeps it from reading all of its inputs or storing all of its output is reported as an error.",
  ["inputs", "fault_sequences", "schedules"], "every message length and content, every key (protected or not), every placement of short/interrupted/failed reads, writes, opens and closes, full disks",
  "TestSign signs one 1 KB text once with one key on a healthy disk; no test sees a short read, an interrupted call, a full disk or a failing close.",
  [KEY, SIG, COM], [("Sign reads key and message, signs, writes the signature and returns every error", "signify/key.go:Sign"), ("writeDataFile reports write and close errors", "signify/common.go:writeDataFile")])
p("C02", "Verification accepts only a genuine signature over the exact stored message",
  "Verification reports success only if the signature file holds a complete signify signature whose algorithm is Ed25519, whose key number equals the public key's, and which is a valid Ed25519 signature by that public key over the complete message file as stored. Damaged, torn, truncated, extended, substituted or half-written keys, messages or signatures, and I/O errors at any point of any of the three files, never yield success.",
  ["inputs", "fault_sequences", "crash_points", "schedules"], "every substitution or damage of key, message and signature files, every crash point of the program that wrote them, every read fault, every interleaving with a concurrent rewriter",
  "The tests only check that two genuine signatures are accepted; not a single test expects rejection.",
  [KEY, SIG, COM], [("algorithm, key-number and signature checks", "signify/key.go:verifyEd25519"), ("length checks when parsing", "signify/key.go:readPublicKeyData, signify/signature.go:readSignatureData")])
p("C03", "Sealing that reports success is fully recoverable by the recipient",
  "Whenever encrypting a file reports success, the encrypted file (the one named, or <message>.enc by default) is complete on disk, and opening it with the recipient's secret key yields the message byte for byte, for every message size including empty, and for regular files as well as pipes and other files that report no size in advance. With intact inputs and only legal disturbances encryption succeeds; an I/O error that keeps it from reading the whole message or storing the whole output, including one that only shows when the output is flushed or closed, is reported as an error.",
  ["inputs", "fault_sequences", "schedules"], "every message length (chunk and line boundaries, empty, multi-chunk), every kind of message file, every placement of short/failed reads, writes, closes, full disk, concurrent growth of the message",
  "TestSeal/TestSealUnseal encrypt one 300 KB regular file on a healthy disk; no test uses an empty message, a pipe, a boundary length or a failing write/close.",
  [CRY, B64], [("chunk loop and header", "crypto/crypto.go:seal"), ("final flush, newline and close", "crypto/crypto.go:Seal, base64/coding.go:Encoder.Close")])
p("C04", "Opening that reports success has stored the complete, exact message",
  "Whenever decrypting a file reports success, the output file contains exactly the complete message that was sealed, no more and no less. With an intact encrypted file, the right key and only legal disturbances it succeeds; any I/O error that keeps it from reading the whole encrypted file or storing the whole message, including one that only shows at close, is reported as an error.",
  ["inputs", "fault_sequences", "schedules"], "every message length, every pre-existing output file, every placement of short/interrupted/failed reads and writes, full disks and failing closes",
  "TestOpen decrypts one file once on a healthy disk.",
  [CRY, B64], [("header authentication and per-chunk opening", "crypto/crypto.go:open"), ("decoder fills a whole chunk per read", "base64/coding.go:Decoder.Read")])
p("C05", "A damaged encrypted file never opens as anything but the original message",
  "For an encrypted file that was truncated, torn by a crash, bit-flipped, spliced with chunks of another message, or had chunks reordered, duplicated or dropped, or its header altered, opening either fails or yields exactly the original message. Even when opening fails, whatever it wrote to the output is a prefix of the original message, never altered, reordered or foreign data.",
  ["inputs", "crash_points", "fault_sequences"], "every damage to the stored encrypted file and every crash/power-loss point while it was being written",
  "No test opens a damaged file.",
  [CRY], [("header tag over chunk count and ephemeral key", "crypto/crypto.go:open (auth.Verify)"), ("per-chunk authenticated encryption with a counter nonce", "crypto/crypto.go:open, incrementNonce")])
p("C06", "Sealing is never repeated: fresh keys, distinct keystreams, no plaintext stored",
  "No two encryptions, in any history or interleaving, share an ephemeral public key, and no two chunks of the same or different encrypted files are enciphered with the same keystream, however many chunks a message has. The message itself never reaches the disk in clear through encryption.",
  ["histories", "schedules", "inputs", "fault_sequences"], "every sequence and interleaving of encryptions in one process or several, messages of one to more than 65536 chunks, faults in between",
  "Round-trip tests pass even if the nonce or the ephemeral key is constant.",
  [CRY], [("ephemeral key per seal", "crypto/crypto.go:seal (box.GenerateKey)"), ("nonce counter with carry", "crypto/crypto.go:incrementNonce")])
p("C07", "Successful key generation leaves a matching, loadable, correctly protected pair",
  "Whenever key generation reports success, <name>.sec and <name>.pub both exist complete on disk, carry the same key number and belong together: what the one signs the other verifies, what is sealed to the one the other opens. A key generated with a passphrase unlocks with exactly that passphrase and with no other, stretched by the number of rounds asked for (a number that a key file cannot hold is refused); one generated without a passphrase needs none; with only legal disturbances, generating a pair of a new name succeeds; a fault at any point of generation is reported as an error, and a crash or failure never leaves a mismatched pair that loads.",
  ["inputs", "fault_sequences", "crash_points", "schedules"], "every passphrase (any bytes, any length), every round count, every I/O or crash point during generation, concurrent generations",
  "GenerateKey has no test at all; GenerateKeypair is only called without passphrase.",
  [KEY, COM], [("GenerateKeypair fills both halves from the same secret", "signify/key.go:GenerateKeypair"), ("GenerateKey writes both files and returns errors", "signify/key.go:GenerateKey")])
p("C08", "Secret keys are never exposed while or after being stored",
  "At no instant from its creation on, crash points included, is the file that receives a generated secret key accessible to group or others, whatever the umask. When a passphrase protects the key, neither the unprotected secret key nor any passphrase entered ever reaches the disk or the program's output or error messages.",
  ["schedules", "crash_points", "configurations", "fault_sequences"], "every instant between two system calls of generation (a concurrent local observer), every umask, every crash and fault point",
  "No test looks at file modes or at intermediate states.",
  [KEY, COM], [("mode given when the secret key file is created", "signify/common.go:writeDataFile"), ("secret key masked before it is encoded", "signify/key.go:GenerateKeypair")])
p("C09", "Key generation never overwrites an existing key file",
  "Generating a key pair under a name for which a secret or public key file already exists fails and leaves the existing files byte for byte as they were, also when several generations race for the same name: at most one of them reports success, and the pair on disk is then exactly its pair.",
  ["schedules", "histories", "crash_points"], "every interleaving of concurrent generations, repeated generation, generation after a crashed one",
  "Generation is not tested; races need a controlled schedule.",
  [KEY, COM], [("exclusive creation of both key files", "signify/key.go:GenerateKey, signify/common.go:writeDataFile")])
p("C10", "A damaged secret key is rejected before it is used",
  "If the stored secret key is damaged in its algorithm tag, its key material or its checksum, or is cut short or extended (torn by a crash at any point while being written, truncated, bit-flipped), then signing, decrypting and converting the key report an error, and no signature or decrypted output is produced with it, whether or not the key is passphrase-protected.",
  ["inputs", "crash_points", "fault_sequences"], "every truncation point and every bit position of the stored key, protected or not; every crash point of the writer",
  "All tests use two intact keys.",
  [KEY], [("checksum over the secret key", "signify/key.go:Check, decrypt"), ("length and algorithm checks", "signify/key.go:readPrivateKeyData")])
p("C11", "A failed unlock attempt does not spoil the key: a later right passphrase works",
  "For a loaded protected key and any history of attempts (wrong passphrase, failing prompt, right passphrase), every attempt before the first right one reports an error, the first right one succeeds, and every later use of the key succeeds and yields the same key. The integrity check on the key fails before the first successful unlock and passes after it.",
  ["histories", "inputs"], "every sequence of prompt outcomes and key uses on one loaded key",
  "No test ever enters a wrong passphrase or uses a key twice.",
  [KEY], [("unlock result kept only if the checksum matches", "signify/key.go:decrypt"), ("ToBox skips unlocking once the check passes", "signify/key.go:ToBox")],
  observe=["returned errors and keys", "prompt calls"])
p("C12", "A wrong or missing passphrase changes nothing on disk",
  "When the passphrase entered for a protected key is wrong, empty or cannot be read, signing and decrypting report an error, and every file, in particular a signature or message already stored at the output path, stays as it was; no output file appears.",
  ["histories", "inputs", "fault_sequences"], "every wrong/empty/failed passphrase entry, every pre-existing output, every terminal read fault",
  "The tests install a prompt that always answers correctly.",
  [KEY, CRY], [("key is unlocked before the output is opened", "signify/key.go:Sign, crypto/crypto.go:Open")])
p("C13", "Prompted passphrases are wiped when the operation ends",
  "The buffer holding a passphrase that was prompted for during signing, decrypting or converting a key is overwritten with zeros by the time the operation returns, whichever way it ends: success, wrong passphrase, or an I/O error anywhere after the prompt.",
  ["fault_sequences", "inputs", "histories"], "every outcome of an operation that prompts, every fault placed after the prompt",
  "Tests return a fresh literal from the prompt and never look at it again.",
  [KEY, COM], [("deferred zeroing", "signify/key.go:Sign, ToBox; signify/common.go:zero")], observe=["the slice handed out by the prompt hook, after the operation returned"])
p("C14", "Malformed or torn files are answered with an error, never a crash or a hang",
  "Whatever bytes the key, signature, encrypted and message files hold (empty, torn by a crash at any point, random, oversized lines, wrong lengths, bad base64), every operation on them returns within a number of steps linear in their size (besides the key stretching with the number of rounds a key file asks for), without panicking; and if the file does not hold what the operation needs it returns an error.",
  ["inputs", "crash_points", "fault_sequences"], "every file content, every torn state left by a crashed writer, every read fault",
  "Tests only parse well-formed files.",
  [KEY, SIG, COM, CRY, B64], [("length checks before slicing", "signify/signature.go:readSignatureData, signify/key.go"), ("error returns in the parsers", "signify/common.go:readDataFileBytes")])
p("C15", "The base64 encoder is a faithful stream: any chunking, no lost bytes or errors",
  "However the caller splits its data into writes, what reaches the underlying writer after Close is the standard base64 encoding of all the data, broken by a newline after every 72 characters and newline-terminated. Each Write reports all of its bytes as written or an error, and when the underlying writer fails in any call, the Write or Close in progress reports it: data is never dropped behind a success.",
  ["inputs", "schedules", "fault_sequences"], "every data length, every split into writes, every failing underlying write, interleaved encoders",
  "TestEncodeDecode does one 72-byte write to a buffer that never fails and never calls Close.",
  [B64], [("3-byte carry buffer and line counter", "base64/coding.go:Encoder.Write"), ("final quantum and newline", "base64/coding.go:Encoder.Close")],
  observe=["bytes handed to the underlying writer", "n and error of each Write/Close"])
p("C16", "The base64 decoder is a faithful stream: any buffer size, any source behaviour",
  "Whatever buffer sizes the caller reads with and however the source delivers its bytes (one at a time, empty reads, data together with EOF, line breaks (LF or CRLF) anywhere), the decoder yields exactly the encoded data and then io.EOF, and never panics or stalls. If the source fails, ends inside a quantum or holds invalid characters, the decoder yields a prefix of the data and an error other than io.EOF, never invented bytes.",
  ["inputs", "schedules", "fault_sequences"], "every data length, every sequence of caller buffer sizes, every legal source behaviour, every failure point",
  "TestEncodeDecode does one 72-byte read from a buffer.",
  [B64], [("reads whole quanta, skipping newlines", "base64/coding.go:Decoder.Read")], observe=["bytes, n and error of each Read"])
p("C17", "The command's exit status tells the truth",
  "psignify exits 0 only if the requested operation (sign, verify, generate, encrypt, decrypt) was completed with its full result in place, for verify only if the signature is genuine; with intact inputs and no failing resource it does exit 0. In every other case, including mistyped or incomplete options, unreadable files, I/O errors and failed passphrase entry, it exits with a non-zero status and a diagnostic, and does not say OK.",
  ["inputs", "fault_sequences", "configurations", "histories"], "every command line, every state of the files named, every I/O and terminal fault during the run",
  "cmd/psignify has no tests.",
  [CLI], [("error branches with os.Exit(1)", "cmd/psignify/main.go:main"), ("flag errors", "cmd/psignify/main.go:init")], observe=["exit status, stdout, stderr of the simulated process"])
p("C18", "Operations modify nothing but their designated outputs",
  "Signing, verifying, encrypting, decrypting and generating never alter, truncate, re-mode, rename or remove any existing file other than the designated output file(s), whichever way they end, crashes and I/O errors included; verifying and loading keys write nothing at all, and after a successful operation no files other than the designated outputs have appeared.",
  ["fault_sequences", "crash_points", "inputs"], "every operation, every fault and crash point, every neighbouring file",
  "Tests never compare the directory before and after.",
  [KEY, CRY, COM], [("inputs opened read-only, one output opened for writing", "signify/key.go, crypto/crypto.go")])
p("C19", "After faults stop, a retry succeeds and old leftovers do not matter",
  "Once faults have stopped, repeating a failed, interrupted or crashed signing, encryption or decryption with intact inputs succeeds, in the same process or a new one, and its result is as if the output path had been empty before: nothing of a longer, torn or foreign file left at that path, by an earlier attempt or anyone else, remains.",
  ["histories", "crash_points", "fault_sequences"], "every fault/crash history before the retry, every leftover at the output path",
  "Tests start from removed outputs and never fail midway.",
  [KEY, CRY, COM], [("outputs are truncated on open", "crypto/crypto.go (os.Create), signify/common.go:writeDataFile")])
p("C20", "Concurrent operations do not affect each other",
  "Operations running concurrently in one process on separate outputs (sharing read-only inputs, public keys, unlocked keys or nothing) each end with the result they would have had alone, under every interleaving of their I/O, prompts and random draws; separate encoders, decoders and keys share no state.",
  ["schedules", "inputs", "fault_sequences"], "every interleaving at I/O, prompt and randomness boundaries of two to four concurrent operations; faults in one must not leak into another",
  "All tests are sequential.",
  [KEY, CRY, B64, COM], [("no shared mutable package state", "all packages")])
p("C21", "Passphrase prompting is exact and never leaves the terminal echoing or silent",
  "The built-in prompt returns exactly the line typed, however the terminal delivers it; with confirmation it returns it only if both entries are identical, and otherwise, or when reading fails or input ends, reports an error. No typed character is read while the terminal echoes, and on every return the terminal settings are back to what they were.",
  ["inputs", "fault_sequences", "schedules"], "every typed line, every split of terminal input, every terminal error or end of input at any point",
  "Tests replace the prompt.",
  [KEY], [("two reads and a comparison", "signify/key.go:PassphrasePrompt"), ("terminal.ReadPassword", "golang.org/x/crypto/ssh/terminal")], observe=["simulated terminal: reads, echo state, settings"])
p("C22", "Every operation closes every file it opened",
  "When a library operation returns, in whichever way (success, error, failed unlock, malformed input, I/O error at any point), the process holds exactly the open files it held before the call.",
  ["fault_sequences", "inputs", "histories"], "every operation, every fault at every call",
  "No test counts descriptors, and leaks only show on error paths.",
  [CRY, KEY, COM], [("deferred closes", "crypto/crypto.go:Seal, Open")], observe=["descriptor table of the simulated kernel"])
p("C23", "Files are interchangeable with OpenBSD signify and with earlier versions",
  "In any history in which some steps are done by psignify and others by an independent implementation of the signify formats, each accepts what the other stored: key pairs (protected or not, any round count) and signatures written by either are usable by the other, and their files consist of one 'untrusted comment: ' line and one base64 line. The comment of a signature names the public key file that verifies it ('verify with <key>.pub'), as signify's does. Encrypted files made by the released version remain decryptable, and files encrypted now can be decrypted by the released format's reader.",
  ["histories", "inputs", "fault_sequences"], "every assignment of steps to implementations, every key, passphrase, message, with legal I/O disturbances in between",
  "Tests check one signature and one key pair from OpenBSD; nothing checks what psignify writes with another implementation, or encrypted files across versions.",
  [KEY, SIG, COM, CRY], [("field order, sizes, big-endian rounds, checksum", "signify/key.go:encode"), ("file syntax", "signify/common.go"), ("sealed header and chunk layout", "crypto/crypto.go")])
p("C24", "Keys generated without naming a file are those used without naming a file",
  "In any history of psignify commands of one user that names no key files, the key pair generated is the one later used for signing, verifying, encrypting and decrypting: signatures made verify, and messages encrypted decrypt. Naming a key base explicitly writes <base>.sec and <base>.pub.",
  ["histories", "configurations", "fault_sequences"], "every order of commands, every home directory and user name, protected and unprotected keys, commands that crash or fail in between",
  "cmd/psignify has no tests.",
  [CLI], [("default key base", "cmd/psignify/main.go:defaultKeyBase, main")], observe=["exit status and files of a sequence of simulated processes"])
p("C25", "Generated secrets are fresh and complete whatever the randomness source does",
  "Seeds, salts, key numbers and ephemeral keys are always filled completely from fresh randomness, also when the source delivers it in short pieces: no part stays zero or is reused within or across generations and encryptions. If the source fails, generation and encryption do not report success.",
  ["fault_sequences", "histories", "schedules"], "every pattern of short and failed deliveries of randomness, every sequence and interleaving of generations and encryptions",
  "The real random source never delivers short, and no test compares two generations.",
  [KEY, CRY], [("full reads of the random source", "signify/key.go:GenerateKeypair, crypto/crypto.go:seal")], observe=["simulated randomness source", "fields of the files written"])
p("C26", "The Ed25519 to Curve25519 key conversion is correct for every key",
  "For every valid key pair the converted public key is the Curve25519 public key of the converted secret key, and public keys that are not curve points are rejected.",
  ["inputs"], "every 32-byte public key and seed",
  "Tests convert a handful of random keys.",
  [KEY, "signify/internal/edwards25519/edwards25519.go"], [("birational map in field arithmetic", "signify/key.go:ToBox")], observe=["returned key"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
