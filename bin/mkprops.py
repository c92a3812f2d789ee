#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FP = "src/frame_protector/s2a_frame_protector.cc"; CR = "src/record_protocol/s2a_crypter.cc"
HC = "src/record_protocol/s2a_half_connection.cc"; HM = "src/record_protocol/handshake_message_handler.cc"
CU = "src/record_protocol/s2a_crypter_util.cc"
AG = "src/crypto/aes_gcm_crypter.cc"; CO = "src/crypto/chacha_poly_crypter_openssl.cc"; CB = "src/crypto/chacha_poly_crypter_boringssl.cc"
AC = "src/crypto/s2a_aead_crypter.cc"; HK = "src/crypto/hkdf.cc"
PX = "src/handshaker/s2a_proxy.cc"; CX = "src/handshaker/s2a_context.cc"; UT = "src/handshaker/s2a_util.cc"
OP = "src/options/s2a_options.cc"; OH = "include/s2a_options.h"; TM = "src/token_manager/single_token_access_token_manager.cc"
TS = "src/record_protocol/s2a_upb_ticket_sender.cc"; PR = "src/proto/s2a.proto"

def P(id, title, statement, over, qtext, why, files, mech, observe):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": [observe], "hook_needed": None}}

props = [
P("C01", "Application data arrives intact, in order, exactly once",
  "Whatever bytes one endpoint protects as application data, in any number of calls and cut into any buffers, the peer endpoint that is given the resulting records in order returns exactly those bytes, in order, nothing lost, duplicated or altered. This holds for every ciphersuite, any starting sequence numbers, any message size including empty and multi-record ones, any way the records are cut into input buffers, and with session tickets and key updates interleaved.",
  ["inputs", "histories", "configurations"], "all byte strings, all segmentations of both sides, all histories of protect and unprotect calls, all ciphersuites",
  "The round-trip tests use a handful of fixed sizes and segmentations; the space of segmentations and histories is unbounded.",
  [FP, CR, HC], [("S2AFrameProtector::Protect/Unprotect", FP), ("S2ACrypter::Protect/Unprotect", CR)], "plaintext given to Protect vs. plaintext returned by Unprotect"),
P("C02", "Every protected record is a well-formed TLS 1.3 record of the right size",
  "Each successful protect call emits exactly the TLS 1.3 records that RFC 8446 prescribes for its input: outer type application data, version 3.3, length equal to content plus one plus the tag, encrypted content followed by the true content type, header as associated data, no more than 2^14 content bytes per record. The number of bytes reported and the advertised overhead, maximum record size and required buffer sizes are exactly what is written, and content over the limit or an output buffer that is too small is refused without emitting a record.",
  ["inputs", "histories", "configurations"], "all content lengths, record types, output capacities and positions in a connection",
  "Tests compare a few golden records; lengths, capacities and record types are not swept and no independent decoder is run over long histories.",
  [CR, FP], [("S2ACrypter::Protect", CR), ("S2AFrameProtector::NumberBytesToProtect/MaxRecordSize", FP)], "bytes written to the output buffer, decoded by an independent RFC 8446 implementation"),
P("C03", "No key and nonce pair is ever used twice",
  "In each direction the n-th record under a key uses sequence number start+n, so no two different records ever share a key and a nonce, whatever mix of successes and failures came before. When the sequence number space of a key is used up every further operation in that direction fails until a key update, which installs a new key and restarts the sequence at zero.",
  ["histories", "inputs", "configurations"], "all histories of protect, failed protect, unprotect and key update calls, all 64-bit starting sequence numbers",
  "Tests send at most a few records from a few starting values; reuse shows only in particular histories or at carries and wrap-around.",
  [HC, CR], [("S2AHalfConnection::NonceMask, UpdateKey", HC)], "(key epoch, sequence number) under which an independent decoder can open each emitted record"),
P("C04", "Only authentic records, in order, are ever delivered",
  "A record is accepted only if it is byte for byte the next record the peer sent under the current key: a changed, replayed, reordered, truncated, extended, mis-framed or wrong-epoch record yields an error and no data. After a failed authentication the caller's buffer holds none of the decrypted bytes, and a record rejected for its framing alone does not disturb the connection.",
  ["inputs", "histories"], "all modifications of any record byte, all replays and reorderings, in every connection state",
  "Tests flip a few bytes of fixed records; the property quantifies over all adversarial inputs and states.",
  [CR, HC, AG, CO, CB], [("S2ACrypter::Unprotect", CR), ("AEAD Decrypt", AG)], "status and output buffer of Unprotect"),
P("C05", "Each complete KeyUpdate advances the inbound key exactly once",
  "Receiving one complete KeyUpdate message, however it is split over records and whatever its request flag, moves the inbound direction to the next traffic secret exactly once, with the sequence restarting at zero, and leaves the outbound direction alone. The outbound key moves exactly when an outbound update is requested; no other event changes a key, and any number of updates in a row stays in step with the peer.",
  ["histories", "inputs", "configurations"], "all interleavings of data, tickets and (fragmented) key updates in both directions",
  "Tests do one or two updates with unfragmented messages.",
  [CR, HC, HM], [("HandleProcessHandshakeMessageResult", CR), ("UpdateKey/AdvanceSecret", HC)], "which epoch's records are accepted after each step"),
P("C06", "Control records never surface as data, and a close is final",
  "The content type is the last non-zero byte of the decrypted record, for any amount of zero padding. Only application data yields bytes to the caller: alerts, handshake messages, unknown types and records without a type never do; an alert is reported as such, the bytes of alerts and of records of unknown type are wiped from the caller's buffer, and once a close notification was received no further record is ever accepted.",
  ["inputs", "histories"], "all content types, contents, padding lengths, in every state",
  "Tests cover a few types and paddings with fixed records.",
  [CR], [("S2ACrypter::Unprotect type dispatch", CR)], "status, byte count and buffer of Unprotect"),
P("C07", "Handshake messages are parsed the same however they are fragmented",
  "The messages recognised in a stream of handshake bytes depend only on the bytes, not on how they are cut into records: after each piece the parser reports whether it stands inside a message, whether the piece touched a ticket or a key update, the key update's request flag, and how many complete tickets are stored. Message lengths over the whole 24-bit range, empty bodies, and several messages per piece are handled.",
  ["inputs", "histories"], "all byte streams of tickets and key updates and all ways of cutting them",
  "Tests sample a dozen fragmentations; the number of cuts is exponential in the length.",
  [HM], [("HandshakeMessageHandler::ProcessHandshakeMessage", HM)], "result of each call"),
P("C08", "Session tickets are collected exactly, at most five, and handed over once",
  "Tickets handed over are, in order and byte for byte, the complete ticket messages received so far, never more than five; later tickets are ignored without disturbing anything else. They can be retrieved once only and not in the middle of a ticket, and a connection hands them over exactly once, at the latest when application data follows, together with its own connection id, identity, channel and S2A address; when the connection ends it waits for the sender it started.",
  ["inputs", "histories"], "all streams of tickets, fragmentations and retrieval points",
  "Tests use a few tickets with fixed cuts and never look at the hand-over with a fragment pending at the limit.",
  [HM, CR, "src/record_protocol/s2a_ticket_sender.h"], [("GetStoredTickets/AddTicketToStore", HM), ("RetrieveStoredTicketsAndSendToS2A", CR)], "GetStoredTickets result; arguments of the ticket sender call"),
P("C09", "Protocol violations in the handshake stream are rejected",
  "Application data that arrives in the middle of a handshake message is refused and yields no bytes; once the message is completed data flows again. An unknown handshake message type, or bytes that follow a key update in the same record, are reported as an error, whatever came before and however the message is fragmented.",
  ["inputs", "histories"], "all byte streams, fragmentations and positions of the violation",
  "Tests check single positions of each violation.",
  [HM, CR], [("ProcessHandshakeMessage", HM), ("Unprotect application data case", CR)], "status of each call"),
P("C10", "Authenticated encryption computes the standard function on any buffer layout",
  "For every supported cipher and both crypto libraries, encryption returns exactly the standard ciphertext followed by the 16-byte tag for the given key, nonce, associated data and plaintext, and decryption returns exactly the plaintext if and only if ciphertext, tag, associated data and nonce are the ones that were produced together. The result does not depend on how the inputs are cut into buffers (including empty ones) nor on earlier calls on the same object.",
  ["inputs", "histories", "configurations"], "all lengths, contents, segmentations, and histories on one object; AES-128-GCM, AES-256-GCM, ChaCha20-Poly1305; OpenSSL and BoringSSL",
  "Published vectors with a fixed segmentation exercise neither arbitrary layouts nor histories with failures in between.",
  [AG, CO, CB, AC], [("Encrypt/Decrypt", AG), ("Encrypt/Decrypt", CO), ("Encrypt/Decrypt", CB)], "output bytes vs. an independent one-shot implementation"),
P("C11", "Authenticated encryption respects buffers and fails clean",
  "Encryption and decryption write only inside the output buffer they were given and exactly the number of bytes they report; a buffer of exactly the needed size suffices and a smaller one is refused. Wrong key or nonce sizes, truncated ciphertexts and missing inputs are refused, a failed operation reports zero bytes, and a failed decryption leaves no unauthenticated plaintext behind.",
  ["inputs", "histories", "configurations"], "all capacities, lengths and invalid argument combinations",
  "Tests check single sizes; the boundary of every length and position is not swept.",
  [AG, CO, CB, AC], [("Encrypt/Decrypt argument checks", AG), ("MaxPlaintextLength/MaxCiphertextAndTagLength", AC)], "status, bytes written, guard bytes around the output"),
P("C12", "Key derivation computes HKDF-Expand exactly",
  "For SHA-256 and SHA-384, any key at least as long as the hash, any info string and any output length up to 255 hash blocks, the derived bytes are exactly HKDF-Expand of RFC 5869, also when the output replaces the input secret. A shorter key, an unsupported hash or a longer output is refused.",
  ["inputs", "configurations"], "all hash functions, key, info and output lengths including all block boundaries",
  "Tests use the RFC vectors, at most three blocks.",
  [HK], [("HkdfDeriveSecret", HK)], "output bytes vs. an independent implementation"),
P("C13", "Traffic keys follow the TLS 1.3 key schedule, bad parameters are refused",
  "For each ciphersuite the record key and nonce of every key generation are those that RFC 8446 derives from the given traffic secret (sections 7.2 and 7.3, with that suite's hash), separately for each direction. A connection with an unsupported TLS version or ciphersuite, a traffic secret of the wrong size, or a missing address or callback is refused.",
  ["inputs", "histories", "configurations"], "all traffic secrets, ciphersuites and numbers of key updates; all invalid parameter combinations",
  "Golden records exist for one secret per suite.",
  [HC, CR, CU, FP], [("DeriveKey/DeriveNonce/AdvanceSecret", HC), ("CiphersuiteToHashFunction", CU)], "records opened with independently derived keys"),
P("C14", "Record buffers have exactly one owner on every path",
  "Every buffer obtained from the caller's allocator is either returned to the caller in a successful result or destroyed exactly once before the call returns, on success, on every kind of failure, and for inputs with many records where a later one is bad. Buffers supplied by the caller are never destroyed or written beyond their size.",
  ["inputs", "histories", "fault_sequences"], "all inputs, error positions and call histories",
  "Tests look at returned buffers on a few success paths only; leaks and double frees are on error paths.",
  [FP], [("Protect/Unprotect allocation", FP)], "allocator and destroy calls per API call"),
P("C15", "Splitting into records and back is exact for any buffer layout",
  "A message is cut into the minimal number of records, all full except the last, one empty record for an empty message; concatenated complete records are unprotected one by one for any cut of the input into buffers, including empty ones and cuts inside headers. A partial record, or more than one record where exactly one is expected, gives an error.",
  ["inputs", "configurations"], "all lengths around multiples of 2^14, all cuts, all truncation points",
  "Tests try a few layouts; most cut positions are never exercised.",
  [FP], [("ComputeTlsRecordSize/IsolateTlsPayload", FP), ("NumberBytesToProtect/NumberBytesToUnprotect", FP)], "records produced, status and plaintext pieces"),
P("C16", "The handshake is finished only by a valid session result",
  "The handshake reports finished exactly from the first response with OK status and a complete, supported session result; no error status, malformed or partial response ever finishes it, and a response with an error status is reported as an error. Before that no frame protector and no context can be obtained; afterwards they can.",
  ["histories", "inputs"], "all sequences of requests and responses, all malformed responses",
  "Tests feed single responses to a fresh object.",
  [PX], [("GetBytesForPeer/IsHandshakeFinished/CreateFrameProtector/GetS2AContext", PX)], "status, finished flag and availability of the results after each step"),
P("C17", "Messages to the S2A say exactly what the application configured",
  "The first message is one start message of the right role with the configured application protocol, TLS version range, ciphersuites in order, all target and local identities with their kinds, the target name and the bytes from the peer; every later message carries exactly the peer's bytes. Frames for the peer and the count of consumed bytes are passed on unchanged, and calls out of order (client with early bytes, later message without bytes) or configurations that cannot be expressed are refused without changing the state.",
  ["inputs", "histories", "configurations"], "all option combinations and call sequences, both roles",
  "Tests compare a few fixed configurations.",
  [PX, UT, PR], [("GetClientStart/GetServerStart/GetNext", PX)], "the decoded request messages"),
P("C18", "Access tokens are attached to exactly the right identities",
  "Start messages carry one token per configured local identity for which the token source has one, or the default token without identity when none is configured; once the S2A has selected an identity and a token for it can be had, later messages carry that token only, otherwise those of the start message. No token is ever paired with an identity it was not issued for, and without a token source none is sent.",
  ["histories", "inputs", "fault_sequences", "configurations"], "all sets of identities, all failure patterns of the token source, all message sequences",
  "Tests use a token source that never fails selectively.",
  [PX], [("PopulateTokenCache", PX)], "authentication mechanisms in the decoded requests"),
P("C19", "The negotiated session is handed over unchanged",
  "The frame protector created after the handshake protects and unprotects with exactly the ciphersuite, secrets, directions and sequence numbers of the session result, for any 64-bit sequence numbers. The context reports exactly the result's protocol, version, ciphersuite, peer and local identities, certificate fingerprints and resumption flag, on every call; a session whose parameters the record layer does not support gives an error.",
  ["inputs", "configurations", "histories"], "all session results",
  "Tests check one result per suite and only that creation succeeds.",
  [PX, CX, FP], [("CreateFrameProtector/GetS2AContext", PX)], "records produced by the created protector; context getters"),
P("C20", "A serialized context deserializes to the same context",
  "For every context, deserializing its serialized form gives a context equal in every field, including binary fingerprints with zero bytes and absent identities. Bytes that are not a serialized context, or hold an unknown version or ciphersuite, give an error.",
  ["inputs"], "all field values, all byte strings",
  "Tests round-trip printable strings.",
  [CX, UT], [("GetSerializedContext/GetS2AContextFromSerializedContext", CX), ("Convert* functions", UT)], "getters after the round trip"),
P("C21", "Options and identities are values",
  "Options report exactly what was set: last version and address, ciphersuites in the order added with repetitions, identities as a set in which kind and text both count. A copy is equal to the original at that moment and independent of it ever after; identities are equal exactly when kind and text are, with equal hashes, and the kinds survive conversion.",
  ["histories", "inputs"], "all sequences of setters, copies and reads",
  "Tests check single setters on fresh objects.",
  [OP, OH], [("S2AOptions::Copy and setters", OP), ("Identity", OH)], "getters after each step"),
P("C22", "The environment's access token is served to every identity, or an error",
  "A token manager serves, for the default and for every identity, exactly the value of the access token environment variable at the time it was built, for the manager's whole life, and reports not found when the variable is absent. Later changes of the environment or other managers do not matter.",
  ["inputs", "histories"], "all token values and sequences of environment changes, constructions and reads",
  "Tests set one value once.",
  [TM], [("SingleTokenAccessTokenManager", TM)], "GetToken/GetDefaultToken results"),
P("C23", "Resumption ticket requests carry the tickets exactly",
  "A resumption request holds the given tickets, in order and byte for byte (any bytes, any size, any number), with the given connection id and local identity of the right kind. Missing tickets or an identity of unknown kind are refused.",
  ["inputs"], "all ticket lists, connection ids and identities",
  "Tests send two printable tickets.",
  [TS], [("PrepareResumptionTicketReq", TS)], "the decoded request"),
P("C24", "Protecting and unprotecting may run concurrently",
  "One thread may protect while another unprotects, including records that update keys or complete tickets: there is no data race, and each call behaves as if the calls had happened one at a time, so that no sequence number is skipped or repeated and no data is lost. Concurrent protect calls, and handshake steps that run at the same time, are serialized likewise, and a token manager may be used by several threads. Different connections and handshakes in one process do not disturb each other, whatever threads they run on.",
  ["schedules", "histories"], "all interleavings of calls by several threads",
  "The tests are single-threaded.",
  [FP, HC, CR, PX], [("protect_mu_/unprotect_mu_", FP), ("mu_", HC), ("mu_", PX)], "race detector reports; records decoded after the run"),
P("C25", "A failing crypto library fails the call, never the protection",
  "If any call into the crypto library fails, the operation returns an error and emits neither a record nor plaintext; it never reports success with wrong bytes. A failed key update leaves that direction permanently unusable instead of falling back to the old or a partial key.",
  ["fault_sequences", "histories"], "every crypto library call site failing at every occurrence",
  "Tests cannot make the crypto library fail.",
  [HC, HK, AG, CO, CB], [("UpdateKey error paths", HC), ("HkdfDerivation", HK), ("Encrypt/Decrypt error paths", AG)], "status and output with injected faults"),
P("C26", "No input from the peer or the S2A crashes or corrupts memory",
  "Whatever bytes arrive from the peer or from the S2A, in any fragmentation and in any state, also after earlier errors, each call returns a result or an error; it never crashes, reads or writes outside its buffers, or has undefined behaviour.",
  ["inputs", "histories"], "all byte strings, fragmentations and states",
  "Tests run without sanitizers on a few inputs.",
  [HM, CR, FP, PX, CX, AG], [("all parsers", HM)], "process status under address and undefined-behaviour sanitizers"),
P("C27", "Memory use stays bounded and everything is released",
  "Whatever the history of successes, errors and crypto library failures, the memory that a connection, handshake or other object holds between calls depends on its state only (current keys, tickets not yet handed over, a message received in part), never on how much it has processed: repeating operations on an object that is in use does not make it grow, failed operations keep nothing, and destroying the object releases everything.",
  ["histories", "fault_sequences"], "all repeated histories of operations, faults and object lifetimes",
  "Tests neither measure memory nor repeat histories, and never reach most error paths.",
  [HC, HK, AG, CO, CB, HM, CR, FP, PX, CX], [("UpdateKey", HC), ("message_fragments_, full_tickets_", HM), ("EVP_CIPHER_CTX ownership", AG), ("HMAC_CTX ownership", HK)], "bytes in use after each repetition of a history"),
P("C28", "Log lines and error messages reveal no secrets",
  "What the library says - to the logger it is given and in the messages of the statuses it returns - neither contains nor depends on traffic secrets, keys, access tokens, session tickets or application data, whatever the operation and however it fails: two runs that differ only in these secrets say the same.",
  ["inputs", "histories", "fault_sequences"], "all secrets, operations and failures",
  "Tests check a few messages for a few fixed inputs; independence from the secrets is a statement about pairs of runs.",
  [CR, FP, PX, HC, HK, AG, CO, CB, TM], [("logger_ calls", CR), ("logger_ calls", FP), ("logger_ calls", PX), ("GetStatus", AG)], "logger callback and status messages"),
P("C29", "Two endpoints whose S2As agree exchange data end to end",
  "A client and a server application that relay a handshake between their proxies, their S2As and the network, in pieces of any size and however several sessions interleave, get through: each S2A sees exactly the peer's handshake bytes and each peer exactly the S2A's, bytes the S2A did not consume (early records behind the last flight) remain for the application, both proxies finish and their contexts agree. The frame protectors - also when the proxies are gone - then deliver exactly the other end's data, in order and once, and the server's tickets reach the client's S2A once. What the network alters, drops, repeats, reorders or moves between sessions causes an error, never other data, and sessions do not influence each other.",
  ["histories", "schedules", "inputs"], "all cuts of the byte streams, interleavings of the two ends and of sessions, and interferences of the network",
  "No test lets two endpoints talk to each other; each part is tested against recorded bytes or mocks.",
  [PX, FP, CR, HC, HM, CX, TS], [("GetBytesForS2A, GetBytesForPeer", PX), ("CreateFrameProtector, GetS2AContext", PX), ("Protect, Unprotect", FP)], "bytes exchanged between two endpoints, their contexts and the data delivered"),
]
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(props))
