#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

AES = "src/crypto/aes_gcm_crypter.cc"; CO = "src/crypto/chacha_poly_crypter_openssl.cc"; CB = "src/crypto/chacha_poly_crypter_boringssl.cc"
HK = "src/crypto/hkdf.cc"; HC = "src/record_protocol/s2a_half_connection.cc"; CR = "src/record_protocol/s2a_crypter.cc"
HM = "src/record_protocol/handshake_message_handler.cc"; FP = "src/frame_protector/s2a_frame_protector.cc"
PX = "src/handshaker/s2a_proxy.cc"; CX = "src/handshaker/s2a_context.cc"; UT = "src/handshaker/s2a_util.cc"
OP = "src/options/s2a_options.cc"; TM = "src/token_manager/single_token_access_token_manager.cc"
TS = "src/record_protocol/s2a_upb_ticket_sender.cc"; CU = "src/record_protocol/s2a_crypter_util.cc"

p("C01", "AEAD encryption is exactly the standard cipher, however inputs are cut up",
  """For AES-128-GCM, AES-256-GCM and ChaCha20-Poly1305, with either SSL library, encrypting with a key and nonce of the right size
  succeeds (for pieces shorter than 2 GiB) whenever the output buffer can hold the plaintext plus the 16-byte tag, reports exactly plaintext length + 16 bytes, writes
  exactly the standard ciphertext and tag, and writes nothing beyond them. The result depends only on the concatenation of the
  plaintext pieces and of the additional-data pieces: not on their number, their boundaries, or empty (even null) pieces.
  Keys and nonces of any other size are refused with an error.""",
  ["inputs", "configurations"], "every key, nonce, AAD, plaintext, fragmentation of each, output capacity, cipher and SSL library",
  "The tests encrypt the published vectors as one or two pieces; they reach neither other lengths nor other fragmentations.",
  [AES, CO, CB, "src/crypto/s2a_aead_crypter.cc"], [("Encrypt loops over the pieces", AES), ("seal over collected pieces", CB)],
  ["S2AAeadCrypter::Encrypt status, byte count and output buffer"])
p("C02", "AEAD decryption accepts exactly the authentic messages",
  """For every cipher and SSL library, decrypting succeeds and yields exactly the original plaintext (and byte count) if the
  ciphertext, tag, nonce, additional data and key are those of an encryption and the output buffer can hold the plaintext, however ciphertext-and-tag
  and additional data are cut into pieces, including a tag spread over several pieces and empty (even null) pieces. Any message that differs in one bit or more of
  ciphertext, tag, nonce, additional data or key, or that is truncated, extended or shorter than a tag, is refused with an error.""",
  ["inputs", "configurations"], "every authentic message, every fragmentation of it, and every alteration of it",
  "The tests corrupt a few chosen bytes and split messages in two at one place.",
  [AES, CO, CB], [("tag reassembly from the trailing pieces and tag check", AES), ("same", CO), ("open", CB)],
  ["S2AAeadCrypter::Decrypt status, byte count and output buffer"])
p("C03", "A failed AEAD operation leaks no plaintext and stays inside its buffers",
  """Whatever the arguments (output buffer too small by any amount, pieces with a length but no memory in any position, pieces of 2 GiB or more, messages that
  do not authenticate), an AEAD operation that cannot succeed returns an error without crashing and without reading or writing
  outside the given pieces and buffers. After a failed decryption every byte of the output buffer is either unchanged or zero:
  no byte of unauthenticated decrypted data is left in it.""",
  ["inputs"], "every capacity, fragmentation, position of a null piece and tampering",
  "Tests try one short buffer and one null piece per function and do not look at the output buffer after a failure.",
  [AES, CO, CB], [("output cleared on every error path", AES), ("capacity checks before each write", CO)],
  ["output buffers and their surroundings after a failed call"])
p("C04", "One AEAD crypter serves any sequence of calls as if each were the first",
  """The result of every encryption and decryption made with one crypter object depends only on that call's arguments and the key:
  after any history of successful and failed operations, in any order and mix of the two directions, a correct call still succeeds with the standard
  result and an invalid one still fails. Errors left in the SSL library's error queue by others change nothing.""",
  ["histories"], "every sequence of successful and failing calls on one crypter",
  "Tests use a fresh crypter for almost every call; histories with failures in between are not enumerated.",
  [AES, CO, CB], [("nonce re-initialisation at the start of every call", AES)],
  ["results of each call of a history"])
p("C05", "No SSL library failure is ever turned into a wrong success",
  """If any single call into the SSL library fails (allocation, key or nonce set-up, encryption, decryption, tag, HMAC) during crypter
  creation, encryption, decryption, key derivation, record protection or a key update, the operation reports an error, does not
  crash or leak memory, and leaves no decrypted bytes in the output buffer. A half connection whose key update failed refuses every later
  encryption and decryption, and a crypter that was not created is never returned.""",
  ["fault_sequences"], "every SSL library call of every operation as the failing one, alone or together with a second one",
  "The tests never make the SSL library fail.",
  [AES, CO, CB, HK, HC, CR], [("result checks on every SSL call", AES), ("result checks on HMAC calls", HK), ("always-fail flag after a failed key update", HC)],
  ["status and output of the operation whose SSL call failed"])
p("C06", "Key derivation is HKDF-Expand of RFC 5869 for every length",
  """For SHA-256 and SHA-384, deriving a secret fills the whole output buffer with exactly HKDF-Expand(prk, info, length) for every
  output length from 0 to 255 hash lengths, every info and every prk of at least one hash length. A shorter prk, a longer output or
  an unknown hash is refused with an error, and the output may be the same buffer as the prk.""",
  ["inputs"], "every hash, prk length, info length and output length, and output aliasing the prk",
  "The tests check the RFC vectors and a few TLS labels: six or so lengths.",
  [HK], [("block loop with counter byte", HK), ("length checks", HK)], ["HkdfDeriveSecret status and output"])
p("C07", "A nonce is never used twice with a key and sequence numbers never wrap",
  """Along any history of encryptions, decryptions (successful or failed) and key updates on one direction of a connection, the n-th
  operation since the key was installed uses the nonce made from the derived IV and sequence number start + n, so no two encryptions share key and nonce.
  The operation with sequence number 2^64-1 is the last one: every later operation fails until a key update, after which numbering restarts at zero.""",
  ["histories", "inputs"], "every initial sequence number and every history of operations and key updates",
  "Tests encrypt a handful of records from sequence 0 and one boundary value.",
  [HC], [("nonce mask and increment under the lock", HC), ("overflow flag", HC)],
  ["ciphertexts produced or accepted, against the reference schedule"],
  [("sequence", "number of the next record", "S2AHalfConnection"), ("overflow flag", "sequence space used up", "S2AHalfConnection")])
p("C08", "Traffic keys follow the TLS 1.3 key schedule through any number of updates",
  """Record keys and IVs are those RFC 8446 derives from the given traffic secret for the negotiated ciphersuite, and every key update replaces the
  secret by its 'traffic upd' successor, the keys and IV by the successor's, and restarts the sequence at zero, so two independent
  implementations stay in step after any number of updates. A traffic secret of the wrong length or an unknown ciphersuite is refused, and an update in one direction
  never changes the other.""",
  ["histories", "inputs", "configurations"], "every ciphersuite, traffic secret and number and placement of updates",
  "Tests perform at most one or two updates on fixed secrets.",
  [HC, HK, CU], [("derivation labels", HC), ("AdvanceSecret", HC)], ["records after k updates against the reference schedule"],
  [("traffic secret", "current generation of the secret", "S2AHalfConnection")])
p("C09", "Every protected record is the RFC 8446 record of its plaintext",
  """Protecting a plaintext of at most 2^14 bytes, in any pieces and for each record type, writes exactly the TLS 1.3 record
  (17 03 03, 16-bit length, encrypted plaintext and type byte without padding, tag) under the current key and sequence number, reports its
  length, plaintext + record overhead, and writes nothing beyond it. A longer plaintext or an output buffer shorter than that is
  refused without consuming a sequence number, and a failed protection leaves no partial record behind.""",
  ["inputs", "histories"], "every plaintext length 0..2^14 and beyond, fragmentation, record type, output capacity, and position in a history",
  "Tests protect a few short strings and compare with recorded bytes.",
  [CR, HC], [("header writer and encryption with the header as AAD", CR)], ["record bytes against the reference"])
p("C10", "Only the peer's next record, unaltered, is ever delivered",
  """Unprotecting yields application data only for the authentic next record of the stream, and then exactly the peer's plaintext with
  zero padding of any length removed; a record that was altered in any bit, replayed, reordered, truncated, extended, sent under another key
  generation, larger than overhead + 2^14 bytes, of an inner type other than application data, alert or handshake, or made only of zeros is refused with an error and
  delivers no bytes. Every record that reaches decryption consumes exactly one sequence number, whether or not it is accepted; one rejected earlier (by size, header or after close) consumes none.""",
  ["inputs", "histories"], "every record sequence: content, padding, type, tampering, replay and reordering",
  "Tests feed a few recorded records and single corruptions; sequences of good, bad and replayed records are not enumerated.",
  [CR, HC], [("size and header validation, then AEAD check", CR), ("scan for the type byte", CR)],
  ["Unprotect code, byte count and plaintext buffer"], [("inbound sequence", "next expected record", HC)])
p("C11", "Alerts are reported as such and close_notify ends the stream for good",
  """An authentic alert record is never delivered as data: close_notify (description 0, at any level) is reported as close-notify, every other description as
  another alert, and an alert of fewer than two bytes as an invalid record. After close_notify every later record, whatever it is, is answered with close-notify and delivers nothing,
  while protecting outgoing records goes on working; alerts other than close_notify do not end the stream.""",
  ["histories", "inputs"], "every alert level and description, length and padding, at every point of a record history",
  "Tests try close_notify and one or two other alerts as first record.",
  [CR], [("close-notify latch", CR)], ["Unprotect codes along a history"], [("close_notify received", "stream ended", CR)])
p("C12", "Handshake messages are reassembled the same way however they are split",
  """Feeding any sequence of session-ticket and key-update messages, in any split into calls, gives after each call: whether a message is incomplete,
  whether a ticket or key update (or piece) was in it, the type of a completed key update, and the number of stored complete tickets, as the byte stream alone determines.
  At most the first five complete tickets are kept and are handed out byte-exact and in order, once: not while a ticket is incomplete, and never a second time, after which tickets are ignored but still parsed. Any other
  message type, or bytes after a key update in the same call, is an error, after which every later call is refused too, because its bytes cannot be attributed to a message.""",
  ["histories", "inputs"], "every message sequence, message length and split into calls, with retrieval at any point",
  "Tests use a fixed set of messages with a few hand-picked split points.",
  [HM], [("header/body state machine", HM), ("ticket store with a limit", HM)], ["Result of each call and the tickets handed out"],
  [("parser state", "position within the current message", HM), ("ticket store", "complete tickets", HM)])
p("C13", "Post-handshake messages act exactly once and never corrupt the data stream",
  """A key update received from the peer, whether whole or split over records in any way, switches the inbound keys exactly once, when its last byte arrives, and application data arriving
  in the middle of any handshake message is refused. Session tickets are never delivered as data: up to the first five complete ones are handed to the ticket sender in one call, byte-exact and in
  order, with the connection's id, identity and address, when the fifth is complete and no message is pending or when the first application data follows; later tickets are
  ignored without disturbing the stream. A handshake record that holds any other message, or bytes after a key update, is refused with an error; from then on every handshake record is refused
  and changes no keys, while application data goes on. The sender's wait function, if any, is called exactly once, on destruction.""",
  ["histories"], "every interleaving of tickets, key updates, application data and their fragments",
  "Tests exercise single tickets, one key update and a few fixed mixtures; key updates split across records were never sent.",
  [CR, HM], [("handling of the parse result", CR), ("phase and expecting-more flags", CR)],
  ["Unprotect results, later record acceptance, ticket sender calls"], [("ticket phase", "none / receiving / done", CR)])
p("C14", "Sending and receiving may run concurrently without races",
  """When one thread protects records, another unprotects records (including key updates and tickets) and a third updates the outbound key or asks for sizes, under every interleaving there is no
  data race, deadlock or use of freed memory, and the outcome equals that of some serial order of the calls: each direction's records decrypt in sequence, none is lost,
  duplicated or encrypted under a nonce already used. The same holds for one frame protector used by a sending and a receiving thread (and if its multi-record calls do overlap, each still works on its records as a whole), and for concurrent calls on one handshake proxy
  or one token manager; threads working on different connections never affect each other.""",
  ["schedules"], "every interleaving of concurrent calls up to the preemption bound",
  "Tests run single-threaded; a race shows only under a specific schedule.",
  [HC, CR, FP, PX], [("per-direction mutex", HC), ("protect and unprotect mutexes", FP), ("proxy mutex", PX)],
  ["happens-before of every memory access; results against the serial reference"])
p("C15", "Frames carry any byte stream unchanged, in records of at most 2^14 bytes",
  """Protecting any byte string, in any pieces, yields a sequence of valid TLS 1.3 records with consecutive sequence numbers, each of exactly 2^14 plaintext bytes
  except the last (and one empty record for an empty input), of total size exactly the size the sizing function announces; unprotecting that stream, in any pieces and any grouping into whole records, yields the original bytes.
  The announced sizes are exact (protect) and sufficient (unprotect), and the maximum record size is 2^14 plus the overhead.""",
  ["inputs", "histories"], "every length around record boundaries, fragmentation on both sides, and call history",
  "Tests roundtrip a few sizes with one or two pieces.",
  [FP, CR], [("block loop over pieces", FP), ("record isolation", FP)], ["protected bytes against the reference, unprotected bytes"])
p("C16", "Malformed framing is refused, never misread or read out of bounds",
  """Unprotecting bytes that are not exactly a sequence of complete authentic records (exactly one, for the single-record form) returns an error: a header byte wrong, any truncation, trailing bytes,
  a length that disagrees, an altered record at any position, or too few bytes. No byte outside the given pieces is read, empty pieces are allowed anywhere, and no data is returned
  with an error.""",
  ["inputs"], "every truncation, header alteration and fragmentation of record streams",
  "Tests try a few malformed headers and one truncation.",
  [FP], [("header parse and payload isolation", FP)], ["Unprotect status and returned buffers"])
p("C17", "Frame protector buffers are released exactly once and never overrun",
  """In every successful or failed call, each buffer obtained from the allocator is either returned to the caller or destroyed exactly once, a buffer supplied by the caller
  is never destroyed, and nothing is written outside the allocated or supplied buffer. Protect allocates exactly the announced size and Unprotect at most the announced size, and after a failure the protector remains usable as far as the connection state
  allows.""",
  ["histories", "inputs"], "every call outcome and history, including mid-stream failures",
  "Tests do not count allocations and destructions, nor fail in the middle of a multi-record call.",
  [FP], [("destroy on error paths", FP)], ["allocator and destroy calls"])
p("C18", "The handshake proxy follows its protocol from any sequence of calls",
  """In any order of calls, the first successful request to the S2A is the start message (a client refuses initial peer bytes, a server may have them) and every
  later one a next message, which requires peer bytes; failed calls change nothing of that. The handshake counts as finished exactly when a response with status OK and a complete valid result has been accepted, and only then can a frame protector
  and the context be obtained, the context any number of times.""",
  ["histories"], "every sequence of proxy calls and responses, well-formed or not, up to the depth bound",
  "Tests walk the intended order only.",
  [PX], [("first-message and finished flags", PX)], ["kind of each request, finished flag, availability of results"],
  [("first message flag", "start not yet sent", PX), ("finished flag", "result accepted", PX)])
p("C19", "Requests to the S2A say exactly what was configured, with the right tokens",
  """The start request carries exactly the configured application protocol, TLS version range, ciphersuites in order, identities (set-equal, with type), target name (client) and peer
  bytes (server and next requests), and a client with more than one local identity is refused. Each request carries one token per local identity for which the token manager has one
  (or the default token, without identity, if none is configured); once the S2A has selected a local identity for which a token exists, only that one is sent.""",
  ["inputs", "configurations", "histories"], "every option set, identity and token availability, and selection history",
  "Tests check one configuration per side.",
  [PX, UT], [("request builders", PX), ("token cache policy", PX)], ["decoded request bytes"])
p("C20", "Responses from the S2A are taken over exactly or refused, never crash",
  """For every response, well-formed or arbitrary bytes: the outgoing bytes and consumed count are exactly those of the response, an error status, unparsable bytes or an incomplete or unsupported result is
  refused with an error and no bytes, and nothing is read out of bounds. After an accepted result the context and the frame protector reflect exactly the result's version, ciphersuite, secrets, sequence
  numbers, identities, fingerprints, application protocol and resumption flag.""",
  ["inputs"], "every response message over field presence, values and truncations / byte alterations",
  "Tests use one valid response and two or three invalid ones.",
  [PX, UT], [("response parsing and validation", PX)], ["status, buffers, context and frame protector behaviour"])
p("C21", "A serialized S2A context parses back to the same context",
  """For every context (any UTF-8 strings, any fingerprints, zero bytes included, every version, ciphersuite, identity type and flag), serializing and parsing
  gives a context equal in every field, and the serialized form is the protobuf encoding with the documented field numbers. Bytes that are not a valid encoding, or that name an
  unsupported version or ciphersuite, are refused with an error without crashing.""",
  ["inputs"], "every combination of field values, every truncation and byte alteration of an encoding",
  "Tests roundtrip a few contexts with printable strings.",
  [CX, UT], [("serializer and parser", CX)], ["serialized bytes and parsed fields"])
p("C22", "Options are what was set: copies are equal and independent",
  """After any sequence of setter and add calls the getters return exactly: the last value set, the ciphersuites in the order added with
  duplicates, and the sets of local and target identities without duplicates, where identities are equal iff both type and string are equal and equal identities hash equally.
  A copy has equal contents, and later changes to either the original or the copy never show in the other.""",
  ["histories"], "every sequence of setter/add/copy calls up to the depth bound",
  "Tests call each setter once.",
  [OP], [("setters and Copy", OP)], ["getters of original and copies"])
p("C23", "The access token is the environment's token, for every identity, unchanged",
  """A token manager created while the token variable is set returns exactly that value, for the default token and for every identity, and keeps returning it whatever happens to the environment
  later; one created while it is unset returns a not-found error from both. An empty value is a token, and repeated calls always agree.""",
  ["histories", "inputs"], "every history of environment changes, creations and queries up to the depth bound",
  "Tests set the variable once before creation.",
  [TM], [("token captured at construction", TM)], ["GetDefaultToken / GetToken results"])
p("C24", "Resumption ticket requests carry every ticket and the right connection",
  """A prepared ticket request holds exactly the given connection id, the local identity with its type, and every ticket byte-exact and in order, for every number and size of tickets
  including empty ones; an empty or unknown identity type or a missing ticket list is refused. Each ciphersuite maps to its own hash (SHA-384 for AES-256-GCM, SHA-256 otherwise)
  and an unknown one is refused.""",
  ["inputs"], "every connection id, identity and ticket list within the bounds",
  "Tests prepare one request per identity type.",
  [TS, CU], [("PrepareResumptionTicketReq", TS), ("CiphersuiteToHashFunction", CU)], ["decoded request bytes"])

p("C25", "Secrets never appear in diagnostics",
  """The messages given to the caller's logger, the messages of error statuses and error details, the names the library makes for debugging and what it writes to standard output or standard error
  never hold secret material: no five or more consecutive bytes of a traffic secret, of a key or IV derived from one in any generation, of an AEAD key, of an access token, of a session ticket or of application data,
  neither as they are nor in hexadecimal, escaped, base64 or number-list form. This holds for every history of calls, for every malformed record, argument and response and for every failure of the SSL library.""",
  ["histories", "inputs", "fault points"], "every history, malformed input, argument length, buffer size and failing SSL call within the bounds",
  "Tests look at a few error messages and never at what the logger is given.",
  [CR, FP, PX, TM], [("logging of errors", CR), ("error details", PX)], ["log messages, status messages, error details, output streams"])

p("C26", "Buffers given as inputs are never written",
  """Plaintext and additional data given to encryption, ciphertext and additional data given to decryption, the pieces given to the record protocol and the frame protector for protecting
  or unprotecting, the record header and the bytes given to the handshake message handler are only read: no call stores anything into them, not even temporarily or in a failing call, so that callers may
  pass shared or read-only memory.""",
  ["histories", "inputs"], "every length, fragmentation, malformed input and history of calls within the bounds",
  "Tests pass writable buffers and do not look at them afterwards; a store that is undone before the return could not be seen at all.",
  [AES, CO, CB, CR, FP, HM], [("loops over the pieces", AES), ("isolation of records", FP)], ["stores to the caller's input memory (read-only pages)"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
