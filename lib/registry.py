"""Which binaries and exploration sections decide which property."""

H = ["harness/h.cc", "ref/ref.cc"]


def _bin(src, ssl, group="core", flavor="asan", **kw):
    d = {"srcs": [src] + H, "group": group, "ssl": ssl, "flavor": flavor}
    d.update(kw)
    return d


_SSL_CALLS = ["EVP_EncryptInit_ex", "EVP_DecryptInit_ex", "EVP_CipherInit_ex", "EVP_EncryptUpdate", "EVP_DecryptUpdate", "EVP_CipherUpdate",
              "EVP_EncryptFinal_ex", "EVP_DecryptFinal_ex", "EVP_CIPHER_CTX_ctrl", "EVP_CIPHER_CTX_new", "BIO_new",
              "HMAC_CTX_new", "HMAC_Init_ex", "HMAC_Update", "HMAC_Final"]


def _wrap(names):
    return ["-Wl,--wrap=" + n for n in names]


_SCHED = ["_ZN4absl7debian35Mutex4LockEv", "_ZN4absl7debian35Mutex6UnlockEv", "_ZN4absl7debian35Mutex7TryLockEv",
          "_ZN4absl7debian35Mutex10ReaderLockEv", "_ZN4absl7debian35Mutex12ReaderUnlockEv", "_ZNK4absl7debian35Mutex10AssertHeldEv",
          "_ZN4absl7debian35MutexD1Ev", "_ZN4absl7debian35Mutex13ReaderTryLockEv", "_ZN4absl7debian319ReleasableMutexLock7ReleaseEv", "__cxa_thread_atexit",
          "_ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE",
          "memcpy", "memmove", "memset", "memcmp", "pthread_mutex_lock", "pthread_mutex_unlock",
          "pthread_mutex_trylock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "malloc", "calloc", "realloc", "free",
          "EVP_EncryptInit_ex", "EVP_DecryptInit_ex", "EVP_CipherInit_ex", "EVP_EncryptUpdate", "EVP_DecryptUpdate", "EVP_CipherUpdate",
          "EVP_EncryptFinal_ex", "EVP_DecryptFinal_ex", "EVP_CIPHER_CTX_ctrl", "EVP_CIPHER_CTX_free", "EVP_CIPHER_CTX_new",
          "HMAC_CTX_new", "HMAC_Update", "HMAC_Final"]

BINARIES = {
    "conc_openssl": dict(srcs=["harness/conc.cc", "harness/sched.cc"] + H, group="all", ssl="openssl", flavor="tsan", harness_flavor="fast", marks=True,
                         link=_wrap(_SCHED)),
    "conc_boringssl": dict(srcs=["harness/conc.cc", "harness/sched.cc"] + H, group="all", ssl="boringssl", flavor="tsan", harness_flavor="fast", marks=True,
                           link=_wrap(_SCHED + ["EVP_AEAD_CTX_new", "EVP_AEAD_CTX_free", "EVP_AEAD_CTX_seal", "EVP_AEAD_CTX_open"])),
    "fault_openssl": _bin("harness/fault.cc", "openssl", group="all", link=_wrap(_SSL_CALLS)),
    "fault_boringssl": _bin("harness/fault.cc", "boringssl", group="all",
                            link=_wrap(_SSL_CALLS + ["EVP_AEAD_CTX_new", "EVP_AEAD_CTX_seal", "EVP_AEAD_CTX_open"])),
    "diag_openssl": _bin("harness/diag.cc", "openssl", group="all", link=_wrap(_SSL_CALLS)),
    "diag_boringssl": _bin("harness/diag.cc", "boringssl", group="all",
                           link=_wrap(_SSL_CALLS + ["EVP_AEAD_CTX_new", "EVP_AEAD_CTX_seal", "EVP_AEAD_CTX_open"])),
    "aead_openssl": _bin("harness/aead.cc", "openssl"),
    "aead_boringssl": _bin("harness/aead.cc", "boringssl"),
    "core_openssl": _bin("harness/core.cc", "openssl"),
    "core_boringssl": _bin("harness/core.cc", "boringssl"),
    "record_openssl": _bin("harness/record.cc", "openssl", group="all"),
    "record_boringssl": _bin("harness/record.cc", "boringssl", group="all"),
    "frame_openssl": _bin("harness/frame.cc", "openssl", group="all"),
    "frame_boringssl": _bin("harness/frame.cc", "boringssl", group="all"),
    "proxy_openssl": _bin("harness/proxy.cc", "openssl", group="all",
                          link=["-Wl,--wrap=_ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE"]),
}

COMMON = ["the bounds stated in DESIGN.md", "the reference implementation in /verif/ref (checked against RFC vectors at every start)",
          "x86-64, gcc 13, AddressSanitizer and UBSan builds"]

UPB = ["the upb stand-in in /verif/shim (upb itself is not installed here)"]


def both(name, section, **kw):
    return [dict(bin=name + "_openssl", section=section, **kw), dict(bin=name + "_boringssl", section=section, **kw)]


def both4(name, section, **kw):
    return both(name, section, shards=4, **kw)


CHECKS = {
    "C01": dict(level="exploration", runs=both4("aead", "enc"), assumptions=COMMON,
                technique="exhaustive bounded enumeration of lengths and fragmentations on the real code, reference cipher as oracle",
                rule="one case = cipher x length x fragmentation of plaintext and AAD (or key/nonce size, or single-bit key/nonce); distinct by its description"),
    "C02": dict(level="exploration", runs=both4("aead", "dec"), assumptions=COMMON,
                technique="exhaustive bounded enumeration of fragmentations and alterations of authentic messages on the real code",
                rule="one case = authentic message x fragmentation, or one alteration (bit, truncation, extension, shift) of one; distinct by its description"),
    "C03": dict(level="exploration", runs=both4("aead", "fail") + both4("aead", "dec"), assumptions=COMMON,
                technique="exhaustive bounded enumeration of capacities, null pieces and tamperings with guarded buffers",
                rule="one case = capacity x fragmentation, or position of a null piece, or alteration; distinct by its description"),
    "C04": dict(level="model_checking", runs=both4("aead", "hist"), assumptions=COMMON,
                technique="exhaustive exploration of all call histories up to a depth on the real crypter",
                rule="every sequence of 23 kinds of calls up to the depth bound, each call judged by the reference alone"),
    "C05": dict(level="fault_enumeration", runs=both("fault", "aead,hkdf,half,record,frame"), assumptions=COMMON,
                technique="exhaustive enumeration of single and paired SSL library failures at every call of scripted histories on the real code, each operation judged against the reference",
                rule="one case = script x failing call(s) x failing before or after the work; distinct by its description"),
    "C06": dict(level="exploration", runs=both4("core", "hkdf"), assumptions=COMMON,
                technique="exhaustive bounded enumeration of hash, prk, info and output lengths on the real code, reference HKDF as oracle",
                rule="one case = hash x prk length x info length x output length (or aliasing, or single-bit input); distinct by its description"),
    "C12": dict(level="model_checking", runs=[dict(bin="core_openssl", section="handler")], assumptions=COMMON,
                technique="exhaustive exploration of all message sequences and splits up to a bound on the real handler, compared step by step with an independent model",
                rule="a state is the model's state (pending bytes, stored tickets, retrieval); every trace is replayed on the real handler"),
    "C22": dict(level="model_checking", runs=[dict(bin="core_openssl", section="options")], assumptions=COMMON,
                technique="exhaustive exploration of all setter/add/copy histories up to a depth on the real code, compared with an independent model",
                rule="a state is the model's contents of original and copies; every history is replayed on the real objects"),
    "C23": dict(level="model_checking", runs=[dict(bin="core_openssl", section="tokens")], assumptions=COMMON,
                technique="exhaustive exploration of all environment/create/query histories up to a depth on the real code, compared with an independent model",
                rule="a state is the model's environment and captured tokens; every history is replayed on the real objects"),
    "C07": dict(level="model_checking", runs=both("record", "half"), assumptions=COMMON,
                technique="exhaustive exploration of all encrypt/decrypt/update histories up to a depth on the real half connection, compared step by step with a reference key schedule and record numbering",
                rule="a state is (suite, key generation, sequence number, overflow) of the model, plus the points of the long runs; every history is replayed on the real code"),
    "C08": dict(level="model_checking", runs=both4("record", "keys"), assumptions=COMMON,
                technique="exhaustive exploration of update histories, secrets and secret lengths on the real code, compared with a reference RFC 8446 key schedule",
                rule="a state is (suite, secret, generation and sequence number of both directions); every history is replayed on the real code"),
    "C09": dict(level="model_checking", runs=both("record", "protect"), assumptions=COMMON,
                technique="exhaustive exploration of plaintext lengths, fragmentations, capacities and call histories on the real record protocol, compared with a reference record layer",
                rule="a state is the model's state of both directions; every history is replayed on the real code"),
    "C10": dict(level="model_checking", runs=both("record", "unprotect"), assumptions=COMMON,
                technique="exhaustive exploration of record alterations and of all histories of good, bad, replayed and reordered records up to a depth on the real record protocol, compared with a reference model",
                rule="a state is the model's state of both directions, close flag and handshake reassembly; every history is replayed on the real code"),
    "C11": dict(level="model_checking", runs=both4("record", "alert"), assumptions=COMMON,
                technique="exhaustive exploration of alert values and of all histories of alerts and other records up to a depth on the real record protocol, compared with a reference model",
                rule="a state is the model's state of both directions, close flag and handshake reassembly; every history is replayed on the real code"),
    "C13": dict(level="model_checking", runs=both("record", "post"), assumptions=COMMON,
                technique="exhaustive exploration of all sequences and splits of post-handshake messages up to a bound on the real record protocol, compared with a reference model",
                rule="a state is the model's state of both directions, close flag, handshake reassembly and sent tickets; every history is replayed on the real code"),
    "C14": dict(level="model_checking", runs=[dict(bin="conc_openssl", section="half,record,frame,separate,proxy,tokens"), dict(bin="conc_boringssl", section="half,record,frame,separate")],
                assumptions=COMMON[:2] + ["x86-64, gcc 13; the library's loads and stores, locks, allocation and SSL calls are intercepted; the SSL library's inside is modelled as one write to the context it is given"],
                technique="stateless model checking of the real code under a controlled scheduler: every interleaving (dynamic partial-order reduction) of scripted concurrent calls, happens-before race, use-after-free and deadlock detection on each, results compared with every serial order of the same calls",
                rule="a state is an outcome of a scenario (results of all calls and of the calls that follow); a trace is one schedule executed on the real code; transitions are scheduling steps"),
    "C15": dict(level="model_checking", runs=both("frame", "streams"), assumptions=COMMON,
                technique="exhaustive exploration of lengths, fragmentations and call histories on the real frame protector, compared with a reference record layer",
                rule="a state is the model's state of both directions; every history is replayed on the real code"),
    "C16": dict(level="model_checking", runs=both("frame", "malformed"), assumptions=COMMON,
                technique="exhaustive exploration of truncations, alterations, reorderings and fragmentations of record streams on the real frame protector, judged by an independent parser and reference decryption",
                rule="a state is the model's inbound state; every stream is fed to the real code"),
    "C17": dict(level="model_checking", runs=both("frame", "buffers"), assumptions=COMMON,
                technique="exhaustive exploration of call histories with failures at every point on the real frame protector, with an allocation ledger and guarded buffers",
                rule="a state is the model's state of both directions and the buffers held; every history is replayed on the real code"),
    "C18": dict(level="model_checking", runs=[dict(bin="proxy_openssl", section="protocol")], assumptions=COMMON + UPB,
                technique="exhaustive exploration of all sequences of proxy calls and responses up to a depth on the real proxy, compared step by step with an independent model",
                rule="a state is the model's (side, start sent, finished, selected identity, accepted result, frame protector made); every history is replayed on the real proxy"),
    "C19": dict(level="model_checking", runs=[dict(bin="proxy_openssl", section="requests")], assumptions=COMMON + UPB,
                technique="exhaustive exploration of configurations, token availabilities and selection histories up to a depth on the real proxy, requests decoded by an independent protobuf reader and compared with a model",
                rule="a state is (side, start sent, selected identity, tokens on the request); every history is replayed on the real proxy"),
    "C20": dict(level="model_checking", runs=[dict(bin="proxy_openssl", section="responses")], assumptions=COMMON + UPB,
                technique="exhaustive bounded enumeration of response messages (field values, encodings, truncations, byte alterations, short byte strings) on the real proxy, judged by an independent protobuf reader and reference record layer",
                rule="a state is the model's state of the proxy after the response; every response is fed to the real proxy"),
    "C21": dict(level="exploration", runs=[dict(bin="proxy_openssl", section="contexts")], assumptions=COMMON + UPB,
                technique="exhaustive bounded enumeration of contexts and of encodings (truncations, byte alterations, insertions, short byte strings) on the real code, judged by an independent protobuf reader",
                rule="one case = one context or one encoding; distinct by its description"),
    "C24": dict(level="exploration", runs=[dict(bin="proxy_openssl", section="tickets")], assumptions=COMMON + UPB,
                technique="exhaustive bounded enumeration of connection ids, identities and ticket lists on the real code, requests decoded by an independent protobuf reader",
                rule="one case = connection id x identity x ticket list; distinct by its description"),
    "C26": dict(level="model_checking", runs=[dict(bin="aead_" + l, section="enc,dec,fail,hist", args=["--frozen", "enc_sizes,enc_len,enc_frag,enc_many,enc_shared,enc_large,enc_grid,dec_many,dec_shared,dec_large,dec_len,dec_frag,dec_tamper,fail_capacity,fail_null,hist"])
                                              for l in ("openssl", "boringssl")] +
                [dict(bin="record_openssl", section="half,protect,unprotect,alert,post", args=["--frozen", "*"]),
                 dict(bin="frame_openssl", section="streams,malformed,buffers", args=["--frozen", "*"]),
                 dict(bin="core_openssl", section="handler", args=["--frozen", "hs_split,hs_after,hs_long,hs_many,hs_pieces,hs_types"])],
                assumptions=COMMON,
                technique="exhaustive exploration of call histories, lengths, fragmentations and malformed inputs on the real code with every input in read-only pages",
                rule="a state is the model's state of both directions; every history is replayed on the real code"),
    "C25": dict(level="model_checking", runs=[dict(bin="diag_openssl", section="aead,half,record,frame,proxy"), dict(bin="diag_boringssl", section="aead,half,record,frame")], assumptions=COMMON + UPB,
                technique="exhaustive exploration of call histories, malformed inputs and SSL library failures on the real code, with a monitor over every message that leaves it",
                rule="a state is (component, key generation, sequence number, last operation and its outcome); every history is replayed on the real code"),
}
