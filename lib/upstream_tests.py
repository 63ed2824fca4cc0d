#!/usr/bin/env python3
"""Compiles and runs the repository's own upb-dependent tests against the upb
stand-in, to validate the stand-in (not a registered check)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
R = vbuild.REPO + "/src/"
T = {
    "s2a_crypter_test": ["record_protocol/s2a_crypter_test.cc"],
    "s2a_crypter_roundtrip_test": ["record_protocol/s2a_crypter_roundtrip_test.cc"],
    "s2a_half_connection_test": ["record_protocol/s2a_half_connection_test.cc"],
    "s2a_upb_ticket_sender_test": ["record_protocol/s2a_upb_ticket_sender_test.cc"],
    "s2a_frame_protector_test": ["frame_protector/s2a_frame_protector_test.cc"],
    "s2a_proxy_test": ["handshaker/s2a_proxy_test.cc", "handshaker/s2a_proxy_test_util.cc"],
    "s2a_context_test": ["handshaker/s2a_context_test.cc"],
    "s2a_util_test": ["handshaker/s2a_util_test.cc"],
}
ok = True
for ssl in ("openssl", "boringssl"):
    for t, files in T.items():
        ex, er = (["single_token"], ["src/token_manager/fake_access_token_manager.cc"]) if "proxy" in t else ([], [])
        b = vbuild.build("up_%s_%s" % (t, ssl), [R + f for f in files], group="all", ssl=ssl,
                         flavor="plain", exclude=ex, extra_repo=er,
                         libs=["-lgmock", "-lgtest", "-lgtest_main"])
        r = subprocess.run([b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(ssl, t, r.returncode, r.stdout.strip().splitlines()[-1])
        if r.returncode:
            ok = False
            print(r.stdout[-3000:])
sys.exit(not ok)
