#!/usr/bin/env python3
"""Writes /verif/seeded/* from the descriptions below (patches against /repo's HEAD).

Each entry: id, property, [(file, old, new)], needs, breaks, demo body, extra demo.cfg.
Used while developing; no check reads it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, "tools/seedkit")
AES, CHA, HK = "src/crypto/aes_gcm_crypter.cc", "src/crypto/chacha_poly_crypter_openssl.cc", "src/crypto/hkdf.cc"
CHB = "src/crypto/chacha_poly_crypter_boringssl.cc"
HC, CR, HH = "src/record_protocol/s2a_half_connection.cc", "src/record_protocol/s2a_crypter.cc", "src/record_protocol/handshake_message_handler.cc"
HCH = "src/record_protocol/s2a_half_connection.h"
TS = "src/record_protocol/s2a_upb_ticket_sender.cc"
FP, PX, CX, UT = "src/frame_protector/s2a_frame_protector.cc", "src/handshaker/s2a_proxy.cc", "src/handshaker/s2a_context.cc", "src/handshaker/s2a_util.cc"
OP, TM = "src/options/s2a_options.cc", "src/token_manager/single_token_access_token_manager.cc"
SEEDS = []


def seed(i, prop, edits, needs, breaks, demo, cfg="", pre=""):
    SEEDS.append((i, prop, edits, needs, breaks, demo, cfg, pre))


exec(open(os.path.join(V, "tools/seeds_list.py")).read())


def make(s):
    i, prop, edits, needs, breaks, demo, cfg, pre = s
    d = os.path.join(V, "seeded", i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = "/tmp/mkseed_wt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt])
    try:
        for f, old, new in edits:
            p = os.path.join(wt, f)
            t = open(p).read()
            nth = 0
            if isinstance(old, tuple):
                old, nth = old
            parts = t.split(old)
            assert len(parts) > 1 + nth, (i, f, "old text not found: " + old)
            assert len(parts) == 2 or nth or isinstance(nth, int) and (f, old) , i
            t = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(p, "w").write(t)
        diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for f in os.listdir(KIT):
        s_, t_ = os.path.join(KIT, f), os.path.join(d, f)
        shutil.copytree(s_, t_) if os.path.isdir(s_) else shutil.copy(s_, t_)
    if cfg:
        open(os.path.join(d, "demo.cfg"), "w").write(cfg + "\n")
    open(os.path.join(d, "demo.cc"), "w").write('#include "d.h"\n%s\nint main() {\n%s\n  return 0;\n}\n' % (pre, demo.strip("\n")))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


for s in SEEDS:
    if len(sys.argv) == 1 or s[0] in sys.argv[1:]:
        make(s)
        print(s[0])
