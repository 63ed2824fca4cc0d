"""Builds harnesses from /repo's working tree (content-hash object cache).

Objects are cached in $VERIF_BUILD (default /verif/build) by the hash of the
command line and the contents of every file the compiler read, so a stale
object is never used, whatever happens to time stamps.
"""
import concurrent.futures, glob, hashlib, json, os, re, shlex, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
ANDROID = "/usr/lib/x86_64-linux-gnu/android"

ABSL = ["status", "statusor", "strings", "str_format", "synchronization", "hash",
        "raw_hash_set", "bad_variant_access", "bad_optional_access"]


class BuildError(Exception):
    pass


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def _includes(path, seen):
    if path in seen or not os.path.isfile(path):
        return
    seen.add(path)
    for m in re.finditer(r'^\s*#\s*include\s*["<]([^">]+)[">]',
                         open(path, errors="replace").read(), re.M):
        inc = m.group(1)
        if inc.startswith("upb/"):
            seen.add("<upb>")
        for base in (REPO, os.path.dirname(path)):
            p = os.path.normpath(os.path.join(base, inc))
            if os.path.isfile(p):
                _includes(p, seen)


def needs_upb(path):
    seen = set()
    _includes(path, seen)
    return "<upb>" in seen


def repo_sources(group):
    """group 'core': every library source that does not need upb; 'all': every one."""
    out = []
    for p in sorted(glob.glob(REPO + "/src/**/*.cc", recursive=True) +
                    glob.glob(REPO + "/src/**/*.c", recursive=True)):
        b = os.path.basename(p)
        if re.search(r"_test(_util)?\.cc$", b) or b.startswith("fake_") or "/test_util/" in p:
            continue
        if group == "core" and needs_upb(p):
            continue
        out.append(p)
    return out


FLAVORS = {
    # every sanitizer report is fatal
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=enum,vptr,nonnull-attribute",
             "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g1"],
    "fast": ["-O2", "-g1"],
    # every access is visible: no memory function is expanded inline, and the standard
    # library's string code is compiled here
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-builtin", "-mmemcpy-strategy=libcall:-1:noalign",
             "-mmemset-strategy=libcall:-1:noalign", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_ASSERTIONS"],
    "none": ["-O2"],
}


def _compile(args):
    src, flags, extra_key = args
    cc = "gcc" if src.endswith(".c") else "g++"
    std = [] if src.endswith(".c") else ["-std=c++14"]
    cmd = [cc] + std + flags + ["-c", src]
    key = hashlib.sha256(json.dumps([cmd, extra_key]).encode()).hexdigest()[:24]
    base = os.path.join(BUILD, "obj", key)
    obj, meta = base + ".o", base + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(os.path.exists(f) and sha(f) == h for f, h in m.items()):
                return obj, None
        except (OSError, ValueError):
            pass
    fd, tmp = tempfile.mkstemp(dir=os.path.join(BUILD, "obj"), suffix=".o")
    os.close(fd)
    dep = tmp + ".d"
    try:
        r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, "%s\n%s" % (" ".join(map(shlex.quote, cmd)), r.stdout)
        deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
        json.dump({f: sha(f) for f in deps}, open(tmp + ".j", "w"))
        os.rename(tmp + ".j", meta)
        os.rename(tmp, obj)
    finally:
        for f in (tmp, dep, tmp + ".j"):
            if os.path.exists(f):
                os.unlink(f)
    return obj, None


def build(name, harness, group="core", ssl="openssl", flavor="asan", extra_inc=(),
          extra_flags=(), link=(), harness_flavor=None, exclude=(), extra_repo=(), libs=(), marks=False):
    """Compiles repo sources of `group` and the `harness` sources; returns the binary path."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    inc = []
    for i in extra_inc:
        inc += ["-I", i]
    if ssl == "boringssl":
        inc += ["-I", "/usr/include/android"]
    inc += ["-I", REPO, "-I", os.path.join(VERIF, "shim"), "-I", VERIF]
    common = ["-w", "-Wno-deprecated-declarations", "-pthread"] + inc + list(extra_flags)
    srcs = [s for s in repo_sources(group) if not any(e in s for e in exclude)]
    srcs += [os.path.join(REPO, s) for s in extra_repo]
    if marks:
        srcs = [os.path.join(VERIF, "harness/mark_begin.c")] + srcs + [os.path.join(VERIF, "harness/mark_end.c")]
    jobs = [(s, FLAVORS[flavor] + common, "") for s in srcs]
    if group != "core":
        jobs.append((os.path.join(VERIF, "shim/upb/upb.c"), FLAVORS["asan" if flavor == "asan" else "plain"] + common, ""))
    hf = FLAVORS[harness_flavor or flavor]
    jobs += [(h, hf + common, "") for h in harness]
    objs, errs = [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for o, e in ex.map(_compile, jobs):
            objs.append(o)
            if e:
                errs.append(e)
    if errs:
        raise BuildError("\n".join(errs))
    out = os.path.join(BUILD, "bin", name)
    if ssl == "boringssl":
        sl = [ANDROID + "/libssl.so", ANDROID + "/libcrypto.so", "-Wl,-rpath," + ANDROID]
    else:
        sl = ["-lssl", "-lcrypto"]
    san = [f for f in FLAVORS[flavor] if f.startswith("-fsanitize")] if flavor == "asan" else []
    key = hashlib.sha256(json.dumps([objs, [os.path.getmtime(o) for o in objs], sl, list(link), san, list(libs)]).encode()).hexdigest()
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    # every installed absl library, of which the linker takes what is used
    absl = sorted({re.match(r"lib(absl_\w+)\.so$", os.path.basename(f)).group(1)
                   for f in glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so")})
    absl = ["-Wl,--as-needed"] + ["-l" + a for a in absl or ["absl_" + a for a in ABSL]]
    cmd = ["g++", "-o", out + ".tmp"] + objs + list(link) + san + list(libs) + absl + sl + ["-pthread", "-ldl"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("link of %s failed:\n%s" % (name, r.stdout))
    os.rename(out + ".tmp", out)
    open(stamp, "w").write(key)
    return out
