#!/usr/bin/env python3
"""Builds /repo's sources (all of them, with the upb shim) and the drivers of
/verif/harness, out of tree, under /verif/build/<variant>.

variants: openssl (ASan+UBSan), boringssl (ASan+UBSan), tsan (OpenSSL, TSan),
          plain (OpenSSL, no sanitizer; used for the repository's own tests).
"""
import glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("S2A_REPO", "/repo")
BUILD = os.environ.get("S2A_BUILD", os.path.join(VERIF, "build"))
ANDROID = "/usr/lib/x86_64-linux-gnu/android"

SAN = {
    "openssl": "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute",
    "boringssl": "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute",
    "tsan": "-fsanitize=thread",
    "plain": "",
}
# The library, by convention of the repository: everything under src that is
# not a test, a test utility, or the fake token manager.
def is_test(p):
    b = os.path.basename(p)
    return ("_test." in b or "test_util" in p or b.startswith("fake_")
            or "_fuzz" in b or "benchmark" in b)

WRAPS = ["HMAC_Init_ex", "HMAC_Update", "HMAC_Final",
         "EVP_EncryptInit_ex", "EVP_EncryptUpdate", "EVP_EncryptFinal_ex",
         "EVP_DecryptInit_ex", "EVP_DecryptUpdate", "EVP_DecryptFinal_ex",
         "EVP_CIPHER_CTX_ctrl",
         "EVP_AEAD_CTX_open", "EVP_AEAD_CTX_seal",
         "EVP_AEAD_CTX_new",
         "EVP_CIPHER_CTX_new", "HMAC_CTX_new", "HMAC"]
TICKETS = "_ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE"

LOCKS = ["_ZN4absl7debian35Mutex%s" % m for m in ("4LockEv", "6UnlockEv", "10ReaderLockEv", "12ReaderUnlockEv", "7TryLockEv")] + [
         "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_rwlock_unlock"]
EXTRA_WRAPS = {"proxy_driver": [TICKETS], "e2e_driver": [TICKETS], "conc_driver": [TICKETS] + LOCKS}

def sources():
    r = []
    for ext in ("cc", "c", "cpp"):
        r += glob.glob(REPO + "/src/**/*." + ext, recursive=True)
    return sorted(p for p in r if not is_test(p))

def needs_fake(p):
    return "fake_access_token_manager.h" in open(p).read()

def gen(variant, drivers, tests=False):
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    inc = []
    if variant == "boringssl":
        inc.append("-isystem /usr/include/android")
    inc += ["-I" + REPO, "-I" + REPO + "/include", "-I" + VERIF + "/shim", "-I" + VERIF + "/harness"]
    libs = subprocess.run("pkg-config --libs absl_status absl_statusor absl_strings absl_synchronization "
                          "absl_flat_hash_map absl_flat_hash_set absl_str_format absl_flags absl_hash",
                          shell=True, capture_output=True, text=True).stdout.strip()
    libs = "-Wl,--start-group " + libs + " -Wl,--end-group"
    if variant == "boringssl":
        libs += " %s/libssl.so %s/libcrypto.so -Wl,-rpath,%s" % (ANDROID, ANDROID, ANDROID)
    else:
        libs += " -lssl -lcrypto"
    libs += " -lpthread"
    flags = "-O1 -g %s -fno-omit-frame-pointer -Wno-deprecated-declarations -w" % SAN[variant]
    cc = "gcc"; cxx = "g++"
    n = ["ninja_required_version = 1.5", "builddir = " + out]
    n.append("rule cxx\n  command = %s -std=c++14 %s $inc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (cxx, flags))
    n.append("rule cc\n  command = %s %s $inc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (cc, flags))
    n.append("rule ar\n  command = rm -f $out && ar rcs $out $in")
    n.append("rule link\n  command = %s %s $in -o $out $libs" % (cxx, flags))
    n.append("inc = " + " ".join(inc))
    objs = []
    def obj(p, prefix):
        o = "%s/%s_%s.o" % (out, prefix, os.path.relpath(p, "/").replace("/", "_"))
        n.append("build %s: %s %s" % (o, "cc" if p.endswith(".c") else "cxx", p))
        return o
    for p in sources():
        objs.append(obj(p, "r"))
    objs.append(obj(VERIF + "/shim/upb/upb_shim.c", "s"))
    lib = out + "/libs2a.a"
    n.append("build %s: ar %s" % (lib, " ".join(objs)))
    targets = []
    common = None
    for d in drivers:
        src = VERIF + "/harness/%s.cc" % d
        o = obj(src, "d")
        if common is None:
            common = [obj(VERIF + "/harness/fault.cc", "d")]
        t = out + "/" + d
        wl = " ".join("-Wl,--wrap=" + w for w in WRAPS + EXTRA_WRAPS.get(d, []))
        n.append("build %s: link %s %s %s\n  libs = %s %s" % (t, o, " ".join(common), lib, wl, libs))
        targets.append(t)
    if tests:
        tu = [obj(p, "t") for p in sorted(glob.glob(REPO + "/src/**/*test_util.cc", recursive=True))]
        fk = [obj(p, "t") for p in sorted(glob.glob(REPO + "/src/**/fake_*manager.cc", recursive=True))]
        for p in sorted(glob.glob(REPO + "/src/**/*_test.cc", recursive=True)):
            b = os.path.basename(p)[:-3]
            t = out + "/" + b
            n.append("build %s: link %s %s %s\n  libs = -lgmock -lgtest -lgtest_main %s" % (
                t, obj(p, "t"), " ".join(tu + (fk if needs_fake(p) else [])), lib, libs))
            targets.append(t)
    n.append("default " + (" ".join(targets) or lib))
    path = out + "/build.ninja"
    txt = "\n".join(n) + "\n"
    if not os.path.exists(path) or open(path).read() != txt:
        open(path, "w").write(txt)
    return out, targets

def touch_changed(out):
    """ninja goes by mtimes; a restored file may have an older one."""
    sums = {}
    for root in (REPO + "/src", REPO + "/include"):
        for p in glob.glob(root + "/**/*", recursive=True):
            if os.path.isfile(p):
                sums[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    f = out + "/sums"
    old = {}
    if os.path.exists(f):
        old = dict(l.rstrip("\n").split(" ", 1)[::-1] for l in open(f))
    stale = [p for p in sums if old and old.get(p) != sums[p]]
    open(f, "w").write("".join("%s %s\n" % (sums[p], p) for p in sums))
    return stale

def build(variant, drivers, tests=False, quiet=True):
    import fcntl
    os.makedirs(os.path.join(BUILD, variant), exist_ok=True)
    with open(os.path.join(BUILD, variant, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out, targets = gen(variant, drivers, tests)
        for p in touch_changed(out):
            for o in glob.glob(out + "/?_" + os.path.relpath(p, "/").replace("/", "_") + ".o"):
                os.remove(o)
            if p.endswith((".h", ".inc")):
                for o in glob.glob(out + "/*.o"):
                    os.remove(o)
        r = subprocess.run(["ninja", "-C", out], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
            raise SystemExit(3)
    return out

if __name__ == "__main__":
    v = sys.argv[1]
    t = "--tests" in sys.argv
    ds = [a for a in sys.argv[2:] if not a.startswith("--")]
    print(build(v, ds, t))
