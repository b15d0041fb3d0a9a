#!/usr/bin/env python3
"""Planted bugs.  No check reads them.
   seed.py make FILE...    makes seeded/<id> from a description (EDITS, META, MAIN) and verifies it
   seed.py verify ID...    in a scratch copy of /repo: builds, tests pass, demo fails with, passes without
   seed.py catch ID...     applies to /repo, runs the check of its property, undoes it
"""
import glob, json, os, re, shutil, subprocess, sys, time
V = "/verif"
W = "/tmp/seedwork"
DEMO_SH = '#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
DEMO_PY = '''import os, shutil, subprocess, sys, tempfile
here, repo = os.path.dirname(os.path.abspath(__file__)), os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/src")
    shutil.copy(here + "/main.rs", d + "/src/main.rs")
    shutil.copy(here + "/Cargo.lock.txt", d + "/Cargo.lock")
    open(d + "/Cargo.toml", "w").write(
        '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\n'
        'quic-sea = { path = "%s" }\\n' % repo)
    env = dict(os.environ, RUSTFLAGS="--cfg quic_sea_verif")
    for extra in ({"OPENSSL_NO_VENDOR": "1"}, {}):
        p = subprocess.run(["cargo", "build", "--offline", "-q", "--target-dir", d + "/target"], cwd=d, env=dict(env, **extra))
        if p.returncode == 0:
            break
    else:
        sys.exit("the demonstration does not build")
    try:
        p = subprocess.run([d + "/target/debug/demo"], cwd=d, timeout=60, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        print("the demonstration did not end")
        sys.exit(1)
    print(p.stdout.decode(errors="replace")[-2000:])
    sys.exit(0 if p.returncode == 0 else 1)
'''


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])
    sh(["git", "checkout", "-q", "--", "."], W)


def make(f):
    ns = {}
    exec(open(f).read(), ns)
    id = os.path.basename(f)[:-3]
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    fresh()
    for path, old, new in ns["EDITS"]:
        p = os.path.join(W, path)
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    with open(d + "/patch.diff", "w") as g:
        g.write(sh(["git", "diff"], W).stdout)
    # lines taken away have to be of the original repository
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], W).stdout.strip()
    orig = {}
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            cur = l[6:].strip()
            orig = set(sh(["git", "show", base + ":" + cur], W).stdout.split("\n"))
        elif l.startswith("-") and not l.startswith("---") and l[1:].rstrip("\n") not in orig:
            print("   warning: removes a line that is not original:", l.rstrip())
    json.dump(ns["META"], open(d + "/meta.json", "w"), indent=1)
    open(d + "/main.rs", "w").write(ns["MAIN"])
    open(d + "/demo.sh", "w").write(DEMO_SH)
    open(d + "/demo.py", "w").write(DEMO_PY)
    open(d + "/Cargo.lock.txt", "w").write(open(V + "/harness/Cargo.lock").read().replace('name = "qsv"', 'name = "demo"'))
    os.chmod(d + "/demo.sh", 0o755)
    return id


def tests(w):
    env = dict(os.environ, OPENSSL_NO_VENDOR="1")
    p = sh(["cargo", "build", "--offline", "--target-dir", "/tmp/seedtarget"], w, env)
    if p.returncode:
        return "does not build:\n" + p.stdout[-3000:]
    p = sh(["cargo", "test", "--offline", "--target-dir", "/tmp/seedtarget"], w, env)
    m = re.findall(r"(\d+) passed; (\d+) failed", p.stdout)
    n, bad = sum(int(a) for a, _ in m), sum(int(b) for _, b in m)
    return None if (n, bad) == (17, 0) else "tests: %d passed, %d failed\n%s" % (n, bad, p.stdout[-1500:])


def verify(id):
    d = os.path.join(V, "seeded", id)
    fresh()
    a = sh(["bash", d + "/demo.sh"], W)
    p = sh(["git", "apply", d + "/patch.diff"], W)
    if p.returncode:
        print(id, "patch does not apply", p.stdout)
        return False
    t = tests(W)
    b = sh(["bash", d + "/demo.sh"], W)
    shutil.rmtree(W, ignore_errors=True)
    ok = a.returncode == 0 and b.returncode != 0 and t is None
    print("%s: %s (demo without: %d, with: %d)%s" % (id, "ok" if ok else "BAD", a.returncode, b.returncode, "" if t is None else " " + t))
    if not ok:
        print("  without:", a.stdout[-1500:], "\n  with:", b.stdout[-1500:])
    return ok


def catch(id, tier="quick", also=()):
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    if sh(["git", "status", "--porcelain"], "/repo").stdout.strip():
        sys.exit("/repo is not clean")
    try:
        p = sh(["git", "apply", d + "/patch.diff"], "/repo")
        if p.returncode:
            print(id, "patch does not apply")
            return
        for q in [prop] + list(also):
            t = time.time()
            r = sh([sys.executable, V + "/check.py", q, tier], V)
            last = [l for l in r.stdout.strip().split("\n")]
            hit = r.returncode == 1 and "VIOLATION property=%s" % q in r.stdout
            print("%s %s: %s (%.0f s) %s" % (id, q, "caught" if hit else "MISSED rc=%d" % r.returncode, time.time() - t,
                                              " / ".join(last[-2:])[:300]))
            sys.stdout.flush()
    finally:
        sh(["git", "checkout", "--", "."], "/repo")


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for f in args:
            verify(make(f))
    elif cmd == "verify":
        for i in args or sorted(os.listdir(V + "/seeded")):
            verify(i)
    elif cmd == "catch":
        for i in args or sorted(os.listdir(V + "/seeded")):
            catch(i)
