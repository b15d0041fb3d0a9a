"""Building the harness, running it, running TLC."""
import json, os, re, shutil, signal, subprocess, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
TARGET = os.path.join(ROOT, "target")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


# groups of hooks that only some properties need
OPTIONAL = {"routing": ("C15", "C16", "C17", "C18"), "params": ("C21",), "fields": ("C23", "C24")}


def build(prop=None):
    """The harness with /repo's current tree, hooks on.  When that does not build, because of a
    hook that the property has no use for, the harness without such hooks."""
    try:
        return build_with("--cfg quic_sea_verif")
    except ToolError:
        off = [g for g, ps in OPTIONAL.items() if prop not in ps]
        return build_with(" ".join(["--cfg quic_sea_verif"] + ['--cfg quic_sea_verif="no_%s"' % g for g in off]))


def build_with(flags):
    base = dict(os.environ, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true")
    base.pop("CARGO_TARGET_DIR", None)
    last = ""
    for extra in ({"OPENSSL_NO_VENDOR": "1"}, {}):
        p = subprocess.run(["cargo", "build", "--offline", "--target-dir", TARGET],
                           cwd=os.path.join(ROOT, "harness"), env=dict(base, **extra),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return os.path.join(TARGET, "debug", "qsv")
        last = p.stdout
    raise ToolError("the harness does not build:\n" + last[-4000:])


def harness(exe, args, out, timeout):
    """Returns (exit code, or 'timeout')."""
    for f in (out, out + ".stats", out + ".hang"):
        if os.path.exists(f):
            os.remove(f)
    p = subprocess.Popen([exe] + args + ["--out", out], stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        return p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return "timeout"


def tlc(module, config=None, env=None, workers=8, extra=(), heap="6g", timeout=600, tag=None):
    """Runs TLC on spec/<module>.tla.  Returns a dict with output and counts."""
    tag = tag or module
    meta = os.path.join(OUT, "tlc." + tag)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", config or (module + ".cfg")] + list(extra) + [module]
    t = time.time()
    log = os.path.join(OUT, tag + ".tlc.log")
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})),
                             stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise ToolError("TLC took too long on " + tag)
    shutil.rmtree(meta, ignore_errors=True)
    text = open(log, errors="replace").read()
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    inits = re.search(r"Finished computing initial states: (\d+)", text)
    return dict(rc=rc, text=text, generated=gen, distinct=dist, log=log,
                inits=int(inits.group(1)) if inits else 1, seconds=time.time() - t)


def rejects(text):
    """The <<"REJECT", n, "why">> lines."""
    return [(int(a), b) for a, b in re.findall(r'<<"REJECT", (\d+), "([^"]*)">>', text)]


def ndjson(path):
    with open(path) as f:
        return [l for l in f.read().split("\n") if l]
