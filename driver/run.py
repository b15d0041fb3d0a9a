"""The pipeline of one check."""
import json, os, re, shutil, sys, threading, time, traceback
import tools
from tools import ROOT, OUT, ToolError
import config


class Violation(Exception):
    def __init__(self, why, replay):
        self.why, self.replay = why, replay


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.states = self.transitions = self.judged = self.executed = 0
        self.samples, self.counts, self.notes, self.models = [], {}, [], {}
        self.binding, self.sizes = None, {}
        self.exe = None

    def path(self, name):
        return os.path.join(OUT, self.prop + "." + name)

    def replay_file(self, record):
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.%s.json" % (self.prop, self.tier))
        with open(p, "w") as f:
            json.dump(record, f, indent=1)
        return os.path.relpath(p, ROOT)

    # ------------------------------------------------------- design models
    def model(self, m):
        """A design model: TLC explores it completely (or simulates it), invariants hold."""
        tag = self.prop + "." + m["name"]
        r = tools.tlc(m["module"], m.get("config"), env=dict(m.get("env", {}), OUT=self.path(m["name"] + ".gen")),
                      workers=m.get("workers", 4), extra=m.get("extra", ()), tag=tag,
                      heap=m.get("heap", "6g"), timeout=m.get("timeout", 700))
        if r["rc"] != 0:
            raise ToolError("the specification itself fails in %s: see %s\n%s" % (tag, r["log"], r["text"][-3000:]))
        self.states += r["distinct"]
        self.transitions += max(0, r["generated"] - r["inits"])
        self.models[m["name"]] = dict(states=r["distinct"], generated=r["generated"],
                                      seconds=round(r["seconds"], 1), checks=m.get("checks", ""))
        return r

    # -------------------------------------------- running the code and judging it
    def drive(self, mode, cases, keep, extra=(), timeout=600, hang=60):
        """Runs the harness; returns the file of events."""
        out = self.path(mode + ".ndjson")
        args = [mode, "--seed", str(self.seed), "--cases", str(cases), "--keep", str(keep), "--hang", str(hang)] + list(extra)
        self.sizes[mode] = ["--cases", str(cases), "--keep", str(keep)]
        rc = tools.harness(self.exe, args, out, timeout)
        if rc == 0:
            return out
        case = None
        if rc == 3 and os.path.exists(out + ".hang"):
            case, what = open(out + ".hang").read().strip(), "hang"
        elif isinstance(rc, int) and rc < 0 or rc in (134, 139):
            what = "abort"
            d = self.path("log")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            tools.harness(self.exe, args + ["--log", d], out, timeout)
            for f in sorted(os.listdir(d)):
                i = open(os.path.join(d, f)).read().strip()
                if not i:
                    continue
                r = tools.harness(self.exe, args + ["--only", i], out, timeout)
                if isinstance(r, int) and (r < 0 or r in (134, 139)):
                    case = i
                    break
        if case is None:
            raise ToolError("the harness ended with %s in mode %s" % (rc, mode))
        ev = dict(k="total", out=what, mode=mode, case=int(case))
        with open(out, "w") as f:
            f.write(json.dumps(ev) + "\n")
        with open(out + ".stats", "w") as f:
            json.dump(dict(cases=int(case), suspicious=1, events=1, counts={}), f)
        return out

    def judge(self, mode, out, extra=()):
        """Judges a file of independent events with TLC."""
        lines = tools.ndjson(out)
        if not lines:
            raise ToolError("no events in mode " + mode)
        r = tools.tlc("TEvents", env={"TRACE": out}, tag=self.prop + "." + mode, timeout=800)
        bad = tools.rejects(r["text"])
        for n, why in bad:
            if why != "oracle":
                self.report(mode, lines[n - 1], why, extra)
        if bad:
            raise ToolError("an ideal function lacks a point: event %d of %s" % (bad[0][0], out))
        if r["rc"] != 0:
            raise ToolError("TLC failed on %s: see %s\n%s" % (out, r["log"], r["text"][-3000:]))
        self.judged += len(lines)
        stats = json.load(open(out + ".stats"))
        self.executed += stats["cases"]
        for k, v in stats["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        for l in (lines[0], lines[len(lines) // 2]):
            self.samples.append(l if len(l) < 1500 else l[:1500] + "...")
        self.bend(mode, lines)
        return lines

    def bend(self, mode, lines):
        """Binding: each way of corrupting a recorded event has to be rejected."""
        bad, names, want = [], [], {}
        for l in lines:
            if len(l) > 60000:
                continue
            k = json.loads(l)["k"]
            for n, (name, f) in enumerate(config.BEND.get(k, ())):
                if want.get((k, n), 0) < 4:
                    e = json.loads(l)
                    if f(e):
                        want[(k, n)] = want.get((k, n), 0) + 1
                        bad.append(json.dumps(e))
                        names.append("%s: %s" % (k, name))
        if not bad:
            return
        path = self.path(mode + ".bent.ndjson")
        with open(path, "w") as g:
            g.write("\n".join(bad) + "\n")
        r = tools.tlc("TEvents", env={"TRACE": path}, tag=self.prop + ".bent", timeout=300)
        rejected = {n for n, why in tools.rejects(r["text"])}
        self.binding = self.binding or {}
        for n, name in enumerate(names, 1):
            if n not in rejected:
                print("binding: a corrupted event was accepted (%s)" % name)
                self.binding[name] = "accepted"
            else:
                self.binding.setdefault(name, "rejected")

    def report(self, mode, line, why, extra=()):
        e = json.loads(line)
        rec = dict(property=self.prop, why=why, mode=mode, seed=self.seed, case=e.get("case"), event=e, extra=self.sizes.get(mode, []) + list(extra),
                   again="python3 check.py --replay <this file>")
        raise Violation(why, self.replay_file(rec))

    def behaviours(self, module, config, num, depth):
        """Behaviours of a specification, simulated by TLC, to be replayed on the code."""
        r = tools.tlc(module, config, workers=1, tag=self.prop + "." + module,
                      extra=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)))
        got = re.findall(r'^<<"BEHAVIOUR", ("(?:[^"\\]|\\.)*")>>$', r["text"], re.M)
        if not got:
            raise ToolError("no behaviours from %s: see %s" % (module, r["log"]))
        out = self.path(module + ".behaviours")
        # at the final depth a prefix is reported once per successor
        got = list(dict.fromkeys(got))
        with open(out, "w") as f:
            for g in got:
                f.write(json.loads(g) + "\n")
        self.counts["behaviours of the specification replayed"] = \
            self.counts.get("behaviours of the specification replayed", 0) + len(got)
        return out, len(got)

    def explored(self, module, config, mode, checks, keep, heap="6g", timeout=800):
        """TLC explores a model completely, checks its invariants and prints every state with its
        meaning; the code is run on all of them."""
        r = tools.tlc(module, config, env={"EMIT": "1"}, tag=self.prop + "." + module, heap=heap, timeout=timeout)
        if r["rc"] != 0:
            raise ToolError("the specification itself fails in %s: see %s\n%s" % (module, r["log"], r["text"][-3000:]))
        got = re.findall(r'^<<"BEHAVIOUR", ("(?:[^"\\]|\\.)*")>>$', r["text"], re.M)
        if not got or len(got) < 0.9 * r["distinct"] - 100:
            raise ToolError("%s printed %d of %d states: see %s" % (module, len(got), r["distinct"], r["log"]))
        self.states += r["distinct"]
        self.transitions += max(0, r["generated"] - r["inits"])
        self.models[module] = dict(states=r["distinct"], generated=r["generated"], seconds=round(r["seconds"], 1),
                                   checks=checks, replayed_on_code=len(got))
        f = self.path(module + ".states")
        with open(f, "w") as g:
            for x in got:
                g.write(json.loads(x) + "\n")
        os.remove(r["log"])
        self.judge(mode, self.drive(mode, len(got), keep, ("--in", f)), extra=["--in", f])

    def explain(self, module, path, tag, workers=8, show="0"):
        r = tools.tlc(module, env={"TRACE": path, "PROP": self.prop, "SHOW": show},
                      tag=self.prop + "." + tag, workers=workers, timeout=800)
        if r["rc"] != 0:
            raise ToolError("TLC failed on %s: see %s\n%s" % (path, r["log"], r["text"][-3000:]))
        done = {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', r["text"])}
        other = {int(x) for x, _ in re.findall(r'<<"OTHER", (\d+), (\d+)>>', r["text"])}
        oracle = {int(x) for x, _ in re.findall(r'<<"ORACLE", (\d+), (\d+)>>', r["text"])}
        return r, done, other, oracle

    def histories(self, mode, module, cases, extra=(), timeout=600, corrupt=None, keep=None):
        """Runs histories on the code and checks that each is a behaviour of the trace
        specification.  A line is {"case", "steps": [...]}."""
        out = self.drive(mode, cases, cases if keep is None else keep, extra, timeout, 150)
        lines = tools.ndjson(out)
        if not lines:
            raise ToolError("no histories in mode " + mode)
        if json.loads(lines[0]).get("k") == "total":
            self.report(mode, lines[0], "did not return")
        r, done, other, oracle = self.explain(module, out, mode)
        left = [n for n in range(1, len(lines) + 1) if n not in done]
        for n in left:
            if n in oracle:
                continue
            h = json.loads(lines[n - 1])
            at = self.longest(module, lines[n - 1])
            rec = dict(property=self.prop, mode=mode, seed=self.seed, case=h.get("case"),
                       why="step %d of the history is not a step of the specification" % at,
                       step=h["steps"][at - 1] if at <= len(h["steps"]) else None, history=h,
                       module=module, extra=list(extra), again="python3 check.py --replay <this file>")
            raise Violation(rec["why"], self.replay_file(rec))
        if left:
            raise ToolError("an ideal function lacks a point: history %d of %s" % (left[0], out))
        if other:
            self.notes.append("%d histories end early: they break another property" % len(other))
        self.judged += len(lines)
        self.states += r["distinct"]
        self.transitions += max(0, r["generated"] - r["inits"])
        stats = json.load(open(out + ".stats"))
        self.executed += stats["cases"]
        for k, v in stats["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        l = lines[len(lines) // 2]
        self.samples.append(l if len(l) < 3000 else l[:3000] + "...")
        if corrupt is not None and not other:
            self.bind_histories(module, lines, corrupt)
        return lines

    def bind_histories(self, module, lines, corrupt):
        """Binding: each way of corrupting a recorded history has to be rejected."""
        bad, names = [], []
        for name, f in corrupt:
            n = 0
            for l in lines:
                h = json.loads(l)
                if f(h):
                    bad.append(json.dumps(h))
                    names.append(name)
                    n += 1
                    if n == 3:
                        break
        if not bad:
            return
        path = self.path("corrupt.ndjson")
        with open(path, "w") as g:
            g.write("\n".join(bad) + "\n")
        _, done, _, _ = self.explain(module, path, "corrupt")
        self.binding = self.binding or {}
        for n, name in enumerate(names, 1):
            if n in done:
                print("binding: a corrupted history was accepted (%s)" % name)
                self.binding[name] = "accepted"
            else:
                self.binding.setdefault(name, "rejected")

    def longest(self, module, line):
        """Number of the first step that cannot be explained."""
        f = self.path("single.ndjson")
        with open(f, "w") as g:
            g.write(line + "\n")
        r, _, _, _ = self.explain(module, f, "single", 1, "1")
        at = [int(b) for _, b in re.findall(r'<<"AT", (\d+), (\d+)>>', r["text"])]
        return max(at) if at else 1

    # ------------------------------------------------------------- evidence
    def evidence(self, wall, violations):
        p = config.PROPERTIES[self.prop]
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.judged, samples=self.samples[:6],
                   executed_on_code=self.executed, kinds=dict(sorted(self.counts.items())),
                   models=self.models, notes=self.notes, exhaustive=False)
        if self.binding is not None:
            cov["binding"] = self.binding
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                           coverage=cov, assumptions=p["assumptions"], wall_s=round(wall, 2),
                           violations=violations), f, indent=1)


def known_findings(prop):
    p = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(p):
        return []
    return [l.strip() for l in open(p) if l.startswith("finding: property=%s " % prop)]


def check(prop, tier):
    os.makedirs(OUT, exist_ok=True)
    c = Check(prop, tier)
    p = config.PROPERTIES[prop]
    t = time.time()
    errors = []

    def background(f):
        def g():
            try:
                f()
            except BaseException as e:
                errors.append(e)
        th = threading.Thread(target=g)
        th.start()
        return th

    def build():
        c.exe = tools.build(c.prop)
    violations, code = 0, 0
    try:
        ths = [background(build)] + [background(lambda m=m: c.model(m)) for m in p.get("models", ())
                                     if tier in m.get("tiers", ("quick", "thorough"))]
        for th in ths:
            th.join()
        if errors:
            raise errors[0]
        p["run"](c)
        for l in known_findings(prop):
            print("KNOWN-FINDING: " + l[len("finding: "):])
    except Violation as v:
        violations, code = 1, 1
        print("%s: %s" % (prop, v.why))
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
    except ToolError as e:
        print("the check could not do its work: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        code = 2
    wall = time.time() - t
    if code != 2:
        c.evidence(wall, violations)
    if code == 0:
        print("%s %s: held on %d model states, %d cases run on the code, %d judged by TLC (%.0f s)"
              % (prop, tier, c.states, c.executed, c.judged, wall))
    sys.stdout.flush()
    return code


def replay(path):
    rec = json.load(open(path))
    print("property %s: %s" % (rec["property"], rec["why"]))
    print(json.dumps(rec.get("event") or rec.get("step"))[:4000])
    if rec.get("case") is None:
        return 0
    c = Check(rec["property"], "quick")
    os.makedirs(OUT, exist_ok=True)
    c.seed = rec["seed"]
    c.exe = tools.build(c.prop)
    out = c.path("replay.ndjson")
    rc = tools.harness(c.exe, [rec["mode"], "--seed", str(rec["seed"]), "--only", str(rec["case"])] + rec.get("extra", []), out, 120)
    print("running case %s of mode %s again: exit %s" % (rec["case"], rec["mode"], rc))
    if rc == 0 and "module" not in rec:
        r = tools.tlc("TEvents", env={"TRACE": out}, tag="replay")
        print("verdicts:", tools.rejects(r["text"]) or "none rejected")
    elif rc == 0:
        lines = tools.ndjson(out)
        print("explained up to step", c.longest(rec["module"], lines[0]))
    return 0


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        return replay(argv[1])
    if len(argv) != 2 or argv[0] not in config.PROPERTIES or argv[1] not in ("quick", "thorough"):
        print(__doc__ if False else "usage: check.py PROPERTY quick|thorough")
        return 2
    return check(argv[0], argv[1])
