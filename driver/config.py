"""What each check does."""

COMMON = ["TLC and the JSON module read the recorded events correctly",
          "the projection of the library's values in the hooks is faithful"]
CRYPTO = ["AES-128-GCM, AES-ECB and HMAC-SHA256 of the ring crate are what they claim; the specification treats them as ideal functions given by points that ring computed"]

PROPERTIES = {}


def prop(id, level_note, technique, run, models=(), assumptions=()):
    PROPERTIES[id] = dict(level_note=level_note, technique=technique, run=run, models=list(models),
                          assumptions=COMMON + list(assumptions))


def stateless(mode, quick, thorough):
    """quick, thorough: (cases run on the code, cases of those judged whatever they look like)"""
    def run(c):
        n, k = quick if c.tier == "quick" else thorough
        c.judge(mode, c.drive(mode, n, k))
        for module, checks in WIRE.get(mode, ()):
            c.explored(module, module + (".cfg" if c.tier == "quick" else "Deep.cfg"), mode + "R", checks,
                       200 if c.tier == "quick" else 2000, *(() if c.tier == "quick" else ("20g", 2500)))
    return run


# models of the wire format that are explored, and replayed on the code state by state
_BYTES = ("MCBytes", "FramesMeanTheSame NothingFromNowhere HeaderIsItself NoShorterHeader IntegerIsItself")
_WIRE = ("MCWire", "ReadsBack NoShorterReading Canonical Extends Bounded")
_CHANNEL = ("MCChannel", "Arrives Authentic Spoilt NothingAfterOneRtt NotMore")
WIRE = {
    "C01": [_BYTES], "C02": [_WIRE], "C03": [_WIRE, _BYTES], "C04": [_BYTES],
    "C08": [_CHANNEL], "C09": [_CHANNEL], "C12": [_CHANNEL], "C13": [_BYTES, _CHANNEL], "C14": [_BYTES, _CHANNEL],
    "C07": [("MCSend", "Arrives Exact Private SomeLength")],
    "C10": [("MCSchedule", "Agree Separate OwnKeys Later")],
    "C11": [("MCSeal", "Opens OnlyThat NonceOnce NonceShape")],
    "C05": [("MCNumbers", "KeepsDigits Closest Recovers SafeIsSafe Monotone")],
    "C21": [("MCParams", "ReadsBack Fit NoShorterReading")],
    "C23": [("MCFields", "Accounted NothingAdded StopsForWant Stable Possible")],
    "C25": [("MCNegotiation", "ReadsBack NothingElse WholeVersions")],
    "C24": [("MCLabels", "Fits Unambiguous WholeLength Agrees")],
}


EVENTS = ("TLA+ specification of the wire format; calls on the real code recorded as events and judged by TLC "
          "(trace validation), inputs from boundary enumeration and seeded generation; bounded models explored by TLC, "
          "each state replayed on the code")

for _id, _q, _t, _a in [
    ("C01", (2000000, 2000), (60000000, 20000), []),
    ("C02", (600000, 1200), (20000000, 20000), []),
    ("C03", (1500000, 1500), (40000000, 30000), []),
    ("C04", (600000, 1500), (20000000, 30000), []),
    ("C07", (150000, 800), (3000000, 8000), CRYPTO),
    ("C08", (100000, 500), (2000000, 5000), CRYPTO),
    ("C09", (40000, 400), (800000, 4000), CRYPTO),
    ("C10", (200000, 1200), (4000000, 10000), CRYPTO),
    ("C11", (100000, 1200), (3000000, 10000), CRYPTO),
    ("C12", (100000, 800), (3000000, 8000), CRYPTO),
    ("C13", (1500000, 1500), (60000000, 15000), []),
    ("C14", (400000, 1500), (10000000, 15000), []),
    ("C21", (600000, 2000), (20000000, 20000), []),
    ("C23", (1000000, 3000), (40000000, 30000), []),
    ("C24", (100000, 1500), (3000000, 12000), CRYPTO),
    ("C25", (300000, 1500), (8000000, 15000), CRYPTO),
]:
    prop(_id, "Complete for the replayed models within their bounds; beyond them every recorded call was compared with the specification, "
             "not exhaustive over inputs.",
         EVENTS, stateless(_id, _q, _t), assumptions=_a)


# ------------------------------------------- corrupted observations, which TLC has to reject
def _flipb(v):
    """Another last byte; False when there is none."""
    if not v:
        return False
    v[-1] ^= 1
    return True


def _field(f, sub=None):
    return lambda e: e["out"] == "ok" and _flipb(e[f] if sub is None else e[f][sub])


def _outcome(a, b, **more):
    def f(e):
        if e["out"] != a or any(e.get(k) != v for k, v in more.items()):
            return False
        e["out"] = b
        return True
    return f


def _drop(f):
    return lambda e: e["out"] == "ok" and len(e[f]) > 0 and (e[f].pop(), True)[1]


def _packet(g):
    return lambda e: e["out"] == "ok" and bool(e["packets"]) and bool(g(e["packets"][0]))


def _swapped(f):
    def g(e):
        if e["out"] == "ok" and len(e[f]) >= 2 and e[f][0] != e[f][1]:
            e[f][0], e[f][1] = e[f][1], e[f][0]
            return True
    return g


def _but(**kw):
    def f(e):
        if e["out"] != "ok" or all(e[k] == v for k, v in kw.items()):
            return False
        e.update(kw)
        return True
    return f


BEND = {
    "vi_enc": [("another encoding", _field("bs")), ("an integer refused", _outcome("ok", "err")),
               ("an integer too large accepted", _outcome("err", "ok"))],
    "vi_dec": [("another integer", _field("x")), ("an incomplete integer accepted", _outcome("err", "ok")),
               ("a wrong count of bytes", lambda e: e["out"] == "ok" and not e.update(used=e["used"] + 1))],
    "ser": [("other bytes", _field("bs")), ("a frame lost", lambda e: e["out"] == "ok" and len(e["frames"]) > 0 and (e["frames"].pop(), True)[1])],
    "parse": [("a frame lost", _drop("frames")), ("frames in another order", _swapped("frames")),
              ("an invalid payload accepted", _outcome("err", "ok"))],
    "header": [("another destination id", lambda e: e["out"] == "ok" and e["dlen"] <= 20 and _flipb(e["dcid"])), ("another source id", lambda e: e["out"] == "ok" and e["long"] and e["slen"] <= 20 and _flipb(e["scid"])),
               ("another version", lambda e: e["out"] == "ok" and e["long"] and _flipb(e["version"])), ("written back differently", _field("bytes")),
               ("an invalid header accepted", lambda e: e["out"] == "err" and not e.update(out="panic"))],
    "recon": [("another packet number", _field("pn"))],
    "trunc": [("other bytes", _field("bytes")), ("another number", _field("pn"))],
    "decode": [("a packet lost", _drop("packets")), ("a frame lost", _packet(lambda p: p["frames"] and (p["frames"].pop(), True)[1])),
               ("another packet number", _packet(lambda p: p["kind"] != "vn" and _flipb(p["pn"]))),
               ("another token", _packet(lambda p: _flipb(p["token"]))),
               ("another version in the list", _packet(lambda p: p["versions"] and _flipb(p["versions"][-1]))),
               ("a version lost", _packet(lambda p: p["versions"] and (p["versions"].pop(), True)[1])),
               ("a datagram that is not valid accepted", _outcome("err", "ok", must=False, forged=True)),
               ("a valid datagram refused", _outcome("ok", "err", must=True, may=False))],
    "forge": [("a forgery accepted", lambda e: not e.update(out="ok", packets=[dict(kind="initial")]))],
    "send": [("other bytes on the wire", _field("bs")), ("another packet number", _field("pn")),
             ("a frame lost", lambda e: e["out"] == "ok" and len(e["frames"]) > 0 and (e["frames"].pop(), True)[1]),
             ("another token", lambda e: e["out"] == "ok" and _flipb(e["token"]))],
    "keys": [("another key", lambda e: _flipb(e["local"]["key"])), ("another iv", lambda e: _flipb(e["remote"]["iv"])),
             ("directions exchanged", lambda e: not e.update(local=e["remote"], remote=e["local"]))],
    "secret": [("another header protection key", lambda e: _flipb(e["keys"]["hp"]))],
    "seal": [("another ciphertext", _field("ct")), ("a wrong length announced", lambda e: not e.update(announced=e["announced"] + 1))],
    "open": [("another payload", _field("pt")), ("opened what nobody sealed", _outcome("err", "ok"))],
    "mask": [("another mask", _field("mask")), ("a mask of a short sample", _outcome("err", "ok"))],
    "params": [("other bytes", _field("bs")), ("a parameter lost", _drop("params"))],
    "expand": [("another output", _field("v")), ("an impossible derivation", _outcome("err", "ok")), ("refused", _outcome("ok", "err"))],
    "extract": [("another output", _field("v"))],
    "fields": [("another value", lambda e: any(_flipb(x) for x in e["got"])), ("a field lost", _drop("got")),
               ("a wrong count of bytes", lambda e: e["out"] == "ok" and not e.update(used=e["used"] + 1)),
               ("a field that is not there", _outcome("err", "ok")), ("refused", _outcome("ok", "err"))],
    "slice": [("another value", _field("v")), ("a field that is not there", _outcome("err", "ok"))],
    "id": [("other bytes", _field("full")), ("written differently", _field("bs")),
           ("compared wrongly", lambda e: not e.update(eq=not e["eq"]))],
    "total": [("a panic", lambda e: not e.update(out="panic")), ("a hang", lambda e: not e.update(out="hang"))],
    "memory": [("too much memory", lambda e: not e.update(peak=2048 * e["n"] + 65537))],
}


# ----------------------------------------------------------------- routing
def _step(op, f, out=None):
    """Corrupts the first step of that operation that f can corrupt."""
    def g(h):
        for s in h["steps"]:
            if s["op"] == op and (out is None or s.get("out") == out) and f(s):
                return True
        return False
    return g


def _swap(s):
    g = s["got"]
    if len(g) >= 2 and g[0] != g[1]:
        g[0], g[1] = g[1], g[0]
        return True


def _twice(s):
    if s["got"]:
        s["got"].append(s["got"][-1])
        return True


def _lost(s):
    if s["got"]:
        s["got"].pop()
        return True


def _flip(s):
    if s["got"] and s["got"][0]["bs"]:
        s["got"][0]["bs"][-1] ^= 1
        return True


def _from(s):
    if s["got"]:
        s["got"][0]["from"] = "1" + s["got"][0]["from"]
        return True


def _panic(s):
    s["out"] = "panic"
    return True


def _key(s):
    for c in s["conns"]:
        c["local"]["key"][0] ^= 1
        return True


def _phantom(s):
    if s["conns"]:
        import copy
        c = copy.deepcopy(s["conns"][0])
        c["id"][0] ^= 255
        c["scid"] = c["id"]
        s["conns"].append(c)
        return True


def _vanish(s):
    if len(s["conns"]) >= 2 and "gone" not in s:
        s["conns"].pop(0)
        return True


CORRUPT = {
    "C15": [("datagrams queued in another order", _step("drain", _swap)), ("a datagram queued twice", _step("drain", _twice)),
            ("a datagram lost", _step("drain", _lost)), ("a bit of a datagram changed", _step("drain", _flip)),
            ("another sender address", _step("drain", _from))],
    "C16": [("waiting ends in a panic", _step("accept", _panic)), ("a connection vanishes while waiting", _step("accept", _vanish, "timeout"))],
    "C17": [("a key of a connection differs", _step("accept", _key, "opened")), ("a second connection appears", _step("accept", _phantom, "opened"))],
    "C18": [("another connection vanishes with the dropped one", _step("drop", _vanish)), ("a dropped id stays", _step("drop", _phantom)),
            ("opening replaces a connection", _step("accept", _vanish, "opened"))],
}


def routing(quick, thorough):
    """(behaviours of the specification, histories in all)"""
    def run(c):
        b, n = quick if c.tier == "quick" else thorough
        f, _ = c.behaviours("GenRouting", "GenRouting.cfg", b, 25)
        c.histories(c.prop, "TRouting", n, ("--in", f), corrupt=CORRUPT[c.prop])
    return run


ROUTING_MODELS = [
    dict(name="routing", module="MCRouting", config="MCRouting.cfg", workers=3,
         checks="ExactlyOnceInOrder RightKeys OpensAll Untouched OneAtATime FreshStartsEmpty"),
    dict(name="routing_live", module="MCRouting", config="MCRoutingLive.cfg", workers=2, checks="Served (liveness)"),
]
for _id in ("C15", "C16", "C17", "C18"):
    prop(_id, "Complete for the design model within its bounds; the code is bound to it by replaying behaviours of the "
              "specification and random histories on a real socket, each recorded history checked to be a behaviour.",
         "TLA+ state machine of socket and connections, model checked with TLC; behaviours simulated from it replayed on a "
         "real UDP socket; recorded histories checked against the specification (trace validation)",
         routing((80, 500), (600, 6000)), ROUTING_MODELS,
         CRYPTO + ["datagrams sent over the loopback network by one thread arrive in order and are not lost"])


# ------------------------------------------- packet numbers, keys, header protection
def _set(op, field, value, out=None, when=lambda s: True):
    def f(s):
        if not when(s) or s.get(field) == value:
            return False
        s[field] = value
        return True
    return _step(op, f, out)


def _bump(field):
    def f(s):
        v = s[field]
        if not v:
            return False
        v[-1] = (v[-1] + 1) % 256
        return True
    return f


def _again(op):
    """The same packet number twice in a space."""
    def g(h):
        seen = {}
        for s in h["steps"]:
            if s["op"] == op and s["out"] == "ok":
                k = (s["conn"], s.get("space"), s.get("kind"))
                if k in seen:
                    s["pn"] = seen[k]["pn"]
                    f = "bytes" if "bytes" in s else "pnbytes"
                    s[f] = s["pn"][-len(s[f]):]
                    return True
                seen[k] = s
        return False
    return g


def _skipped(h):
    """A packet sent on a connection is missing, so that its number was used up by nothing."""
    sent = [(i, s) for i, s in enumerate(h["steps"]) if s["op"] == "send"]
    for (i, s), (j, t) in zip(sent, sent[1:]):
        if (s["conn"], s["kind"]) == (t["conn"], t["kind"]) and s["out"] == t["out"] == "ok" \
                and not any(x["op"] == "skip" for x in h["steps"][i:j]):
            # the first packet of a space may have either of two numbers
            if any(x["conn"] == s["conn"] and x["kind"] == s["kind"] and x["out"] == "ok" for _, x in sent if _ < i):
                h["steps"].pop(i)
                return True
    return False


CORRUPT["C05"] = [("a packet recovered as another number", _step("deliver", _bump("pn"), "ok")),
                  ("a packet in reach is not recovered", _set("deliver", "out", "err", "ok")),
                  ("a number is truncated wrongly", _step("send", _bump("bytes"), "ok"))]
CORRUPT["C06"] = [("a number handed out twice", _again("next")), ("a packet number used twice", _again("build")),
                  ("a number skipped", _step("next", lambda s: _bump("pn")(s) and _bump("bytes")(s), "ok")),
                  ("another number on the wire", _step("build", lambda s: s["wire"] == "ok" and _bump("wirepn")(s), "ok")),
                  ("the first byte announces another length", _step("build", lambda s: s.update(first=s["first"] ^ 1) or True, "ok"))]
CORRUPT["C19"] = [("a packet read without its keys", _set("recv", "out", "ok", "err")),
                  ("a packet refused with its keys", _set("recv", "out", "err", "ok")),
                  ("a packet sealed with another key", _step("send", lambda s: s.update(opens=[s["opens"][0] % 6 + 1]) or True, "ok")),
                  ("sent without keys", _set("send", "out", "ok", "err")),
                  ("a mask of another key", _step("mask", lambda s: s.update(opens=[s["opens"][0] % 6 + 1]) or True, "ok"))]
CORRUPT["C20"] = [("an unprotected bit changed", _step("add", lambda s: s["bytes"].__setitem__(0, s["bytes"][0] ^ 32) or True)),
                  ("a bit not restored", _step("remove", lambda s: s["bytes"].__setitem__(0, s["bytes"][0] ^ 1) or True)),
                  ("read while hidden", _set("read", "out", "ok", "err", lambda s: s["what"] == "pnlen")),
                  ("a length read wrongly", _step("read", lambda s: s["what"] == "pnlen" and not s.update(val=s["val"] % 4 + 1), "ok")),
                  ("a packet number byte left", _step("mask", lambda s: s["mask"][1] != 0 and not s["after"].__setitem__(0, s["pn"][0]), "ok"))]

CORRUPT["C22"] = [("a refused datagram is read", _set("recv", "out", "ok", "err")),
                  ("a number is used up in between", _skipped),
                  ("read as another packet number", _step("recv", lambda s: s["packets"] and s["packets"][0]["kind"] != "vn" and _bump("pn")(s["packets"][0]), "ok")),
                  ("other bytes sent", _step("send", _bump("bs"), "ok")),
                  ("sent without keys", _set("send", "out", "ok", "err"))]


def machine(mode, gen, trace, depth, quick, thorough, also=None, keep=None):
    """(behaviours of the specification, cases in all)"""
    def run(c):
        b, n = quick if c.tier == "quick" else thorough
        f, k = c.behaviours(gen, gen + ".cfg", b, depth)
        c.histories(mode, trace, n + k, ("--in", f), corrupt=CORRUPT[c.prop], keep=keep and keep[c.tier])
        if also:
            also(c)
    return run


def model(name, module, checks, deep, heap="6g"):
    return [dict(name=name, module=module, config=module + ".cfg", workers=4, checks=checks, tiers=("quick",)),
            dict(name=name, module=module, config=deep + ".cfg", workers=8, checks=checks, tiers=("thorough",),
                 timeout=3000, heap=heap)]


MACHINE_NOTE = ("Complete for the design model within its bounds; the code is bound to it by replaying behaviours of the "
                "specification and random histories on real connections, each recorded history checked to be a behaviour.")


def technique(what):
    return ("TLA+ state machine of %s, model checked with TLC; behaviours simulated from it replayed on the real code; "
            "recorded histories checked against the specification (trace validation)" % what)


prop("C05", MACHINE_NOTE, technique("sender, receiver and lossy link of a packet number space") +
     "; single calls judged by TLC as well",
     machine("C05L", "GenLink", "TLink", 41, (150, 1500), (2000, 20000),
             also=stateless("C05", (1000000, 2000), (40000000, 30000))),
     model("link", "MCLink", "AllRecovered NewestRecovered AckedWasReceived", "MCLinkDeep", "20g"))
prop("C06", MACHINE_NOTE, technique("the packet number counters of several connections"),
     machine("C06", "GenSpaces", "TSpaces", 41, (150, 1200), (2000, 15000)),
     model("spaces", "MCSpaces", "NoNonceTwice BehindCounter Increasing Independent", "MCSpacesDeep", "20g"))
prop("C19", MACHINE_NOTE, technique("the keys of the packet number spaces of a connection"),
     machine("C19", "GenKeys", "TKeys", 41, (200, 2000), (3000, 30000)),
     model("keys", "MCKeys", "SealedWithOwnSpace ReadWithOwnSpace NotBeforeKeys OthersUntouched", "MCKeysDeep", "20g"),
     CRYPTO)
prop("C20", MACHINE_NOTE + " Every first byte was combined with every first byte of a mask on the code.",
     technique("the protection of a header"),
     machine("C20", "GenHeader", "THeader", 21, (200, 2 * 256 * 256 + 20000), (2000, 2 * 256 * 256 + 2000000),
             keep=dict(quick=1500, thorough=15000)),
     model("header", "MCHeader", "Restored OnlyProtectedBits HiddenIsMasked TwiceIsOnce TypeReadable BareStays", "MCHeaderDeep"))
prop("C22", MACHINE_NOTE, technique("several connections over their lifetime, on bytes"),
     machine("C22", "GenEndpoint", "TEndpoint", 41, (150, 650), (1000, 4000)),
     model("endpoint", "MCEndpoint", "Authentic NonceOnce Strict Arrives NoTrace Isolated", "MCEndpointDeep", "20g"),
     CRYPTO)
