"""Long runs of the library (spec/Sweep.tla), for check.py.

Some processes of the driver perform many items each and write their records.
TLC gives the SHA-256 that every block of records must have (Sweep.tla). The
calls of an item that differs are read back from its record and judged one by
one by Trace.tla, like any other history; only Trace.tla rejects.
"""
import hashlib, json, os, re, shutil, struct, subprocess, time
from concurrent.futures import ThreadPoolExecutor

BLOCK = 64
# items of each kind, over all processes
# A counter of 16 bits overflows: a process that has nothing else to do performs more than 65536 items of the cheap kinds.
QUICK = {"priv": 264000, "arith": 264000, "point": 264000, "add": 24000, "pub": 3200, "seed": 6400, "gen": 132000, "phrase": 132000}
FEWER = {"C06": 2, "C13": 2, "C16": 2}      # processes, otherwise 4
ALONE = [("priv", 66000), ("arith", 66000), ("point", 66000), ("gen", 66000)]   # for C17: process j also performs these
CROWD = {"priv": 2560, "arith": 1920, "point": 1920, "add": 512, "pub": 64, "seed": 128, "gen": 1280, "phrase": 640}      # for C18: each of eight threads
MIXED = {"priv": 48000, "arith": 32000, "point": 24000, "add": 4800, "pub": 640, "seed": 1280, "gen": 16000, "phrase": 16000}
KINDS = {
    "C01": ["priv"], "C02": ["priv", "arith"], "C03": ["priv"], "C04": ["priv", "arith", "point"], "C05": ["priv"], "C06": ["gen"], "C07": ["arith"],
    "C08": ["pub"], "C09": ["add"], "C10": ["point"], "C11": ["point"], "C12": ["point"], "C13": ["phrase"], "C14": ["seed"], "C15": ["seed"], "C16": ["phrase"],
    "C17": list(MIXED), "C19": list(MIXED), "C20": list(MIXED),
}
NETS = [("main", b"80", b"00"), ("test", b"EF", b"6F"), ("ltc", b"B0", b"30"), ("aB", b"aB", b"Cd"), ("zero", b"00", b"FF")]
LISTS = ["English", "French", "Japanese", "Italian", "Spanish", "Korean", "Czech", "ChineseTraditional", "ChineseSimplified"]


def net(i):
    id, pk, ph = NETS[i % 5]
    return {"id": id, "pk": pk.hex(), "ph": ph.hex()}


def up(n):
    """a number of items that fills blocks"""
    return -int(-n // BLOCK) * BLOCK


def volume(prop, tier):
    kinds = KINDS.get(prop, [])
    if prop in ("C17", "C19", "C20"):
        v = dict(MIXED)
    elif len(kinds) > 1:
        v = {k: QUICK[k] // 2 for k in kinds}
    else:
        v = {k: QUICK[k] for k in kinds}
    return v


# ---- reading a record back ------------------------------------------------------
class End(Exception):
    pass


class Record:
    """the calls of an item, as operations and observations of a history"""

    def __init__(self, data, ended=None):
        self.data, self.p, self.ended = data, 0, ended
        self.ops, self.obs = [], []

    def field(self):
        if self.p == len(self.data):
            raise End()
        n = struct.unpack(">H", self.data[self.p:self.p + 2])[0]
        self.p += 2 + n
        return self.data[self.p - n:self.p]

    def number(self):
        f = self.field()
        if f[:1] == b"\0" and len(f) in (100, 101):
            return "nil" if len(f) == 100 else "-"
        return f.hex()

    def network(self):
        a, b = self.field(), self.field()
        return {"pk": "nil", "ph": "nil"} if a == b"nil" else {"pk": a.hex(), "ph": b.hex()}

    def priv(self):
        v = {"k": self.number(), "hex": self.field().hex(), "wif": self.field().hex()}
        v.update(self.network())
        return v

    def pub(self):
        v = {"x": self.number(), "y": self.number()}
        v.update(self.network())
        return v

    def call(self, op, result, t=None):
        """one call; gives what it returned, or nothing"""
        r = {"has": False, "io": 0, "chg": []}
        if t is not None:
            r["t"] = t
        try:
            m = self.field().decode()
        except End:
            if self.ended:
                r["o"] = self.ended
                self.ops.append(op)
                self.obs.append(r)
            raise
        m, _, io = m.partition("!")
        r["io"] = int(io or 0)
        self.ops.append(op)
        self.obs.append(r)
        r["o"] = {"okbad": "ok", "errbad": "err"}.get(m, m)
        r["has"] = m in ("ok", "errbad")
        if m == "ok":
            v = result()
            r[{"str": "txt", "bool": "b"}.get(type(v).__name__, "r")] = v
            return v
        if op["op"] == "Format" and m == "okbad":
            r["has"], r["txt"] = True, ""
        if m == "errbad":
            r.update({"r": {"k": "", "hex": "", "wif": "", "x": "", "y": "", "pk": "", "ph": ""}, "txt": "", "b": False})

    def same(self, now, before, what):
        """an operand after the call"""
        if before is not None and now != before:
            self.obs[-1]["chg"].append(what)
            raise End()

    def text(self):
        return self.field().hex()

    def bool(self):
        return self.field() == b"\x01"


def d(seed, kind, i, j):
    return hashlib.sha256(("%s|sweep-%s%d|%d" % (seed, kind, j, i)).encode()).digest()


def item(seed, kind, i, data, ended=None):
    """(operations, observations) of item i"""
    r = Record(data, ended)
    n = net(i)
    try:
        if kind == "priv":
            t = r.text()
            p = r.call({"op": "ImportHex", "h": 1, "t": t, "n": n}, r.priv)
            if p is None:
                raise End()
            own = {"op": "ImportWif", "h": 2, "tr": {"f": "wif", "h": 1}, "n": n}
            r.call(own, r.priv, p["wif"])
            r.call({"op": "CheckWif", "t": p["wif"]}, r.bool)
            r.call({"op": "ImportWif", "h": 3, "t": r.text(), "n": n}, r.priv)
            bad = r.text()
            r.call({"op": "CheckWif", "t": bad}, r.bool)
            r.call({"op": "ImportWif", "h": 4, "t": bad, "n": n}, r.priv)
            r.call({"op": "ImportWif", "h": 5, "t": p["wif"], "n": net(i + 1 + d(seed, "priv", i, 2)[5] % 4)}, r.priv)
        elif kind == "arith":
            a = r.field()
            if a == b"skip":
                raise End()
            b = r.field()
            keys = [r.call({"op": "ImportHex", "h": h, "t": v.rjust(32, b"\0").hex().encode().hex(), "n": n}, r.priv) for h, v in ((1, a), (2, b))]
            if None in keys:
                raise End()
            for op in ("AddPriv", "MulPriv"):
                r.call({"op": op, "h": 3, "a": 1, "b": 2}, r.priv)
                now = [r.priv(), r.priv()]
                r.same(now, keys, "operand")
        elif kind == "point":
            p = r.call({"op": "ImportPub", "h": 1, "t": r.text(), "n": n}, r.pub)
            if p is None:
                raise End()
            r.call({"op": "Format", "a": 1, "c": True}, r.text)
            u = r.call({"op": "Format", "a": 1, "c": False}, r.text) or ""
            for c in (True, False):
                r.call({"op": "Addr", "a": 1, "c": c}, r.text)
            r.same(r.pub(), p, "key")
            r.call({"op": "ImportPub", "h": 2, "tr": {"f": "fmtu", "h": 1}, "n": n}, r.pub, u)
            r.call({"op": "ImportPub", "h": 3, "t": r.text(), "n": n}, r.pub)
        elif kind == "add":
            c = r.field()
            if c == b"skip":
                raise End()
            c = [c.hex()] + [r.number() for _ in range(3)]
            keys = []
            for h in (1, 2):
                op = {"op": "PubLit", "h": h, "x": c[2 * h - 2], "y": c[2 * h - 1], "n": n}
                r.ops.append(op)
                r.obs.append({"o": "ok", "has": False, "io": 0, "chg": []})
                keys.append({"x": op["x"], "y": op["y"], "pk": n["pk"], "ph": n["ph"]})
            for a, b, comp in ((1, 2, True), (2, 1, False)):
                r.call({"op": "AddPub", "h": 3, "a": a, "b": b, "c": comp}, r.pub)
                r.same([r.pub(), r.pub()], [keys[a - 1], keys[b - 1]], "operand")
        elif kind == "pub":
            k = r.number()
            r.ops.append({"op": "Lit", "h": 1, "k": k, "hex": "", "wif": "", "n": n})
            r.obs.append({"o": "ok", "has": False, "io": 0, "chg": []})
            r.call({"op": "GetPub", "h": 1, "a": 1}, r.pub)
            r.same(r.priv(), {"k": k, "hex": "", "wif": "", "pk": n["pk"], "ph": n["ph"]}, "key")
        elif kind == "gen":
            r.call({"op": "Gen", "h": 1, "n": n}, r.priv)
        elif kind == "phrase":
            r.call({"op": "Mnem", "h": 1, "w": 12 + 3 * (i // 9 % 5), "list": LISTS[i % 9]}, r.text)
        else:
            l = LISTS[i % 9]
            t, pw = r.text(), r.text()
            r.call({"op": "Seed", "t": t, "pass": pw, "list": l}, r.text)
            r.call({"op": "Seed", "t": r.text(), "pass": "", "list": l}, r.text)
    except End:
        pass
    return r.ops, r.obs


# ---- what was drawn ----------------------------------------------------------------
WORDS = {}


def words(name, data):
    if name not in WORDS:
        with open(os.path.join(data, "wordlists.json")) as f:
            for n, ws in json.load(f).items():
                WORDS[n] = {bytes.fromhex(w): i for i, w in enumerate(ws)}
    return WORDS[name]


def drawn(kind, i, rec, data):
    """the scalar of a key, or the entropy of a phrase, in hex; nothing if there is none"""
    _, obs = item("", kind, i, rec)
    r = obs[0]
    if r["o"] != "ok" or not r["has"]:
        return ""
    if kind == "gen":
        return r["r"]["k"] if re.fullmatch("[0-9a-f]{2,64}", r["r"]["k"]) else ""
    bits, l = "", words(LISTS[i % 9], data)
    for w in bytes.fromhex(r["txt"]).split(b" "):
        if w not in l:
            return ""
        bits += "{:011b}".format(l[w])
    n = len(bits) // 33 * 32
    return "" if len(bits) % 33 else "%0*x" % (n // 4, int(bits[:n], 2)) if n else ""


# ---- the runs --------------------------------------------------------------------
def records(f):
    with open(f, "rb") as h:
        data = h.read()
    p, out = 0, []
    while p + 4 <= len(data):
        n = struct.unpack(">I", data[p:p + 4])[0]
        if p + 4 + n > len(data):
            break
        out.append(data[p + 4:p + 4 + n])
        p += 4 + n
    return out


class Sweep:
    def __init__(self, run, trouble, stuck):
        self.run, self.Trouble, self.stuck = run, trouble, stuck
        self.items = self.blocks = self.states = 0
        self.different = 0
        self.hist, self.res = [], []
        self.kinds = {}
        self.seen, self.twice = {}, 0

    def process(self, name, jobs, secs):
        """one driver process; gives how it ended, None for well"""
        out = self.run.path(name)
        errf = self.run.path("driver-error-" + name)
        p = subprocess.Popen([self.run.driver, "sweep", self.seed, ",".join(jobs), out], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, env=self.run.env(VERIF_DRIVER_ERR=errf, VERIF_SWEEP_SECS=str(secs), **self.run.switches(name[-1] in "13579")), cwd=self.run.dir)
        size, since = -1, time.time()
        files = [out + "." + j.split(":")[0] for j in jobs] + [out + ".now"]
        while p.poll() is None:
            time.sleep(0.02)
            z = sum(os.path.getsize(f) for f in files if os.path.exists(f))
            if z != size:
                size, since = z, time.time()
            elif time.time() - since > self.stuck:
                p.kill()
                p.wait()
                return "hang"
        if p.returncode == 97:
            raise self.Trouble("driver: " + open(errf).read())
        return "died" if p.returncode else None

    def part(self, name, plan, secs):
        """items of one process: kind -> (first, records); and the call that did not return"""
        jobs = ["%s:%d:%d" % (k, f, n) for k, (f, n) in plan.items()]
        end = None
        if self.process(name, jobs, secs):
            """again, noting every call from where the records end"""
            jobs = ["%s:%d:%d:%d" % (k, f, n, f + len(records(self.run.path(name + "." + k)))) for k, (f, n) in plan.items()]
            how = self.process(name, jobs, 4 * secs)
            if how and os.path.exists(self.run.path(name + ".now")):
                with open(self.run.path(name + ".now"), "rb") as f:
                    head, _, rest = f.read().partition(b"\n")
                k, i = head.decode().split()
                end = (k, int(i), rest, how)
        got = {k: (f, records(self.run.path(name + "." + k))) for k, (f, n) in plan.items()}
        lost = set()
        if os.path.exists(self.run.path(name + ".held")):
            with open(self.run.path(name + ".held")) as f:
                lost = {(l.split()[0], int(l.split()[1])) for l in f}
        for k in plan:
            os.remove(self.run.path(name + "." + k))
        return got, end, lost

    def differing(self, blocks, name):
        f = self.run.path(name + ".ndjson")
        with open(f, "w") as h:
            for b in blocks:
                h.write(json.dumps(b) + "\n")
        r = self.run.tlc("Sweep", env=self.run.env(VERIF_SWEEP=f), name=name, mem="6g")
        if r["rc"] != 0 or r["distinct"] != 2 * len(blocks):
            raise self.Trouble("checking the blocks failed:\n" + r["out"][-3000:])
        self.states += r["distinct"]
        return sorted({int(b) - 1 for b in re.findall(r'<<"BLOCK", (\d+)>>', r["out"])})

    def round(self, number, volume, procs, secs):
        self.seed = str(self.run.seed)
        plans = []
        for j in range(procs):
            plans.append({k: ((number * procs + j) * up(n / procs), up(n / procs)) for k, n in volume.items()})
            if self.run.prop == "C17" and self.run.tier == "quick":
                k, n = ALONE[j % len(ALONE)]
                plans[j][k] = (10**8 + plans[j][k][0], up(n))
        with ThreadPoolExecutor(procs) as ex:
            parts = list(ex.map(lambda j: self.part("sweep-%d-%d" % (number, j), plans[j], secs), range(procs)))
        blocks, data = [], []
        for got, end, lost in parts:
            for k, i in sorted(lost)[:40]:
                """what this item returned became something else later"""
                first, recs = got[k]
                self.judge(k, i, recs[i - first])
                self.res[-1][-1]["chg"].append("held")
            for k, (first, recs) in got.items():
                self.items += len(recs)
                self.kinds[k] = self.kinds.get(k, 0) + len(recs)
                for i in range(0, len(recs), BLOCK):
                    part = recs[i:i + BLOCK]
                    blocks.append(self.block(k, first + i, part))
                    data.append(part)
            if end:
                k, i, rest, how = end
                self.judge(k, i, rest, how)
        if not blocks:
            return
        self.blocks += len(blocks)
        self.again(blocks, data)
        bad = self.differing(blocks, "sweep%d" % number)
        if not bad:
            return
        self.different += len(bad)
        pick = bad[:: max(1, len(bad) // 48)][:48]
        ones = [(self.block(blocks[b]["kind"], blocks[b]["from"] + j, [rec]), rec)
                for b in pick for j, rec in enumerate(data[b])]
        worse = self.differing([o for o, _ in ones], "sweep%d-items" % number)
        for w in worse[:: max(1, len(worse) // 400)][:400]:
            o, rec = ones[w]
            self.judge(o["kind"], o["from"], rec)

    def block(self, kind, first, recs):
        b = {"kind": kind, "from": first, "n": len(recs), "sum": hashlib.sha256(b"".join(recs)).hexdigest()}
        if kind in ("gen", "phrase"):
            b["args"] = [drawn(kind, first + j, rec, os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")) for j, rec in enumerate(recs)]
        return b

    def again(self, blocks, data):
        """what was drawn twice, for Trace.tla to judge"""
        for b, recs in zip(blocks, data):
            for j, a in enumerate(b.get("args", ())):
                if len(a) < 32:
                    continue
                here = (b["kind"], b["from"] + j, recs[j])
                if (b["kind"], a) in self.seen and self.twice < 40:
                    self.twice += 1
                    ops, obs = zip(*(item(self.seed, k, i, r) for k, i, r in (self.seen[(b["kind"], a)], here)))
                    self.hist.append({"id": "sweep-%s-twice" % b["kind"], "ops": ops[0] + ops[1]})
                    self.res.append(obs[0] + obs[1])
                self.seen[(b["kind"], a)] = here

    def judge(self, kind, i, rec, how=None):
        ops, obs = item(self.seed, kind, i, rec, how)
        if ops:
            self.hist.append({"id": "sweep-%s-%d" % (kind, i), "ops": ops})
            self.res.append(obs)

    def alone(self):
        """the items that differ, each in a process of its own: what a call answered there"""
        def one(j):
            _, kind, i = self.hist[j]["id"].split("-")
            if kind in ("gen", "phrase"):
                return
            name = "alone-%d" % j
            got, end, _ = self.part(name, {kind: (int(i), 1)}, 30)
            rec, how = (end[2], end[3]) if end else (got[kind][1][0], None)
            ops, obs = item(self.seed, kind, int(i), rec, how)
            if self.res[j][-1]["chg"] == ["held"]:
                return
            for a, r, b, s in zip(self.hist[j]["ops"], self.res[j], ops, obs):
                if a != b or r.get("t") != s.get("t"):
                    break
                if a["op"] not in ("Lit", "PubLit"):
                    r["sr"] = {k: v for k, v in s.items() if k not in ("io", "chg", "t")}
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, range(len(self.hist))))


class Crowd(Sweep):
    """items performed by several threads of one process at the same time (C18)"""
    THREADS = 8

    def together(self, name, number, volume, exe, inline=False):
        """gives blocks, records, how it ended, races, what it said"""
        plan = {k: (number * self.THREADS * up(n), up(n)) for k, n in volume.items()}
        out = self.run.path(name)
        errf = self.run.path("driver-error-" + name)
        env = self.run.env(VERIF_DRIVER_ERR=errf, VERIF_SWEEP_SECS="300", VERIF_SWEEP_THREADS=str(self.THREADS),
                           GORACE="log_path=%s.race halt_on_error=0 exitcode=0 atexit_sleep_ms=10 history_size=4" % out)
        if inline:
            env["VERIF_SWEEP_INLINE"] = "1"
        with open(out + ".err", "wb") as err:
            p = subprocess.Popen([exe, "sweep", self.seed, ",".join("%s:%d:%d" % (k, f, n) for k, (f, n) in plan.items()), out],
                                 stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=env, cwd=self.run.dir)
            files = ["%s-%d.%s" % (out, t, k) for t in range(self.THREADS) for k in plan]
            size, since, how = -1, time.time(), "well"
            while p.poll() is None:
                time.sleep(0.02)
                z = sum(os.path.getsize(f) for f in files if os.path.exists(f))
                if z != size:
                    size, since = z, time.time()
                elif time.time() - since > self.stuck:
                    p.kill()
                    p.wait()
                    how = "hang"
        if p.returncode == 97:
            raise self.Trouble("driver: " + open(errf).read())
        if how == "well" and p.returncode:
            how = "died"
        with open(out + ".err", errors="replace") as f:
            said = f.read()[-4000:]
        races = 0
        for f in os.listdir(self.run.dir):
            if f.startswith(name + ".race"):
                with open(self.run.path(f), errors="replace") as h:
                    t = h.read()
                races += t.count("WARNING: DATA RACE")
                said = t[:8000] + said
        blocks, data, lost = [], [], set()
        for t in range(self.THREADS):
            for k, (f, n) in plan.items():
                g = "%s-%d.%s" % (out, t, k)
                if not os.path.exists(g):
                    continue
                recs = records(g)
                os.remove(g)
                for i in range(0, len(recs), BLOCK):
                    part = recs[i:i + BLOCK]
                    blocks.append(self.block(k, f + t * n + i, part))
                    data.append(part)
            g = "%s-%d.held" % (out, t)
            if os.path.exists(g):
                with open(g) as h:
                    lost |= {(l.split()[0], int(l.split()[1])) for l in h}
        return blocks, data, how, races, said, lost

    def wrong(self, blocks, data, name):
        """kind and first item of each block that is not what it has to be, and of each thing drawn twice"""
        bad = {(blocks[b]["kind"], blocks[b]["from"]) for b in self.differing(blocks, name)} if blocks else set()
        for b in blocks:
            for a in b.get("args", ()):
                if len(a) >= 32 and (b["kind"], a) in self.seen:
                    bad.add((b["kind"], b["from"]))
                self.seen[(b["kind"], a)] = True
        return bad

    def round(self, number):
        """gives what went wrong and does not when the same items come one after another"""
        self.seed = str(self.run.seed)
        quick = self.run.tier == "quick"
        small = {k: max(BLOCK, n // 4) for k, n in CROWD.items()}
        found = []
        for tag, exe, volume in (("plain", self.run.driver, CROWD), ("race", self.run.racer, small)):
            name = "crowd-%s-%d" % (tag, number)
            blocks, data, how, races, said, lost = self.together(name, number, volume, exe)
            self.items += sum(b["n"] for b in blocks)
            for b in blocks:
                self.kinds[b["kind"]] = self.kinds.get(b["kind"], 0) + b["n"]
            self.blocks += len(blocks)
            bad = self.wrong(blocks, data, name)
            if races:
                found.append({"run": tag, "event": "data race", "text": said})
            if not (bad or lost or how != "well"):
                continue
            self.seen = {}
            b2, d2, how2, _, _, lost2 = self.together(name + "-inline", number, volume, self.run.driver, inline=True)
            bad2 = self.wrong(b2, d2, name + "-inline")
            if how2 == "well" and how != "well":
                found.append({"run": tag, "event": how, "text": said})
            if how2 == "well":
                self.different += len(bad - bad2)
                random = {k for k, _ in bad2 if k in ("gen", "phrase")}
                found += [{"run": tag, "event": "other results", "kind": k, "items": "%d to %d" % (i, i + BLOCK - 1)} for k, i in sorted(bad - bad2) if k not in random]
                found += [{"run": tag, "event": "a result changed later", "kind": k, "item": i} for k, i in sorted(lost - lost2)] if not lost2 else []
        return found


def crowd(run, trouble, stuck):
    s = Crowd(run, trouble, stuck)
    s.found = []
    for number in range(1 if run.tier == "quick" else 12):
        s.found += s.round(number)
        if s.found:
            break
    return s


def go(run, trouble, stuck):
    """gives the sweep; its histories are those that Trace.tla has to judge"""
    s = Sweep(run, trouble, stuck)
    v = volume(run.prop, run.tier)
    if not v:
        return s
    quick = run.tier == "quick"
    for number in range(1 if quick else 10):
        s.round(number, v, FEWER.get(run.prop, 4) if quick else 8, 20 if quick else 60)
        if s.hist and (number or quick):
            break
    if run.prop == "C17" and s.hist:
        s.alone()
    return s
