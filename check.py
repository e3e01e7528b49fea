#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo (properties.jsonl) with the specification in
spec/:

 1. builds the java evaluators of the specification and the driver, the
    latter from /repo's working tree;
 2. model checks the specification's own statement of the property (MODELS);
 3. lets TLC generate histories of calls (Gen.tla, Walk.tla), has the driver
    perform them on the real library, and lets TLC check what was observed
    against the specification (Trace.tla; Par.tla and WordLists.tla for C18
    and C21).

Exit 0: held. Exit 1 with a VIOLATION line: broken, on the real code. Exit 2:
the check could not do its work.
"""
import json, os, random, re, shutil, subprocess, sys, threading, time
import sweep
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

ALL = ["hex", "badhex", "wif", "net", "arith", "pub", "addr", "pubadd", "badpub",
       "mnem", "seed", "badseed", "rngkey", "rngmnem", "bare", "alias", "mutable", "long",
       "points", "hold", "huge", "words", "mwords", "prefix", "wipe", "dict",
       "twkeys", "twpubs", "twseeds"]
SUITES = {
    "C01": ["hex", "net", "mutable", "long", "dict"], "C02": ["hex", "wif", "net", "arith", "long", "dict", "twkeys"], "C03": ["wif", "hex", "long", "dict", "twkeys"],
    "C04": ["net", "hex", "wif", "mutable", "dict"], "C05": ["badhex", "wif", "hex", "dict", "twkeys"], "C06": ["rngkey"],
    "C07": ["arith", "net", "bare", "long", "dict"], "C08": ["pub", "pubadd", "bare", "alias", "points", "dict"], "C09": ["pubadd", "net", "bare", "long", "points", "dict"],
    "C10": ["pub", "pubadd", "addr", "badpub", "long", "points", "dict", "twpubs"], "C11": ["badpub", "pub", "points", "dict", "twpubs"], "C12": ["addr", "pub", "mutable", "long", "points", "dict"],
    "C13": ["mnem", "rngmnem", "mutable", "mwords"], "C14": ["seed", "badseed", "mnem", "mutable", "words", "prefix", "dict", "twseeds"], "C15": ["seed", "mnem", "mutable", "long", "prefix", "wipe", "dict", "twseeds"],
    "C16": ["rngmnem"], "C17": ALL, "C18": ["par"], "C19": ALL, "C20": ALL, "C21": [],
    "ALL": ALL,
}
# calls that the property speaks about: a run in which they do not occur decides nothing
ABOUT = {
    "C01": {"ImportHex"}, "C02": {"ImportHex", "ImportWif"}, "C03": {"CheckWif", "ImportWif"},
    "C04": {"ImportWif", "AddPriv", "AddPub", "GetPub", "Addr"}, "C05": {"ImportHex", "ImportWif"},
    "C06": {"Gen", "Sens", "Bits"}, "C07": {"AddPriv", "MulPriv"}, "C08": {"GetPub"}, "C09": {"AddPub", "Homo"},
    "C10": {"Format", "ImportPub"}, "C11": {"ImportPub"}, "C12": {"Addr"}, "C13": {"Mnem"}, "C14": {"Seed"},
    "C15": {"Seed"}, "C16": {"Mnem", "Sens", "Bits"},
}
EVERY = {"CheckWif", "ImportWif", "ImportHex", "Gen", "AddPriv", "MulPriv", "GetPub", "ImportPub", "AddPub",
         "Format", "Addr", "Mnem", "Seed"}
for _p in ("C17", "C19", "C20", "ALL"):
    ABOUT[_p] = EVERY


class Trouble(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "build", "%s-%s" % (prop, tier))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.mc = []            # model checking runs
        self.rejects = []       # (history, event index, properties)
        self.known = []
        self.events = 0
        self.histories = 0
        self.opcount = {}
        self.samples = []
        self.distinct = 0
        self.seed = SEED
        self.swept = None
        self.proved = []

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def env(self, **kw):
        e = dict(os.environ)
        e["VERIF_DATA"] = os.path.join(VERIF, "data")
        e["VERIF_SEED"] = str(SEED)
        e["VERIF_SCALE"] = "1" if self.tier == "quick" else "6"
        e.update(kw)
        return e

    # ---- building -------------------------------------------------------
    def build(self, race=False):
        os.makedirs(self.path("java"))
        js = sorted(os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java"))
        self.must(["javac", "-nowarn", "-d", self.path("java"), "-cp", JARS] + js, "javac")
        self.driver = self.go("driver", False)
        self.dictionary()
        if race:
            self.racer = self.go("racer", True)

    def go(self, name, race):
        """builds the driver as a package of the repository's module, leaving /repo alone"""
        mod = self.path("mod")
        os.makedirs(mod, exist_ok=True)
        for f in ("go.mod", "go.sum"):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), mod)
        overlay = self.path("overlay.json")
        with open(overlay, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, "zz_verif", g): os.path.join(VERIF, "driver", g) for g in ("main.go", "sweep.go", "dict.go", "early/early.go")}}, f)
        out = self.path(name)
        cmd = "source /opt/vp/env.sh && cd %s && go build %s -modfile=%s/go.mod -overlay %s -o %s ./zz_verif" % (
            REPO, "-race" if race else "", mod, overlay, out)
        self.must(["bash", "-c", cmd], "go build")
        return out

    def dictionary(self):
        """the constants of the library's source, as many as the tier has time for"""
        f = self.path("dict.json")
        self.must([self.driver, "dict", REPO, os.path.join(VERIF, "data", "wordlists.json"), f], "dict")
        with open(f) as h:
            d = json.load(h)
        rnd = random.Random(SEED)
        more = 1 if self.tier == "quick" else 6
        for k, n in (("texts", 60), ("nums", 40), ("ints", 40)):
            v = d[k]
            if len(v) > n * more:
                # texts without a space first: messages are rarely what a value is compared with
                v = sorted(rnd.sample(v, len(v)), key=lambda t: k == "texts" and "20" in re.findall("..", t))[:n * more]
            d[k] = v
        self.names = d.pop("names")
        with open(f, "w") as h:
            json.dump(d, h)

    def switches(self, on):
        """environment variables that the library names, set for some of the driver's processes"""
        return {n: "1" for n in self.names if n not in os.environ} if on else {}

    def must(self, cmd, what, **kw):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
        if r.returncode != 0:
            raise Trouble("%s failed:\n%s" % (what, r.stdout.decode(errors="replace")[-4000:]))
        return r.stdout.decode(errors="replace")

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg=None, args=(), env=None, name=None, mem="3g", workers="8", timeout=800, overrides=True):
        name = name or module
        meta = self.path("meta-" + name)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
               "-DTLA-Library=" + os.path.join(VERIF, "spec")]
        if overrides:
            cmd.append("-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VerifOverrides")
        cmd += ["-cp", JARS + (":" + self.path("java") if overrides else ""), "tlc2.TLC", "-workers", workers,
                "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(VERIF, "spec", (cfg or module) + ".cfg")]
        cmd += list(args) + [os.path.join(VERIF, "spec", module + ".tla")]
        t = time.time()
        logf = self.path(name + ".log")
        with open(logf, "wb") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env or self.env(), cwd=self.dir, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise Trouble("TLC on %s took more than %d s" % (name, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        with open(logf, errors="replace") as f:
            out = f.read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        return {"rc": rc, "out": out, "name": name, "wall": time.time() - t,
                "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0}

    def selftest(self):
        with open(self.path("none.ndjson"), "w") as f:
            json.dump({"kind": "priv", "from": 0, "n": 1, "sum": ""}, f)
        r = self.tlc("SelfTest", env=self.env(VERIF_SWEEP=self.path("none.ndjson")))
        if r["rc"] != 0 or "Model checking completed" not in r["out"]:
            raise Trouble("an evaluator disagrees with its definition:\n" + r["out"][-3000:])
        self.mc.append({"model": "SelfTest", "states": r["distinct"], "transitions": r["generated"], "wall_s": round(r["wall"], 1)})
        log("the evaluators agree with the definitions, %.1f s" % r["wall"])

    def proofs(self):
        """theorems about the specification without bounds, see spec/proofs"""
        for name in PROOFS.get(self.prop, []):
            t = time.time()
            for src in ("proofs/" + name, "Conc", "Heap", "Rng"):
                shutil.copy(os.path.join(VERIF, "spec", src + ".tla"), self.dir)
            for stretch in ("2", "10"):
                p = subprocess.run(["tlapm", "--cleanfp", "--threads", "4", "--stretch", stretch, name + ".tla"], cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1200)
                m = re.search(r"All (\d+) obligations? proved", p.stdout)
                if p.returncode == 0 and m:
                    break
            else:
                raise Trouble("a theorem of %s is not proved:\n%s" % (name, p.stdout[-3000:]))
            self.proved.append({"module": name, "obligations": int(m.group(1)), "wall_s": round(time.time() - t, 1)})
            log("proved %s: %s obligations, %.1f s" % (name, m.group(1), time.time() - t))

    def models(self):
        if self.tier == "thorough":
            self.selftest()
            self.proofs()
        for name in MODELS.get(self.prop, []) + (DEEPER.get(self.prop, []) if self.tier == "thorough" else []):
            module = next(m for p, m in MODULE if name.startswith(p))
            r = self.tlc(module, name, name="mc-" + name, workers="4" if self.tier == "quick" else "8", mem="3g" if self.tier == "quick" else "8g")
            if name in SHOWS:
                # the model of what must not be done: TLC has to find the run that goes wrong
                if r["rc"] != 12 or "Invariant %s is violated" % SHOWS[name] not in r["out"]:
                    raise Trouble("the model %s does not show the failure of %s:\n%s" % (name, SHOWS[name], r["out"][-4000:]))
            elif r["rc"] != 0 or "Model checking completed" not in r["out"]:
                raise Trouble("the model %s does not have its properties:\n%s" % (name, r["out"][-4000:]))
            self.mc.append({"model": name, "states": r["distinct"], "transitions": r["generated"], "wall_s": round(r["wall"], 1)})
            log("model %s: %d distinct states, %d transitions, %.1f s" % (name, r["distinct"], r["generated"], r["wall"]))

    # ---- histories --------------------------------------------------------
    def generate(self, suites):
        def one(i):
            f = self.path("suites%d.json" % i)
            with open(f, "w") as h:
                json.dump(groups[i], h)
            ops = self.path("ops%d.ndjson" % i)
            r = self.tlc("Gen", name="gen%d" % i, env=self.env(VERIF_SUITES=f, VERIF_OPS=ops, VERIF_DICT=self.path("dict.json")), workers="1")
            if r["rc"] != 0 or not os.path.exists(ops):
                raise Trouble("generation failed:\n" + r["out"][-3000:])
            with open(ops) as h:
                return h.read().splitlines()
        n = min(4, len(suites))
        groups = [suites[i::n] for i in range(n)]
        with ThreadPoolExecutor(n) as ex:
            parts = list(ex.map(one, range(n)))
        return [l for p in parts for l in p]

    def walks(self):
        ops = self.path("walk")
        quick = self.tier == "quick"
        n = (60 if quick else 600) if self.prop == "C17" else (24 if quick else 200)
        r = self.tlc("Walk", env=self.env(VERIF_OPS=ops, VERIF_WALKS=str(n), VERIF_SOLO="1" if self.prop == "C17" else "0"), workers="4", mem="4g")
        if r["rc"] != 0 or "Model checking completed" not in r["out"]:
            raise Trouble("the walks failed:\n" + r["out"][-3000:])
        self.mc.append({"model": "Walk", "states": r["distinct"], "transitions": r["generated"], "wall_s": round(r["wall"], 1)})
        lines = []
        for i in range(1, n + 1):
            with open("%s.%d" % (ops, i)) as f:
                lines += f.read().splitlines()
        return lines

    # ---- the driver --------------------------------------------------------
    def drive(self, lines, shards=8):
        """performs the histories; gives for each the list of observations"""
        ops = self.path("ops.ndjson")
        with open(ops, "w") as f:
            f.write("\n".join(lines) + "\n")
        hist = [json.loads(l) for l in lines]
        shards = max(1, min(shards, len(hist)))
        with ThreadPoolExecutor(shards) as ex:
            obs = list(ex.map(lambda s: self.shard(ops, hist, s, shards), range(shards)))
        res = [[] for _ in hist]
        for part in obs:
            for h, e, r in part:
                if e != len(res[h]):
                    raise Trouble("observations out of order")
                res[h].append(r)
        return hist, res

    def shard(self, ops, hist, s, n):
        mine = [i for i in range(len(hist)) if i % n == s]
        out, start, deaths, hangs = [], 0, 0, 0
        while True:
            patience = STUCK if hangs == 0 else STUCK / 6
            part, end = self.attempt(ops, hist, mine, s, n, start, patience)
            if end is not None and deaths < 3:      # does it happen again?
                part2, end2 = self.attempt(ops, hist, mine, s, n, start, patience)
                if end2 is None or end2[:3] != end[:3]:
                    part, end = part2, end2
            out += part
            if end is None:
                return out
            h, e, how, io = end
            deaths += 1
            out.append((h, e, {"o": how, "has": False, "io": io, "chg": []}))
            start = h + 1
            hangs += how == "hang"
            if deaths > 25 or hangs > 2:
                return out

    def attempt(self, ops, hist, mine, s, n, start, patience):
        """one driver process; gives what it observed and, if it did not finish, where and how it ended"""
        self.seq = getattr(self, "seq", 0)
        with lock:
            self.seq += 1
            k = self.seq
        out = self.path("obs-%d-%d.ndjson" % (s, k))
        errf = self.path("driver-error")
        home = self.path("home-%d-%d" % (s, k))
        os.makedirs(home)
        watch = self.watch(out + ".sys")
        extra = self.switches(s % 2 == 1)
        extra.update(SURROUNDINGS.get(s, {}))
        if watch:
            extra["VERIF_MARKS"] = "1"
        p = subprocess.Popen(watch + [self.driver, "run", ops, str(s), str(n), str(start), out], stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=self.env(VERIF_DRIVER_ERR=errf, HOME=home, TMPDIR=home, **extra), cwd=home)
        size, since, how = -1, time.time(), None
        while p.poll() is None:
            time.sleep(0.02)
            z = os.path.getsize(out) if os.path.exists(out) else 0
            if z != size:
                size, since = z, time.time()
            elif time.time() - since > patience:
                p.kill()
                p.wait()
                how = "hang"
        if how is None and p.returncode != 0:
            how = "died"
            if p.returncode == 97:
                raise Trouble("driver: " + open(errf).read())
        part, w = [], 0
        acts = self.acts(out + ".sys", home) if watch else {}
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                for l in f:
                    if not l.endswith("\n"):
                        break
                    v = json.loads(l)
                    v["r"]["io"] += acts.get((v["h"], v["e"]), 0)
                    part.append((v["h"], v["e"], v["r"]))
                    w = v["w"]
        if how is None:
            return part, None
        if part:
            h, e = part[-1][0], part[-1][1] + 1
            if e == len(hist[h]["ops"]):
                rest = [i for i in mine if i > h]
                h, e = (rest[0], 0) if rest else (None, 0)
        else:
            rest = [i for i in mine if i >= start]
            h, e = (rest[0], 0) if rest else (None, 0)
        if h is None:
            raise Trouble("the driver failed after its last call")
        with open(out + ".cap", "rb") as f:
            f.seek(w)
            said = f.read()
        io = 0 if re.match(rb"(panic|fatal error|runtime|SIG|signal|unexpected|$)", said) else len(said)
        return part, (h, e, how, io)

    # what a call does with files, other processes and connections, for C19
    CALLS = ["open", "openat", "openat2", "creat", "mkdir", "mkdirat", "rename", "renameat", "renameat2", "unlink", "unlinkat", "link", "linkat",
             "symlink", "symlinkat", "truncate", "connect", "sendto", "execve", "access", "faccessat", "faccessat2"]

    def watch(self, log):
        """the command that records the driver's system calls, if there is one"""
        if self.prop not in ("C19", "ALL"):
            return []
        cmd = ["strace", "-D", "-f", "-qq", "-s", "4096", "--seccomp-bpf", "-e", "trace=" + ",".join("?" + c for c in self.CALLS), "-e", "signal=none", "-o"]
        with lock:
            if not hasattr(self, "watches"):
                try:
                    t = self.path("strace-test")
                    self.watches = subprocess.run(cmd + [t, "/bin/sh", "-c", ": > /dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 0
                    for _ in range(50):
                        if not self.watches or "/dev/null" in open(t).read():
                            break
                        time.sleep(0.1)
                    else:
                        self.watches = False
                except (OSError, subprocess.SubprocessError):
                    self.watches = False
                log_ = "system calls are %srecorded" % ("" if self.watches else "not ")
                globals()["log"](log_)
        return cmd + [log] if self.watches else []

    def acts(self, file, home):
        """(history, event) -> number of files opened for writing, changed, and so on; the driver's own are those of its own folder"""
        for _ in range(100):            # the recorder may need a moment to finish
            z = os.path.getsize(file) if os.path.exists(file) else -1
            time.sleep(0.05)
            if z >= 0 and z == os.path.getsize(file):
                break
        found, at = {}, None
        if not os.path.exists(file):
            return found
        with open(file, errors="replace") as f:
            for l in f:
                m = re.search(r'access(?:at2?)?\((?:AT_FDCWD, )?"/!/(\d+)/(\d+)"', l)
                if m:
                    at = (int(m.group(1)), int(m.group(2)))
                    continue
                if at is None or "access" in l.split("(")[0] or (" = -1 ENOENT" in l and " connect(" not in l):
                    continue
                call = re.match(r"\d+ +(\w+)\(", l)
                if not call:
                    continue
                if call.group(1).startswith("open") and not re.search(r"O_WRONLY|O_RDWR|O_CREAT", l):
                    continue
                names = re.findall(r'"((?:[^"\\]|\\.)*)"', l)
                if names and (names[0] in ("/dev/null", "/proc/self/exe") or (names[0].startswith(self.dir + "/") and not names[0].startswith(home))):
                    continue
                found[at] = found.get(at, 0) + 1
        return found

    # ---- checking observations ------------------------------------------------
    def trace(self, hist, res, name="Trace", base=0):
        f = self.path(name + ".ndjson")
        index = []
        expect = 0
        with open(f, "w") as out:
            for i, h in enumerate(hist):
                ev = []
                for op, r in zip(h["ops"], res[i]):
                    e = {k: v for k, v in op.items() if k not in ("rng",)}
                    e.update(r)
                    e.pop("msg", None)
                    ev.append(e)
                if not ev:
                    continue
                index.append(base + i)
                expect += len(ev) + 1
                out.write(json.dumps({"id": h["id"], "ev": ev}) + "\n")
        r = self.tlc("Trace", env=self.env(VERIF_TRACE=f, VERIF_FOCUS=self.prop), mem="8g", name=name)
        if r["rc"] != 0 or "Model checking completed" not in r["out"]:
            raise Trouble("checking the trace failed:\n" + r["out"][-3000:])
        if r["distinct"] != expect:
            raise Trouble("the trace was not consumed: %d states for %d" % (r["distinct"], expect))
        log("trace: %d histories, %d events, %.1f s" % (len(index), expect - len(index), r["wall"]))
        for kind, a, b, ps in re.findall(r'<<"(REJECT|KNOWN)", (\d+), (\d+), \{([^}]*)\}>>', r["out"]):
            item = (index[int(a) - 1], int(b) - 1, sorted(re.findall(r"C\d\d", ps)))
            (self.rejects if kind == "REJECT" else self.known).append(item)
        return r


lock = threading.Lock()
# what a process of the driver finds around it may not matter: one processor, frequent collections, other locale and zone
SURROUNDINGS = {2: {"GOMAXPROCS": "1"}, 4: {"GOGC": "2"}, 6: {"LANG": "ja_JP.UTF-8", "LC_ALL": "tr_TR.UTF-8", "TZ": "Asia/Kathmandu"}}
STUCK = 60
# The specification's own statement of a property, on a small instance that TLC explores completely
# (configurations spec/NAME.cfg of the modules below), and deeper ones for the thorough tier.
MODULE = [("Toy", "Toy"), ("Texts", "ToyTexts"), ("Ladder", "Ladder"), ("Conc", "Conc"), ("Rng", "Rng"), ("Heap", "Heap")]
MODELS = {
    "C01": ["ToyPriv"], "C02": ["ToyPriv", "TextsHex"], "C03": ["TextsWif1"], "C04": ["ToyPriv"],
    "C05": ["TextsHex", "TextsWif1"], "C06": ["Rng", "RngFirst", "RngLast"], "C07": ["ToyPriv"],
    "C08": ["Ladder13", "LadderReal", "LadderPlain"], "C09": ["ToyPub", "ToyBoth"], "C10": ["ToyPub", "TextsPub"],
    "C11": ["TextsPub"], "C12": ["ToyPub"], "C13": ["TextsPhrase5"], "C14": ["TextsPhrase5"], "C15": ["TextsPhrase5"],
    "C16": ["Rng"], "C17": ["Heap", "HeapShared", "ToyBoth"], "C18": ["Conc", "ConcShared", "ConcRace"], "C19": ["ToyBoth"], "C20": ["ToyBoth", "LadderReal"],
}
DEEPER = {
    "C01": ["ToyPriv4", "ToyPriv31"], "C02": ["ToyPriv4", "TextsHex4", "TextsWif1"], "C03": ["TextsWif"], "C04": ["ToyPriv4", "ToyPriv7"],
    "C05": ["TextsHex4", "TextsWif"], "C07": ["ToyPriv4", "ToyPriv31"], "C08": ["Ladder7", "Ladder43", "Ladder199", "LadderPlainReal"],
    "C09": ["ToyPub3"], "C10": ["ToyPub43", "TextsPub43"], "C11": ["TextsPub43"], "C12": ["ToyPub43"],
    "C13": ["TextsPhrase"], "C14": ["TextsPhrase7"], "C15": ["TextsPhrase"], "C17": ["ToyPriv4"], "C18": ["Conc3"],
}
PROOFS = {
    "C01": ["KeysProof", "RadixProof"], "C02": ["KeysProof", "RadixProof"], "C03": ["RadixProof"], "C04": ["KeysProof"], "C05": ["KeysProof"],
    "C07": ["KeysProof"], "C08": ["LadderProof"], "C09": ["LadderProof"], "C10": ["RadixProof", "CurveProof"], "C11": ["CurveProof"], "C12": ["RadixProof"], "C13": ["RadixProof", "PhraseProof"], "C14": ["RadixProof", "PhraseProof"],
    "C06": ["RngProof"], "C16": ["RngProof"], "C17": ["HeapProof"], "C18": ["ConcProof"],
}
SHOWS = {"LadderPlain": "Alive", "LadderPlainReal": "Alive", "ConcShared": "Same", "ConcRace": "NoRace", "RngFirst": "Never", "RngLast": "Never", "HeapShared": "Refines"}


def count(run, hist, res, complete=True):
    seen = set()
    for h, rs in zip(hist, res):
        if not rs:
            continue
        run.histories += 1
        for op, r in zip(h["ops"], rs):
            if r["o"] == "skip":
                continue
            run.events += 1
            run.opcount[op["op"]] = run.opcount.get(op["op"], 0) + 1
            if op["op"] in ABOUT[run.prop]:
                seen.add(json.dumps([{k: v for k, v in op.items() if k not in ("h", "ctl")}, r.get("t"), r["o"], r.get("r"), r.get("txt")], sort_keys=True))
    run.distinct = len(seen)
    for op in ABOUT[run.prop] if complete else ():
        if run.opcount.get(op, 0) == 0 and not run.rejects:
            raise Trouble("no call of %s was observed" % op)



# ---- C18: concurrent histories -------------------------------------------------
MIRRORED = ["hex", "badhex", "wif", "net", "arith", "pub", "pubadd", "badpub", "addr", "points", "mnem", "seed", "badseed", "prefix", "bare"]


def mirrors(run, lines):
    """sequential histories for several threads at the same time: every thread performs all of them, in another order,
    without what depends on the random source"""
    kinds = {}
    for l in lines:
        h = json.loads(l)
        kinds.setdefault(re.sub(r"[\d.\-]+$", "", h["id"]), []).append(h)
    picked = []
    for k, hs in sorted(kinds.items()):
        n = 6 if run.tier == "quick" else 24
        step = max(1, len(hs) // n)
        for h in hs[SEED % step::step][:n]:
            taint, keep = set(), []
            for op in h["ops"]:
                pub = op["op"] in ("GetPub", "ImportPub", "AddPub", "PubLit")
                uses = {("u" if op["op"] in ("AddPub", "Format", "Addr") else "p", op[f]) for f in ("a", "b") if f in op}
                if "tr" in op:
                    uses.add(({"wif": "p", "hex": "p", "phrase": "m"}.get(op["tr"]["f"], "u"), op["tr"]["h"]))
                to = ("u" if pub else "m" if op["op"] == "Mnem" else "p", op.get("h"))
                if op["op"] in ("Homo", "End", "Rekey", "RekeyPub", "Renum", "Ruin", "Sens", "Bits") or "rng" in op or uses & taint:
                    taint.add(to)
                    continue
                taint.discard(to)
                if op["op"] in ("Gen", "Mnem"):
                    taint.add(to)
                op = dict(op)
                op.pop("ctl", None)
                keep.append(op)
            if keep:
                picked.append(keep[:12])
    per = 8
    out = []
    for i in range(0, len(picked), per):
        group = picked[i:i + per]
        par = [[op for h in group[t * 2 % len(group):] + group[:t * 2 % len(group)] for op in h] for t in range(4)]
        out.append(json.dumps({"id": "mirror%d" % (i // per), "ops": [], "par": par, "reps": 1}))
    return out


def concurrent(run, lines, single=False):
    ops = run.path("par.ndjson")
    with open(ops, "w") as f:
        f.write("\n".join(lines) + "\n")
    hist = [json.loads(l) for l in lines]

    hung = []

    def once(exe, i, mode, ms, tag):
        for attempt in range(3):
            if len(hung) > 3:
                return None, ""       # that is enough
            base = run.path("par-%d-%s-%d" % (i, tag, attempt))
            env = run.env(VERIF_DRIVER_ERR=run.path("driver-error"),
                          GORACE="log_path=%s.race halt_on_error=0 exitcode=0 atexit_sleep_ms=10 history_size=4" % base)
            with open(base + ".err", "wb") as err:
                p = subprocess.Popen([exe, "par", ops, str(i), mode, str(ms), base + ".out"], stdin=subprocess.DEVNULL,
                                     stdout=err, stderr=err, env=env, cwd=run.dir)
                try:
                    rc = p.wait(timeout=STUCK + 40 if not hung else STUCK)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc = "hang"
            if rc == 97:
                raise Trouble("driver: " + open(run.path("driver-error")).read())
            races, text = 0, ""
            for f in os.listdir(run.dir):
                if f.startswith(os.path.basename(base) + ".race"):
                    t = open(run.path(f), errors="replace").read()
                    races += t.count("WARNING: DATA RACE")
                    text += t
            said = open(base + ".err", errors="replace").read()
            r = {"kind": tag, "races": races, "ended": "well", "res": [], "chg": []}
            if rc == 0:
                v = json.load(open(base + ".out"))
                r["res"], r["chg"] = v["res"], v["chg"]
                return r, text
            r["ended"] = "hang" if rc == "hang" else "died"
            if rc == "hang" and attempt == 1:
                hung.append(i)
                return r, text + said
            if rc != "hang" and ("fatal error:" in said or "panic:" in said or rc > 0):
                return r, text + said
            if attempt == 2:
                return r, text + said
        raise Trouble("unreachable")

    def all_runs(i):
        seq, said = once(run.driver, i, "seq", 0, "seq")
        if seq is None or seq["ended"] != "well":
            return None, said        # not a matter of concurrency
        runs = [once(run.racer, i, "par", 200 if run.tier == "quick" else 1500, "race")]
        for k in range(1 if run.tier == "quick" else 3):
            runs.append(once(run.driver, i, "par", 400 if run.tier == "quick" else 2500, "plain%d" % k))
        return {"id": hist[i]["id"], "par": hist[i]["par"], "seq": seq["res"], "seqchg": seq["chg"], "runs": [r for r, _ in runs if r]}, "".join(t for _, t in runs)

    with ThreadPoolExecutor(4) as ex:
        done = list(ex.map(all_runs, range(len(hist))))
    f = run.path("par-trace.ndjson")
    index, calls, n = [], 0, 0
    with open(f, "w") as out:
        for i, (h, _) in enumerate(done):
            if h is None:
                continue
            index.append(i)
            n += 1 + len(h["runs"])
            for op in [o for t in h["par"] for o in t]:
                run.opcount[op["op"]] = run.opcount.get(op["op"], 0) + 1
            calls += sum(len(c) for r in h["runs"] for t in r["res"] for c in t)
            out.write(json.dumps(h) + "\n")
    if len(index) * 2 < len(hist) and not hung:
        raise Trouble("most histories end the process without concurrency")
    r = run.tlc("Par", env=run.env(VERIF_TRACE=f), mem="8g")
    if r["rc"] != 0 or r["distinct"] != n:
        raise Trouble("checking concurrent histories failed:\n" + r["out"][-3000:])
    for kind, a, b, ps in re.findall(r'<<"(REJECT)", (\d+), (\d+), \{([^}]*)\}>>', r["out"]):
        i = index[int(a) - 1]
        run.rejects.append((i, int(b) - 1, ["C18"]))
    run.histories, run.events = len(index), n - len(index)
    run.distinct = len({json.dumps(h["par"], sort_keys=True) for h, _ in done if h})
    run.trace_states = r["distinct"]
    run.samples = [{"history": hist[index[0]]["id"], "threads": hist[index[0]]["par"], "observations": calls}]
    log("concurrent: %d histories, %d runs, %d different observations, %.1f s" % (len(index), run.events, calls, time.time() - run.t0))
    if not single:
        s = run.swept = sweep.crowd(run, Trouble, STUCK)
        run.trace_states += s.states
        log("threads in long runs: %d items in %d blocks, %d of them different, %.1f s" % (s.items, s.blocks, s.different, time.time() - run.t0))
        run.rejects += [(None, x, ["C18"]) for x in s.found]
    return lambda k: run.rejects[k][1] if run.rejects[k][0] is None else {"history": hist[run.rejects[k][0]], "observed": done[run.rejects[k][0]][0]["runs"][run.rejects[k][1]],
                      "alone": done[run.rejects[k][0]][0]["seq"], "text": done[run.rejects[k][0]][1][:20000]}


# ---- C21: word lists --------------------------------------------------------------
def word_lists(run):
    f = run.path("lists.json")
    run.must([run.driver, "lists", f, "60" if run.tier == "thorough" else "8"], "driver")
    r = run.tlc("WordLists", env=run.env(VERIF_TRACE=f))
    snaps = json.load(open(f))
    if r["rc"] != 0 or len(snaps) != 11 or r["distinct"] < 9 * 2050 * len(snaps):
        raise Trouble("checking the word lists failed:\n" + r["out"][-3000:])
    bad = re.findall(r'<<"REJECT", (\d+), "(\w+)", (\d+), \{"C21"\}>>', r["out"])
    for s, n, i in bad:
        run.rejects.append((n, int(i), ["C21"]))
    names = snaps[0]["lists"]
    run.histories, run.events = len(snaps), sum(len(v) for s in snaps for v in s["lists"].values())
    run.distinct = len({w for s in snaps for v in s["lists"].values() for w in v})
    run.trace_states = r["distinct"]
    run.samples = [{"list": n, "words": len(v), "first": bytes.fromhex(v[0]).decode(errors="replace") if v else None} for n, v in sorted(names.items())]

    def show(k):
        s, n, i = int(bad[k][0]) - 1, bad[k][1], int(bad[k][2])
        return {"list": n, "position": i, "when": snaps[s]["when"], "observed": (snaps[s]["lists"].get(n) or [])[max(i - 1, 0):i]}
    return show


# ---- histories checked by Trace.tla -------------------------------------------------
def sequential(run, replay=None):
    if replay:
        lines = [json.dumps(replay)]
    else:
        pool = ThreadPoolExecutor(3)
        a, b = pool.submit(run.generate, SUITES[run.prop]), pool.submit(run.walks)
        c = pool.submit(sweep.go, run, Trouble, STUCK)
        lines = b.result() + a.result()
    log("generated %d histories, %.1f s" % (len(lines), time.time() - run.t0))
    hist, res = run.drive(lines)
    log("performed, %.1f s" % (time.time() - run.t0))
    r = run.trace(hist, res)
    count(run, hist, res, replay is None)
    run.trace_states = r["distinct"]
    if not replay:
        s = run.swept = c.result()
        if s.items:
            log("long runs: %d items in %d blocks, %d of them different, %.1f s" % (s.items, s.blocks, s.different, time.time() - run.t0))
        if s.hist:
            run.trace_states += run.trace(s.hist, s.res, "TraceSweep", len(hist))["distinct"]
            hist, res = hist + s.hist, res + s.res
    run.samples = []
    for h, rs in list(zip(hist, res))[:: max(1, len(hist) // 3)][:3]:
        run.samples.append({"history": h["id"], "calls": [{"call": op, "observed": {k: v for k, v in o.items() if k in ("o", "r", "txt", "b", "t")}}
                                                          for op, o in list(zip(h["ops"], rs))[:3]]})

    def detail(k):
        h, e, ps = run.rejects[k]
        return {"history": hist[h], "event": e, "call": hist[h]["ops"][e], "observed": res[h][e], "before": res[h][:e]}
    return detail


def findings():
    """entries of the known-findings file: property -> description"""
    known = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(C\d\d) (.*)", l)
            if m:
                known.setdefault(m.group(1), []).append(m.group(2).strip())
    return known


def decide(prop, tier, replay=None):
    run = Run(prop, tier)
    run.trace_states = 0
    run.build(race=prop == "C18")
    log("built, %.1f s" % (time.time() - run.t0))
    models = ThreadPoolExecutor(1).submit(lambda: None if replay else run.models())
    if tier == "thorough" or prop == "C18":
        models.result()
    if prop == "C21":
        detail = word_lists(run)
    elif prop == "C18":
        detail = concurrent(run, [json.dumps(replay)], True) if replay else concurrent(run, run.generate(SUITES[prop]) + mirrors(run, run.generate(MIRRORED)))
    else:
        detail = sequential(run, replay)
    models.result()
    known = findings()
    if run.known:
        if prop in known:
            for d in known[prop]:
                log("KNOWN-FINDING: property=%s %s (%d events of this run)" % (prop, d, len(run.known)))
        else:
            run.rejects += run.known
    cov = {
        "states": sum(m["states"] for m in run.mc) + run.trace_states,
        "transitions": sum(m["transitions"] for m in run.mc) + run.events,
        "traces_validated_against_impl": run.histories,
        "events_validated": run.events,
        "distinct_calls_about_the_property": run.distinct,
        "calls": run.opcount,
        "models": run.mc,
        "proofs": run.proved,
        "suites": SUITES[prop] + (MIRRORED if prop == "C18" else []),
        "known_finding_events": len(run.known),
        "long_runs": {"items": run.swept.kinds, "blocks": run.swept.blocks, "blocks_that_differ": run.swept.different} if run.swept else {},
        "samples": run.samples,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
                   "assumptions": ["the java evaluators of the specification agree with its definitions (SelfTest.tla)"],
                   "wall_s": round(time.time() - run.t0, 2), "violations": len(run.rejects)}, f, indent=1)
    if run.rejects:
        rep = os.path.join(VERIF, "build", "replay")
        os.makedirs(rep, exist_ok=True)
        f = os.path.join(rep, "%s-%s-%d.json" % (prop, tier, SEED))
        d = detail(0)
        d.update({"property": prop, "seed": SEED, "tier": tier, "rejected": len(run.rejects),
                  "again": "VERIF_SEED=%d python3 check.py %s %s (all) or python3 check.py %s %s %s (this history)" % (SEED, prop, tier, prop, tier, f)})
        with open(f, "w") as h:
            json.dump(d, h, indent=1)
        log("%d events are not steps of the specification; first:" % len(run.rejects))
        log(json.dumps({k: d[k] for k in d if k in ("call", "observed", "list", "position", "event")})[:2000])
        log("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    log("held: %d histories, %d events, %.1f s" % (run.histories, run.events, time.time() - run.t0))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(run.dir, ignore_errors=True)
    return 0


def setup():
    """compiles, and shows that the evaluators agree with the definitions"""
    run = Run("setup", "quick")
    run.build()
    run.selftest()
    shutil.rmtree(run.dir, ignore_errors=True)


def main():
    prop = sys.argv[1]
    if prop == "setup":
        try:
            setup()
            sys.exit(0)
        except Trouble as t:
            log("TROUBLE: " + str(t))
            sys.exit(2)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    replay = json.load(open(sys.argv[3]))["history"] if len(sys.argv) > 3 else None
    try:
        sys.exit(decide(prop, tier, replay))
    except Trouble as t:
        log("TROUBLE: " + str(t))
        sys.exit(2)


if __name__ == "__main__":
    main()
