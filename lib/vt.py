"""Runner: builds the replay harness from /repo, replays behaviours, has TLC validate the
recorded traces against the TLA+ specification, model checks the specification, and writes
evidence.  Exit 0 / exit 1 + VIOLATION are the only outcomes; 2 is a failure of the check."""
import hashlib, importlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_java():
    src = sorted(os.path.join(ROOT, "java", f) for f in os.listdir(os.path.join(ROOT, "java")) if f.endswith(".java"))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    dst = os.path.join(BUILD, "java-" + h)
    if not os.path.isdir(dst):
        tmp = tempfile.mkdtemp(dir=BUILD)
        r = sh(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + src)
        if r.returncode:
            raise Broken("javac failed:\n" + r.stdout)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return dst


class Check:
    def __init__(self, prop, tier, seed):
        self.id, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="work-%s-" % prop, dir=BUILD)
        self.java = build_java()
        self.states = self.transitions = self.traces = self.events = 0
        self.ops = {}
        self.samples = []
        self.models = []
        self.mod = importlib.import_module("props." + prop)
        self.notes = []

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), workers=None, timeout=800, heap="8g", cwd=None):
        meta = tempfile.mkdtemp(dir=self.work)
        if not os.path.isabs(cfg):
            cfg = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
               "-DTLA-Library=" + SPEC, "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VTOverrides",
               "-cp", self.java + ":" + JARS, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
               "-workers", str(workers or NCPU), "-metadir", meta, "-config", cfg] + list(args) + [module + ".tla"]
        t0 = time.time()
        try:
            r = sh(cmd, cwd=cwd or SPEC, env=e, timeout=timeout)
            out, rc = re.sub(r"(?m)^(Loading|Parsing|Semantic) .*\n", "", r.stdout), r.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout.decode() if isinstance(x.stdout, bytes) else x.stdout or "") + "\nTIMEOUT", 124
        shutil.rmtree(meta, ignore_errors=True)
        if os.environ.get("VT_TIME"):
            print("   [%.1fs] tlc %s" % (time.time() - t0, module), flush=True)
        return rc, out

    @staticmethod
    def stats(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            m2 = re.findall(r"The number of states generated: (\d+)", out)
            return (int(m2[-1]), int(m2[-1])) if m2 else (0, 0)
        return int(m[-1][0]), int(m[-1][1])

    def model(self, module, cfg, args=(), env=None, timeout=800):
        """Model check the specification itself; a failure here is a failure of the check."""
        rc, out = self.tlc(module, cfg, env=env, args=args, timeout=timeout)
        if rc != 0 or ("No error has been found" not in out and "-simulate" not in args):
            raise Broken("model %s/%s: rc=%d\n%s" % (module, cfg, rc, out[-3000:]))
        g, d = self.stats(out)
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "config": cfg, "states": d, "transitions": g})
        return out

    def generate(self, module, cfg, args=(), env=None, timeout=800):
        """Have TLC explore a behaviour generator; returns the emitted traces (lists of commands).
        A line of the emitted file is one trace; commands are separated by ' ; '."""
        f = os.path.join(self.work, "gen-%s-%s.txt" % (module, cfg.replace("/", "_")))
        if os.path.exists(f):
            os.remove(f)
        ev = {"OUT": f}
        ev.update(env or {})
        out = self.model(module, cfg, args=args, env=ev, timeout=timeout)
        if not os.path.exists(f):
            raise Broken("generator %s/%s emitted nothing\n%s" % (module, cfg, out[-2000:]))
        traces = sorted(set(l.strip() for l in open(f) if l.strip()))
        return [[c.strip() for c in l.split(";") if c.strip()] for l in traces]

    # ---------------------------------------------------------------- harness
    def compile(self, src, flags, tag):
        exe = os.path.join(self.work, "h_" + tag)
        base = ["g++", "-std=c++14", "-fopenmp", "-w", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(ROOT, "harness")]
        cmd = base + list(flags) + [os.path.join(ROOT, "harness", src), "-o", exe]
        r = sh(cmd)
        if r.returncode:
            r = sh(cmd)     # once more, in case the machine was short of something
        if r.returncode:
            return None, r.stdout
        return exe, None

    def run_chunk(self, exe, traces, base):
        """Run the harness on traces; returns for each trace a list of event strings."""
        cf, ef = base + ".cmd", base + ".ev"
        with open(cf, "w") as f:
            for t in traces:
                f.write("\n".join(t) + "\n\n")
        if os.path.exists(ef):
            os.remove(ef)
        open(ef, "w").close()
        res, start, crashes = [], 0, 0
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0", OMP_NUM_THREADS=os.environ.get("OMP_NUM_THREADS", "2"), LC_ALL="C")
        env.update(getattr(self.mod, "ENV", {}))
        while True:
            try:
                p = subprocess.run(["bash", "-c", "ulimit -c 0; exec \"$0\" \"$@\"", exe, cf, ef, str(start)],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=600)
                rc, err = p.returncode, p.stderr.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                rc, err = -14, "timeout"
            res, cur = [], []
            for line in open(ef, encoding="utf8", errors="replace"):
                line = line.rstrip("\n")
                if line == "=":
                    res.append(cur)
                    cur = []
                elif line:
                    cur.append(line)
            if rc == 77:
                raise Broken("harness rejected a command: " + err[-500:])
            if len(res) >= len(traces):
                break
            # died inside trace len(res): the machine has no such step
            why = "hang" if rc in (-14, 142) else "crash"
            m = re.search(r"(AddressSanitizer: [\w-]+|runtime error: [^\n]*|Assertion [^\n]*|terminate called[^\n]*|what\(\)[^\n]*)", err)
            det = (m.group(1) if m else "signal %s" % rc)[:120].replace('"', "'").replace("\\", "/")
            tr = traces[len(res)]
            k = min(len(cur), len(tr) - 1)
            cur = [c for c in cur if c.endswith("}")]
            cur.append(json.dumps({"op": "!" + why, "detail": det, "cmd": tr[k][:200]}))
            with open(ef, "w") as f:
                for r0 in res:
                    f.write("\n".join(r0) + ("\n=\n" if r0 else "=\n"))
                f.write("\n".join(cur) + "\n=\n")
            res.append(cur)
            start = len(res)
            crashes += 12 if why == "hang" else 1
            if start >= len(traces):
                break
            if crashes > 40:
                for tr in traces[start:]:
                    res.append([])
                break
        return res[:len(traces)]

    def replay(self, exe, traces, tag):
        n = min(NCPU, max(1, len(traces) // 20))
        size = (len(traces) + n - 1) // n if traces else 0
        chunks = [traces[i:i + size] for i in range(0, len(traces), size)] if size else []
        out = []
        with ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(self.run_chunk, exe, c, os.path.join(self.work, "%s-%d" % (tag, i))) for i, c in enumerate(chunks)]
            for f in fs:
                out += f.result()
        return out

    def validate(self, module, events, tag):
        """TLC decides which traces are behaviours of the machine; returns {trace index: event index}."""
        if not events:
            return {}, ""
        f = os.path.join(self.work, "trace-%s.ndjson" % tag)
        with open(f, "w") as w:
            for t in events:
                w.write("[" + ",".join(t) + "]\n")
        expect = sum(len(t) + 1 for t in events)
        out = ""
        d = os.path.join(self.work, "tc-" + module)
        os.makedirs(d, exist_ok=True)
        tm = module + "Trace"
        with open(os.path.join(d, tm + ".tla"), "w") as w:
            w.write("---- MODULE %s ----\nEXTENDS %s, TraceCheck\n====\n" % (tm, module))
        cfg = os.path.join(d, tm + ".cfg")
        with open(cfg, "w") as w:
            w.write("CONSTANTS\n  Start <- %s\n  Accepts <- %s\n  After <- %s\nINIT TCInit\nNEXT TCNext\nCHECK_DEADLOCK FALSE\n" % getattr(self.mod, "MACHINE", ("M0", "MStep", "MNext")))
        for attempt in range(2):
            rc, out = self.tlc(tm, cfg, env={"TRACE": f}, cwd=d)
            if rc == 0 and "Model checking completed" in out:
                break
        else:
            raise Broken("TLC failed on %s (%s):\n%s" % (module, f, out[-3000:]))
        rej = {int(a) - 1: int(b) - 1 for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)}
        g, d = self.stats(out)
        lost = sum(len(events[i]) - p for i, p in rej.items())
        if d != expect - lost:
            raise Broken("TLC visited %d states, expected %d\n%s" % (d, expect - lost, out[-2000:]))
        self.states += d
        self.transitions += d - len(events)
        return rej, out

    # ---------------------------------------------------------------- campaign
    def campaign(self, traces, harness, module, flags, tag):
        """Replay traces through the harness built with flags and validate. Returns confirmed rejections."""
        exe, log = self.built[tag].result()
        if exe is None:
            rd = self.replay_file([["compile " + harness]], tag, extra=log)
            return [("compile", "the harness no longer compiles: " + log[-1500:], rd)]
        ev = self.replay(exe, traces, tag)
        rej, out = self.validate(module, ev, tag)
        self.traces += len(traces) - len(rej)
        for t in ev:
            for e in t:
                m = re.match(r'\{"op":\s?"([^"]*)"', e)
                if m:
                    self.ops[m.group(1)] = self.ops.get(m.group(1), 0) + 1
                self.events += 1
        step = max(1, len(ev) // 4)
        for i in range(0, len(ev), step):
            if ev[i] and len(self.samples) < 12:
                self.samples.append({"config": tag, "commands": traces[i][:6], "events": [x[:300] for x in ev[i][:6]]})
        if not rej:
            return []
        # a rejection counts only if a second run repeats it
        idx = sorted(rej)
        per = {}
        pick = []
        for i in idx:
            op = self.op_of(ev[i], rej[i])
            if per.get(op, 0) < 25:
                per[op] = per.get(op, 0) + 1
                pick.append(i)
        pick = pick[:400]
        ev2 = self.replay(exe, [traces[i] for i in pick], tag + "-again")
        rej2, out2 = self.validate(module, ev2, tag + "-again")
        res = []
        for k, i in enumerate(pick):
            if k in rej2:
                e = ev2[k][rej2[k]] if rej2[k] < len(ev2[k]) else "{}"
                res.append((i, e, traces[i], rej2[k]))
        if not res:
            self.notes.append("%d rejections not repeated" % len(pick))
        self.nrej = getattr(self, "nrej", 0) + len(rej)
        return res

    @staticmethod
    def op_of(evs, p):
        m = re.match(r'\{"op":\s?"([^"]*)"', evs[p]) if p < len(evs) else None
        return m.group(1) if m else "?"

    def replay_file(self, traces, tag, extra=""):
        d = os.path.join(ROOT, "replays", self.id)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.cmd" % tag)
        with open(p, "w") as f:
            for t in traces:
                f.write("\n".join(t) + "\n\n")
        if extra:
            open(p + ".log", "w").write(extra)
        return p

    def run(self):
        rng = random.Random("%s-%s-%s" % (self.id, self.seed, self.tier))
        m = self.mod
        findings = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k["property"] == self.id]
        todo = [c for c in m.CAMPAIGNS if c.get("tier", "quick") == "quick" or self.tier == "thorough"]
        pool = ThreadPoolExecutor(NCPU)
        self.built = {c["name"]: pool.submit(self.compile, c.get("harness", m.HARNESS), c.get("flags", ["-O1"]), c["name"]) for c in todo}
        for mc in getattr(m, "MODELS", []):
            if mc.get("tier", "quick") == "quick" or self.tier == "thorough":
                self.model(mc["module"], mc["cfg"], mc.get("args", ()))
        traces = m.traces(self, rng)      # {campaign name: list of traces}
        if self.tier == "quick":          # further samples where they are cheap
            seen = {k: set(map(tuple, v)) for k, v in traces.items()}
            for _ in range(getattr(m, "REPEAT", 8) - 1):
                for k, v in m.traces(self, rng).items():
                    for t in v:
                        if tuple(t) not in seen[k]:
                            seen[k].add(tuple(t))
                            traces[k].append(t)
        bad = []
        for c in todo:
            ts = traces[c.get("traces", "main")]
            if not ts:
                raise Broken("no traces for " + c["name"])
            for r in self.campaign(ts, c.get("harness", m.HARNESS), c.get("module", m.MODULE), c.get("flags", ["-O1"]), c["name"]):
                bad.append((c["name"], r))
        known, new = {}, []
        for cname, r in bad:
            if r[0] == "compile":
                new.append((cname, r))
                continue
            cmd = r[2][min(r[3], len(r[2]) - 1)]
            for k in findings:
                if re.search(k["cmd"], cmd) and (("event" not in k) or re.search(k["event"], r[1])):
                    known.setdefault(k["id"], (k, cmd))
                    break
            else:
                new.append((cname, r))
        for kid, (k, cmd) in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.id, kid, k["what"]))
        code = 0
        if new:
            code = 1
            if new[0][1][0] == "compile":
                path = new[0][1][2]
                print(new[0][1][1])
            else:
                path = self.replay_file([x[1][2] for x in new[:20] if x[1][0] != "compile"], new[0][0])
                for cname, r in new[:8]:
                    if r[0] == "compile":
                        continue
                    print("rejected [%s]: %s\n   event %s" % (cname, " ; ".join(r[2])[:400], r[1][:600]))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
        self.evidence(len(new))
        return code

    def evidence(self, nviol):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples, "events": self.events, "events_per_operation": self.ops, "models": self.models}
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": getattr(self.mod, "ASSUMPTIONS", []) + [
                  "the calls replayed are representative of the quantifier; the TLA+ definitions state the mathematics intended",
                  "java/Rat.java implements spec/Rat.tla (compared by TLC in RatSelfTest)"],
              "wall_s": round(time.time() - self.t0, 2), "violations": nviol}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", self.id + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2 and argv[2] in ("quick", "thorough"):
        tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    try:
        code = c.run()
        print("%s %s: %s  states=%d transitions=%d traces=%d events=%d  %.1fs" % (prop, tier, "ok" if code == 0 else "VIOLATED", c.states, c.transitions, c.traces, c.events, time.time() - c.t0))
    except Broken as e:
        print("CHECK FAILED: %s" % e)
        code = 2
    finally:
        if not os.environ.get("VT_KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(ROOT, "lib"))
    sys.exit(main(sys.argv))
