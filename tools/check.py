#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--stage NAME]

Decides one property on the current working tree of /repo:
 1. model stages: TLC checks the design specifications the property rests on,
 2. generation stages: TLC writes behaviours of a specification, which the driver replays,
 3. conformance stages: the driver (rebuilt against /repo, public API only) records what
    the code does, and TLC decides with the trace specification whether the
    specification allows it.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Anything else: the check failed."""
import sys, os, json, subprocess, tempfile, shutil, time, re, hashlib, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = os.environ.get("VERIF_REPO", "/repo")   # another working tree, for development
GOENV = dict(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
RX = {"states": re.compile(r"(\d+) states generated, (\d+) distinct states found, 0 states left"),
      "verdict": re.compile(r'<<"VERDICT", (\d+), (?:(\d+), )?\{([^}]*)\}>>')}

class Fail(Exception):
    pass

def sh(cmd, timeout=850, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait()
        raise Fail("timeout: " + " ".join(cmd[:6]))
    return p.returncode, out, err

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_judged=0, stages=[], samples=[])
        self.viol = []     # (description, payload)
        self.bins = {}

    def build(self, race=False):
        if race in self.bins: return self.bins[race]
        src = os.path.join(self.tmp, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(HERE, "harness"), src)
            # same dependencies as the tree under test
            shutil.copy(REPO + "/go.sum", src)
            req = re.findall(r"^\s*(?:require\s+)?(github\.com/\S+ v\S+)", open(REPO + "/go.mod").read(), re.M)
            with open(os.path.join(src, "go.mod"), "w") as f:
                f.write("module vharness\n\ngo 1.15\n\nrequire (\n\tgithub.com/hzw456/go-geo v0.0.0\n" + "".join("\t%s\n" % r for r in req) + ")\n\nreplace github.com/hzw456/go-geo => " + REPO + "\n")
        out = os.path.join(self.tmp, "driver_race" if race else "driver")
        rc, o, e = sh(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], env=GOENV, cwd=src)
        if rc: raise Fail("driver does not build against /repo:\n" + o + e)
        self.bins[race] = out
        return out

    def tlc(self, module, cfg, env=None, extra=(), timeout=850, workers=8, mem="6g"):
        d = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", d,
               "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
        rc, out, err = sh(cmd, timeout=timeout, env=env, cwd=os.path.join(HERE, "spec"))
        shutil.rmtree(d, ignore_errors=True)
        return rc, out + err

    # ---- a design specification, checked exhaustively within its bounds
    def model(self, st):
        t = time.time()
        for cfg, expect in st["cfgs"][self.tier]:
            rc, out = self.tlc(st["module"], cfg)
            m = None
            for m in RX["states"].finditer(out): pass
            if expect == "ok":
                if rc != 0 or not m: raise Fail("model %s/%s: TLC says\n%s" % (st["module"], cfg, out[-3000:]))
                self.cov["states"] += int(m.group(2)); self.cov["transitions"] += int(m.group(1))
                self.cov["stages"].append(dict(model=st["module"], cfg=cfg, distinct_states=int(m.group(2)), transitions=int(m.group(1)), wall_s=round(time.time() - t, 1)))
            else:  # a historical defect switched on: the model must reject it
                if ("Invariant %s is violated" % expect) not in out and ("property %s was violated" % expect) not in out and ("Action property %s is violated" % expect) not in out:
                    raise Fail("model %s/%s was expected to violate %s:\n%s" % (st["module"], cfg, expect, out[-2000:]))
                self.cov["stages"].append(dict(model=st["module"], cfg=cfg, rejects_seeded_design_defect=expect))

    # ---- behaviours of a specification, for the driver to replay
    def generate(self, st):
        g = st["gen"]
        out = ""
        if "bfs" in g:   # exhaustively: every state is one behaviour, and every law is checked on it
            for cfg in g["bfs"][self.tier]:
                rc, o = self.tlc(g["module"], cfg)
                m = None
                for m in RX["states"].finditer(o): pass
                if rc != 0 or not m: raise Fail("generator %s/%s: TLC says\n%s" % (g["module"], cfg, o[-3000:]))
                self.cov["states"] += int(m.group(2)); self.cov["transitions"] += int(m.group(1))
                out += o
        else:
            rc, out = self.tlc(g["module"], g["cfg"], extra=["-simulate", "num=%d" % g["num"][self.tier], "-depth", str(g["depth"]), "-seed", str(self.seed * 7919 + 13)], workers=1)
        beh = []
        for l in out.splitlines():
            if l.startswith('<<"BEHAVIOUR", "'):
                beh.append(json.loads(json.loads(l[len('<<"BEHAVIOUR", '):-2])))
        if not beh: raise Fail("no behaviours generated:\n" + out[-3000:])
        p = os.path.join(self.tmp, "plan_%s.nd" % st["suite"])
        with open(p, "w") as f:
            for b in beh: f.write(json.dumps(b) + "\n")
        self.cov["stages"].append(dict(generated_by=g["module"], behaviours=len(beh)))
        return p

    # ---- record the code, judge the recording
    def conform(self, st):
        t = time.time()
        race = st.get("race", False)
        drv = self.build(race)
        for rep in range(st.get("reps", {}).get(self.tier, 1)):
            trace = os.path.join(self.tmp, "%s_%d.nd" % (st["suite"], rep))
            cmd = [drv, "-suite", st["suite"], "-prop", self.prop, "-seed", str(self.seed * 1000003 + rep * 101 + 1), "-n", str(st["n"][self.tier]), "-out", trace]
            if "gen" in st: cmd += ["-plan", self.generate(st)]
            rc, out, err = sh(cmd, env=dict(GORACE="halt_on_error=0 exitcode=66", GOMAXPROCS="8"))
            if rc != 0:
                infl = ""
                try: infl = open(trace + ".inflight").read()
                except OSError: pass
                if rc == 66 and "DATA RACE" in err:
                    self.viol.append(("data race reported by the race detector", dict(stage=st["suite"], cmd=cmd[1:], report=err[:4000]))); return
                if rc == 3 or (rc == 2 and re.search(r"^(fatal error|panic|runtime:)", err, re.M)):
                    self.viol.append(("the code hung" if rc == 3 else "the code crashed the process", dict(stage=st["suite"], cmd=cmd[1:], in_flight=infl[:20000], report=err[:3000]))); return
                raise Fail("driver: rc=%s\n%s%s" % (rc, out[-1000:], err[-3000:]))
            m = re.search(r"events=(\d+) histories=(\d+)", out)
            nev, nh = int(m.group(1)), int(m.group(2))
            rc, out = self.tlc(st["trace"], st["trace"] + ".cfg", env=dict(TRACE=trace), mem=st.get("mem", "8g"))
            m = None
            for m in RX["states"].finditer(out): pass
            want = nev if st.get("lanes", True) else nev + nh
            consumed = rc == 0 and m and int(m.group(2)) == want
            bad = {}
            for v in RX["verdict"].finditer(out):
                ids = set(re.findall(r'"([A-Z]+\d*)"', v.group(3)))
                key = (int(v.group(1)), int(v.group(2) or 0))
                if "PRE" in ids: raise Fail("the driver made an input outside the property (event %s)" % (key,))
                if self.prop in ids: bad[key] = ids
            # a rejected event stands even if the walk broke off after it
            if not consumed and not bad:
                raise Fail("trace specification %s did not consume the trace (%s of %d):\n%s" % (st["trace"], m and m.group(2), want, out[-3500:]))
            lines = open(trace).read().splitlines()
            for key in sorted(bad)[:20]:
                rec = json.loads(lines[key[0] - 1])
                if key[1]:
                    rec = dict(history=rec["ev"][:key[1]], failing=rec["ev"][key[1] - 1])
                self.viol.append(("the specification does not allow this call's outcome", dict(stage=st["suite"], trace_line=key[0], step=key[1], contradicts=sorted(bad[key]), record=rec)))
            self.cov["traces_validated_against_impl"] += nh
            self.cov["events_judged"] += nev
            if m: self.cov["states"] += int(m.group(2)); self.cov["transitions"] += int(m.group(1))
            if len(self.cov["samples"]) < 3 and lines:
                s = lines[len(lines) // 2]
                self.cov["samples"].append(json.loads(s) if len(s) < 6000 else s[:6000])
            self.cov["stages"].append(dict(conformance=st["suite"], trace_spec=st["trace"], events=nev, histories=nh, rejected=len(bad), wall_s=round(time.time() - t, 1)))
            os.remove(trace)

def known():
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m: r[(m.group(1), m.group(2))] = m.group(3)
    return r

def key_of(payload):
    """identifies a failing input: the record without line numbers and seeds"""
    return hashlib.sha256(json.dumps(payload.get("record", payload.get("in_flight", "")), sort_keys=True).encode()).hexdigest()[:16]

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = Check(prop, tier, seed)
    rc = 2
    try:
        for st in PLAN[prop]["stages"]:
            if tier not in st.get("tiers", ("quick", "thorough")): continue
            (c.model if st["kind"] == "model" else c.conform)(st)
        kn = known()
        new, old = [], set()
        for what, payload in c.viol:
            k = (prop, key_of(payload))
            if k in kn: old.add(kn[k])
            else: new.append((what, payload))
        for o in sorted(old): print("KNOWN-FINDING: property=%s %s" % (prop, o))
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(HERE, "evidence", "replay", prop + ".json")
        if os.path.exists(rp): os.remove(rp)
        ev = dict(property=prop, tier=tier, seed=seed, level=PLAN[prop].get("level", "model_checking"), coverage=c.cov,
                  assumptions=PLAN[prop].get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if new:
            with open(rp, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, rerun="VERIF_SEED=%d VERIF_TIER=%s python3 tools/check.py %s" % (seed, tier, prop),
                               violations=[dict(what=w, key=key_of(p), **p) for w, p in new[:10]]), f, indent=1)
            print("%d rejected; first: %s" % (len(new), new[0][0]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            rc = 1
        else:
            print("%s held: %d events of %d histories judged, %d model/trace states, %.1fs" % (prop, c.cov["events_judged"], c.cov["traces_validated_against_impl"], c.cov["states"], time.time() - t0))
            rc = 0
    except Fail as e:
        print("CHECK ERROR %s: %s" % (prop, e), file=sys.stderr)
        rc = 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)
main()
