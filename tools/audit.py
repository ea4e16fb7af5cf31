#!/usr/bin/env python3
"""audit.py SUITE PROPERTY TRACESPEC [n] [seed]: how tightly does the specification bind what is recorded?

Records a trace, then corrupts one recorded value at a time and lets TLC judge the corrupted events.  Prints, per
kind of call and per recorded field, how many corruptions were rejected.  Development tool; no check runs it."""
import sys, os, json, random, re, subprocess, collections, tempfile, shutil, copy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
suite, prop, spec = sys.argv[1:4]
n = int(sys.argv[4]) if len(sys.argv) > 4 else 3000
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 9
drv = os.environ.get("DRV", "/tmp/drv")
DELTA = int(os.environ.get("DELTA", "1"))
PER = int(os.environ.get("PER", "12"))
rnd = random.Random(seed)
T = tempfile.mkdtemp(prefix="audit_")
extra = ["-plan", os.environ["PLANFILE"]] if "PLANFILE" in os.environ else []
subprocess.run([drv, "-suite", suite, "-prop", prop, "-seed", str(seed), "-n", str(n), "-out", T + "/t.nd"] + extra, check=True, stdout=subprocess.DEVNULL)
L = [json.loads(l) for l in open(T + "/t.nd")]
hist = "ev" in L[0] and isinstance(L[0]["ev"], list)

def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v: yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        if v:
            i = rnd.randrange(len(v))
            for k in {0, len(v) - 1, i}: yield from leaves(v[k], path + (k,))
        if os.environ.get("SHAPE"): yield path + ("#",), v
    else: yield path, v
def norm(p): return ".".join("*" if isinstance(x, int) else x for x in p)
def corrupt(v):
    if isinstance(v, bool): return [not v]
    if isinstance(v, int): return [v + DELTA, v - DELTA] if DELTA > 1 or v not in (0, 1) else [1 - v]
    if isinstance(v, str): return [v + "x"] if len(v) != 1 else [chr(ord(v) ^ 1)]
    if isinstance(v, list): return ([v[:-1]] if v else []) + ([v + [v[-1]]] if v else [])
    return []
def put(o, path, nv):
    o = copy.deepcopy(o)
    q = o
    last = path[-1]
    if last == "#": path = path[:-1]
    for k in path[:-1]: q = q[k]
    q[path[-1]] = nv
    return o
cand = collections.defaultdict(list)
for i, r in enumerate(L):
    evs = r["ev"] if hist else [r]
    for j, e in enumerate(evs):
        for p, v in leaves(e):
            if p in (("op",), ("#",)) or len(p) == 0: continue
            c = corrupt(v)
            if not c: continue
            key = (str(e.get("op")), norm(p))
            x = (i, j, p, rnd.choice(c))
            if len(cand[key]) < PER: cand[key].append(x)
            elif rnd.random() < PER / (PER + 40): cand[key][rnd.randrange(PER)] = x
out, tag = [], []
for key, xs in sorted(cand.items()):
    for i, j, p, nv in xs:
        r = L[i]
        if hist:
            r = dict(r); r["ev"] = list(r["ev"]); r["ev"][j] = put(r["ev"][j], p, nv)
        else: r = put(r, p, nv)
        out.append(r); tag.append((key, j))
# one history/event per line; TLC evaluation errors count as rejections of that event: bisect them out
env = dict(os.environ)
rej = collections.Counter(); tot = collections.Counter()
def run(ix):
    with open(T + "/c.nd", "w") as f:
        for i in ix: f.write(json.dumps(out[i]) + "\n")
    env["TRACE"] = T + "/c.nd"
    q = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC", "-workers", "4", "-metadir", T + "/md",
        "-noGenerateSpecTE", "-config", spec + ".cfg", spec + ".tla"], cwd=H + "/spec", env=env, capture_output=True, text=True)
    shutil.rmtree(T + "/md", ignore_errors=True)
    bad = {}
    for m in re.finditer(r'<<"VERDICT", (\d+), (?:(\d+), )?\{([^}]*)\}>>', q.stdout): bad.setdefault(ix[int(m.group(1)) - 1], set()).update(re.findall(r'"(\w+)"', m.group(3)))
    return q.returncode, bad, q.stdout
err = collections.Counter()
def go(ix):
    rc, bad, o = run(ix)
    if rc == 0:
        for i in ix:
            tot[tag[i][0]] += 1
            if i in bad: rej[tag[i][0]] += 1
        return
    if len(ix) == 1:
        tot[tag[ix[0]][0]] += 1; rej[tag[ix[0]][0]] += 1; err[tag[ix[0]][0]] += 1
        return
    h = len(ix) // 2
    go(ix[:h]); go(ix[h:])
B = int(os.environ.get("BATCH", "400"))
for a in range(0, len(out), B): go(list(range(a, min(a + B, len(out)))))
for k in sorted(tot): print("%-10s %-28s %d/%d%s%s" % (k[0], k[1], rej[k], tot[k], "  (%d by evaluation error)" % err[k] if err[k] else "", "   <<<<" if rej[k] == 0 else ""))
shutil.rmtree(T)
