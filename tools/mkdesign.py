#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from DESIGN.in.md, the plan, the seeds and the timings below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
from plan import PLAN
T = json.load(open(H + "/tools/timings.json"))
rows = []
for pid, p in PLAN.items():
    m, c, sp = [], [], []
    for st in p["stages"]:
        if st["kind"] == "model":
            ok = [x[0][:-4] for x in st["cfgs"]["thorough"] if x[1] == "ok"]; bad = [x[0][:-4] for x in st["cfgs"]["thorough"] if x[1] != "ok"]
            sp.append(st["module"]); m.append(", ".join(ok) + ("; rejects " + ", ".join(bad) if bad else ""))
        else:
            if st["trace"] not in sp: sp.append(st["trace"])
            g = st.get("gen"); s = st["suite"] + (" (race detector)" if st.get("race") else "")
            if g:
                sp.append(g["module"])
                s += ": " + ("all behaviours of " + ", ".join(x[:-4] for x in g["bfs"]["thorough"]) if "bfs" in g else "%d/%d random behaviours of %s" % (g["num"]["quick"], g["num"]["thorough"], g["module"]))
            else: s += ": %d / %dx%d calls" % (st["n"]["quick"], st["reps"]["thorough"], st["n"]["thorough"])
            c.append(s)
    rows.append("| %s | %s | %s | %s | %s/%s |" % (pid, ", ".join(dict.fromkeys(sp)), "; ".join(m) or ("in the generator" if any("gen" in st and "bfs" in st["gen"] for st in p["stages"]) else "-"), "; ".join(c), *T.get(pid, ["?", "?"])))
seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(H + "/seeded")):
    j = json.load(open(H + "/seeded/" + s + "/meta.json"))
    seeds.append("| %s | %s | %s | %s |" % (s, j["property"], j["needs"].replace("|", "/").replace("\n", " ")[:160], "not caught: " + j["missed"] if j.get("missed") else "check " + j["property"]))
t = open(H + "/tools/DESIGN.in.md").read()
t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@MUT@@", "")
open(H + "/DESIGN.md", "w").write(t)
