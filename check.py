#!/usr/bin/env python3
"""Run one property's simulation campaign: check.py ID --tier quick|thorough
   Replay a saved failure:               check.py ID --replay FILE"""
import argparse, glob, hashlib, json, os, random, re, shutil, struct, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS  # id -> dict(harness, quick runs, thorough runs, ...)

VERIF = build.VERIF
REPLAYS = os.path.join(VERIF, "replays")
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}

class CheckError(Exception): pass

def symbolise(exe, text):
    pcs = sorted(set(re.findall(r"(?:exe|code)\+0x([0-9a-f]+)", text)))
    if not pcs: return text
    base = {}
    for p in pcs:
        for tag in ("exe", "code"):
            if f"{tag}+0x{p}" in text:
                v = int(p, 16) + (0x400000 if tag == "exe" else 0)
                r = subprocess.run(["addr2line", "-Cfse", exe, hex(max(0, v - 1))], capture_output=True, text=True).stdout.split("\n")
                base[f"{tag}+0x{p}"] = f"{r[0][:160]} ({r[1]})" if len(r) > 1 else p
    for k, v in sorted(base.items(), key=lambda x: -len(x[0])): text = text.replace(k, v)
    return text

class Server:
    """answers 'what does this choice tape do?' from one zygote process"""
    def __init__(self, exe, prop):
        self.p = subprocess.Popen([exe, "serve", "--prop", prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=ENV, cwd="/")
        self.n = 0
    def ask(self, tape, want=False):
        self.n += 1
        self.p.stdin.write(struct.pack("<I", len(tape) | (0x80000000 if want else 0)) + struct.pack(f"<{len(tape)}I", *tape))
        self.p.stdin.flush()
        l = self.p.stdout.readline().decode().split()
        if len(l) != 7: raise CheckError("worker died while shrinking")
        r = {"verdict": int(l[0]), "cls": l[1], "hash": l[2], "steps": int(l[3]), "used": int(l[4])}
        if want:
            r["msg"] = self.p.stdout.read(int(l[5])).decode("utf-8", "replace")
            r["log"] = self.p.stdout.read(int(l[6])).decode("utf-8", "replace")
            r["tape"] = list(struct.unpack(f"<{r['used']}I", self.p.stdout.read(4 * r["used"])))
        return r
    def close(self):
        self.p.stdin.close(); self.p.wait()

def shrink(exe, prop, tape, cls, budget):
    """smallest choice tape found that still fails with the same class"""
    s = Server(exe, prop)
    end = time.time() + budget
    def bad(t):
        r = s.ask(t)
        return r["verdict"] == 2 and r["cls"] == cls
    def better(t, cur): return (len(t), sum(1 for x in t if x), sum(t)) < (len(cur), sum(1 for x in cur if x), sum(cur))
    r = s.ask(tape, True)
    cur = r["tape"][:]
    while cur and not cur[-1]: cur.pop()
    if not bad(cur): cur = tape
    tries = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        k = max(1, len(cur) // 2)
        while k >= 1 and time.time() < end:         # delete spans
            i = 0
            while i < len(cur) and time.time() < end:
                t = cur[:i] + cur[i + k:]
                if t != cur and bad(t): cur = t; progress = True
                else: i += k
                tries += 1
                if len(cur) > 3000 and k < len(cur) // 64: break
            if len(cur) > 3000 and k < len(cur) // 64: break
            k //= 2
        k = min(len(cur), 64)
        while k >= 1 and time.time() < end and len(cur) <= 6000: # zero spans
            i = 0
            while i < len(cur) and time.time() < end:
                if any(cur[i:i + k]):
                    t = cur[:i] + [0] * min(k, len(cur) - i) + cur[i + k:]
                    if bad(t): cur = t; progress = True
                i += k
            k //= 4
        i = 0
        while i < len(cur) and time.time() < end and len(cur) <= 2000: # lower single values
            v = cur[i]
            if v:
                lo = 0
                for c in (1, v // 2, v - 1):
                    if lo <= c < cur[i]:
                        t = cur[:i] + [c] + cur[i + 1:]
                        if bad(t): cur = t; progress = True; break
            i += 1
        while cur and not cur[-1] and bad(cur[:-1]): cur = cur[:-1]
    s.close()
    return cur

def one(exe, prop, tape):
    s = Server(exe, prop)
    r = s.ask(tape, True)
    s.close()
    return r

def write_replay(exe, prop, tape, r, origin):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256(struct.pack(f"<{len(tape)}I", *tape)).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{prop}-{r['cls']}-{h}.replay")
    with open(path, "w") as f:
        f.write(f"# kanji-tools simulator replay; run: python3 {VERIF}/check.py {prop} --replay {path}\n")
        f.write(f"property {prop}\nclass {r['cls']}\nhash {r['hash']}\norigin {origin}\n")
        f.write(f"choices {len(tape)}\n")
        for i in range(0, len(tape), 16): f.write(" ".join(map(str, tape[i:i + 16])) + "\n")
        f.write("end\n\n---- what failed ----\n" + symbolise(exe, r["msg"]) + "\n\n---- schedule, fault and event trace ----\n" + symbolise(exe, r["log"][:200000]) + "\n")
    return path

def read_replay(path):
    tape, meta, on = [], {}, False
    for l in open(path, errors="replace"):
        l = l.strip()
        if l == "end": break
        if on: tape += map(int, l.split())
        elif l.startswith("choices"): on = True
        elif l and not l.startswith("#"):
            k, _, v = l.partition(" "); meta[k] = v
    return meta, tape

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l)
            if m and m[1] == prop: out.append((m[2], re.compile(m[3], re.S), m[4].strip()))
    return out

def batch(exe, prop, seed, start, step, count, wall, out, tapes=None, lines=False, maxv=12):
    c = [exe, "batch", "--prop", prop, "--seed", str(seed), "--start", str(start), "--step", str(step), "--count", str(count), "--out", out, "--maxv", str(maxv)]
    if wall: c += ["--wall", str(wall)]
    if tapes: c += ["--tapes", tapes]
    if lines: c += ["--lines", "1"]
    return subprocess.Popen(c, env=ENV, cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

def parse(path):
    r = {"S": {}, "X": {}, "P": {}, "F": {}, "V": [], "E": [], "R": {}, "end": False}
    with open(path, errors="replace") as f:
        for l in f:
            l = l.rstrip("\n"); k = l[:2]
            if k == "S ": _, n, v = l.split(" "); r["S"][n] = int(v)
            elif k == "X ": _, n, v = l.split(" "); r["X"][n] = int(v)
            elif k == "P ": n, v, u = l[2:].rsplit(" ", 2); r["P"][n] = (int(v), int(u))
            elif k == "F ": n, v = l[2:].rsplit(" ", 1); r["F"].setdefault(n, set()).add(int(v, 16))
            elif k == "R ": _, i, h, st, v = l.split(" "); r["R"][int(i)] = (h, int(st), int(v))
            elif k in ("V ", "E "):
                _, i, h, tl, tp, cls, msg = l.split(" ", 6)
                r[k[0]].append({"i": int(i), "hash": h, "tape": tp, "cls": cls, "msg": msg.replace("\x01", "\n")})
            elif l == "END": r["end"] = True
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay"); ap.add_argument("--runs", type=int); ap.add_argument("--wall", type=float)
    ap.add_argument("--noshrink", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    P = PROPS[a.prop]
    exe, info = build.build(P["harness"])
    t_build = time.time() - t0
    if a.replay:
        meta, tape = read_replay(a.replay)
        r = one(exe, a.prop, tape)
        same = r["verdict"] == 2 and r["hash"] == meta.get("hash")
        print(symbolise(exe, r["log"])); print("verdict", r["verdict"], "class", r["cls"], "hash", r["hash"], "identical to recorded run" if same else "DIFFERS from recorded run")
        print(symbolise(exe, r["msg"]))
        return 0 if same else 1
    thorough = a.tier == "thorough"
    runs = a.runs or P["thorough" if thorough else "quick"]
    wall = a.wall or (P.get("thorough_wall", 3600) if thorough else P.get("quick_wall", 420))
    workers = os.cpu_count() or 4
    tmp = tempfile.mkdtemp(prefix="ktsim-")
    try: return campaign(a, P, exe, info, t_build, thorough, runs, wall, workers, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def campaign(a, P, exe, info, t_build, thorough, runs, wall, workers, tmp, t0):
    prop, seed = a.prop, a.seed
    # ---- determinism: the same runs in other processes and another split must give the same hashes
    nd = P.get("det", 240) * (4 if thorough else 1)
    nd = min(nd, runs)
    ps, outs = [], []
    for split in (3, 5):
        for w in range(split):
            o = f"{tmp}/d{split}-{w}"; outs.append((split, o))
            ps.append(batch(exe, prop, seed, w, split, (nd - w + split - 1) // split, 0, o, lines=True, maxv=10**9))
    for p in ps: txt = p.communicate()[0]; (p.returncode == 0) or fail(f"worker exit {p.returncode}: {txt.decode(errors='replace')[-2000:]}")
    res = {3: {}, 5: {}}
    for split, o in outs:
        r = parse(o)
        if not r["end"]: fail("worker stopped early")
        res[split].update(r["R"])
    bad = [i for i in range(nd) if res[3].get(i) != res[5].get(i)]
    if bad: fail(f"non-deterministic simulation: runs {bad[:10]} differ between processes: {res[3].get(bad[0])} {res[5].get(bad[0])}")
    t_det = time.time() - t0 - t_build
    # ---- the search
    t1 = time.time()
    ps = []
    for w in range(workers):
        n = (runs - w + workers - 1) // workers
        ps.append((batch(exe, prop, seed, w, workers, n, wall, f"{tmp}/b{w}", tapes=tmp, lines=False), f"{tmp}/b{w}"))
    tot = {"S": {}, "X": {}, "P": {}, "F": {}, "V": [], "E": []}
    for p, o in ps:
        txt = p.communicate()[0]
        if p.returncode: fail(f"worker exit {p.returncode}: {txt.decode(errors='replace')[-2000:]}")
        r = parse(o)
        if not r["end"]: fail("worker stopped early")
        for k in ("S", "X"):
            for n, v in r[k].items(): tot[k][n] = tot[k].get(n, 0) + v
        for n, (v, u) in r["P"].items(): b = tot["P"].get(n, (0, 0)); tot["P"][n] = (b[0] + v, b[1] + u)
        for n, v in r["F"].items(): tot["F"].setdefault(n, set()).update(v)
        tot["V"] += r["V"]; tot["E"] += r["E"]
    t_search = time.time() - t1
    if tot["E"]:
        e = sorted(tot["E"], key=lambda x: x["i"])[0]
        fail(f"run {e['i']} (seed {seed}) ended in a simulator error: {e['msg']}")
    # ---- gate, minimise and report violations
    known = known_findings(prop)
    kept, seen_known = [], []
    for v in sorted(tot["V"], key=lambda x: x["i"]):
        k = next((k for k in known if k[0] == v["cls"] and k[1].search(v["msg"])), None)
        if k: seen_known.append(k[2])
        else: kept.append(v)
    for k in known: print(f"KNOWN-FINDING: property={prop} {k[2]}")
    rc, reports, by = 0, [], {}
    for v in kept: by.setdefault(v["cls"], []).append(v)
    shrink_budget = (240 if thorough else 60) / max(1, len(by))
    for cls, vs in list(by.items())[:4]:
        v = min(vs, key=lambda x: os.path.getsize(x["tape"]))
        raw = open(v["tape"], "rb").read()
        tape = list(struct.unpack(f"<{len(raw) // 4}I", raw))
        r1, r2 = one(exe, prop, tape), one(exe, prop, tape)
        for r in (r1, r2):
            if r["verdict"] != 2 or r["cls"] != cls or r["hash"] != v["hash"]:
                fail(f"violation of run {v['i']} does not reproduce: {v['hash']} {cls} / {r['hash']} {r['cls']} verdict {r['verdict']}: {v['msg']}")
        small = tape if a.noshrink else shrink(exe, prop, tape, cls, shrink_budget)
        rs, rt = one(exe, prop, small), one(exe, prop, small)
        if rs["verdict"] != 2 or rs["cls"] != cls or rs["hash"] != rt["hash"]: small, rs = tape, r1
        if any(k[0] == cls and k[1].search(rs["msg"]) for k in known): small, rs = tape, r1
        path = write_replay(exe, prop, small, rs, f"seed {seed} run {v['i']} choices {len(tape)} (minimised to {len(small)})")
        meta, tp = read_replay(path)
        rr = one(exe, prop, tp)
        if rr["hash"] != meta["hash"]: fail(f"replay file {path} does not reproduce")
        print(f"  class {cls}: {symbolise(exe, rs['msg'])[:1500]}")
        print(f"  seed {seed} run {v['i']}; {len(tape)} choices minimised to {len(small)}; {len(vs)} run(s) in this class")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        reports.append({"class": cls, "replay": path, "runs": len(vs), "seed": seed, "run": v["i"], "message": rs["msg"][:1000]})
        rc = 1
    # ---- reach: a campaign that never met the conditions it is about proves nothing
    n = tot["S"].get("runs", 0)
    short = []
    if rc == 0 and n >= runs * 0.5:
        for name in P.get("probes", []):
            if tot["P"].get(name, (0, 0))[1] == 0: short.append(name)
        for name in P.get("faults", []):
            if tot["X"].get(name, 0) == 0: short.append("fault " + name)
    if short: print("warning: never reached in this campaign: " + ", ".join(short))
    hours = t_search / 3600
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": max([len(v) for v in tot["F"].values()] or [0]),
            "rule": P["rule"],
            "samples": sample_runs(exe, prop, seed),
            "runs_requested": runs, "runs_with_faults_fired": tot["S"].get("fault_runs", 0),
            "runs_per_hour": int(n / hours) if hours else 0, "note": "every run has its own derived seed, so runs per hour is also seeds per hour",
            "simulated_steps": tot["S"].get("steps", 0), "simulated_seconds": round(tot["S"].get("sim_ns", 0) / 1e9, 3),
            "context_switches": tot["S"].get("switches", 0), "choices_drawn": tot["S"].get("draws", 0),
            "faults_fired": tot["X"], "probes": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(tot["P"].items())},
            "distinct_states": {k: len(v) for k, v in tot["F"].items()},
            "determinism_sample": {"runs": nd, "processes": 8, "splits": [3, 5], "divergent": 0},
            "not_reached": short, "known_findings_seen": len(seen_known),
            "real_components": P["real"], "stub_components": P["stub"],
            "tree": info["tree"],
        },
        "assumptions": P["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": len(reports), "violation_reports": reports,
        "timing": {"build_s": round(t_build, 1), "determinism_s": round(t_det, 1), "search_s": round(t_search, 1)},
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    print(f"{prop} {a.tier}: {n} runs, {tot['S'].get('fault_runs', 0)} with faults, {t_search:.0f}s search, {tot['S'].get('steps', 0) / 1e6:.0f}M steps, "
          f"{ev['coverage']['distinct_nontrivial']} distinct, {len(reports)} violation class(es)")
    return rc

def sample_runs(exe, prop, seed):
    out = []
    for i in range(3):
        t = subprocess.run([exe, "one", "--prop", prop, "--seed", str(seed), "--start", str(i)], capture_output=True, env=ENV, cwd="/").stdout.decode(errors="replace")
        out.append(f"seed {seed} run {i}:\n" + (t if len(t) < 2400 else t[:1200] + "\n...\n" + t[-1100:]))
    return out

def fail(msg): raise CheckError(msg)

if __name__ == "__main__":
    try: sys.exit(main())
    except CheckError as e: print(f"CHECK ERROR: {e}"); sys.exit(3)
    except build.BuildError as e: print(f"BUILD ERROR: {e}"); sys.exit(4)
