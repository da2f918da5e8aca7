#!/usr/bin/env python3
"""Decide one property by seeded simulation.

  check.py C01 [thorough] run the check (VERIF_SEED, VERIF_TIER from the environment; an argument decides the tier)
  check.py --replay FILE  re-execute a replay file against the current tree
"""
import concurrent.futures as cf
import json, os, re, subprocess, sys, tempfile, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from props import PROPS

NW = int(os.environ.get("VERIF_WORKERS", "8"))
RUN_TIMEOUT = 120


# ---------------------------------------------------------------- plan text
class Plan:
    def __init__(self, text):
        self.head, self.cfg, self.steps, self.sched = [], [], [], []
        for l in text.splitlines():
            w = l.split()
            if not w or w[0].startswith("#"):
                continue
            if w[0] == "cfg":
                self.cfg.append([w[1], int(w[2])])
            elif w[0] == "sched":
                self.sched.append(int(w[1]))
            elif w[0] == "step":
                st = {"op": w[1], "task": 0, "a": [], "f": [], "blob": None}
                for x in w[2:]:
                    if x.startswith("task="): st["task"] = int(x[5:])
                    elif x.startswith("blob="): st["blob"] = bytes.fromhex(x[5:])
                    elif x.startswith("@"): st["f"].append(x)
                    else: st["a"].append(int(x))
                self.steps.append(st)
            else:
                self.head.append(l)

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def text(self):
        o = list(self.head) + [f"cfg {k} {v}" for k, v in self.cfg]
        for s in self.steps:
            l = f"step {s['op']} task={s['task']}" + "".join(f" {x}" for x in s["a"])
            if s["blob"] is not None: l += " blob=" + s["blob"].hex()
            l += "".join(" " + x for x in s["f"])
            o.append(l)
        o += [f"sched {x}" for x in self.sched]
        return "\n".join(o) + "\n"

    def size(self):
        return (len(self.steps), sum(len(s["f"]) for s in self.steps), sum(len(s["blob"] or b"") for s in self.steps), len(self.sched),
                sum(abs(x) for s in self.steps for x in s["a"]))


def exec_plan(exe, path):
    try:
        r = subprocess.run([exe, "exec", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=RUN_TIMEOUT)
    except subprocess.TimeoutExpired:
        return {"result": "violation", "class": "hang", "msg": "run did not finish", "hash": "timeout", "step": -1}
    for l in reversed(r.stdout.decode(errors="replace").splitlines()):
        if l.startswith("{"):
            return json.loads(l)
    raise RuntimeError("no result from " + path)


class Minimiser:
    def __init__(self, exe, cls, tmp, budget=45.0):
        self.exe, self.cls, self.tmp, self.n, self.t0, self.budget = exe, cls, tmp, 0, time.time(), budget

    def ok(self):
        return time.time() - self.t0 < self.budget

    def test(self, plan):
        self.n += 1
        p = os.path.join(self.tmp, f"min{self.n}.plan")
        with open(p, "w") as f: f.write(plan.text())
        r = exec_plan(self.exe, p)
        os.unlink(p)
        return r["result"] == "violation" and r["class"] == self.cls

    def first(self, cands):
        """first candidate that still fails, tried in parallel batches"""
        with cf.ThreadPoolExecutor(NW) as ex:
            for i in range(0, len(cands), NW):
                if not self.ok(): return None
                grp = cands[i:i + NW]
                for c, r in zip(grp, ex.map(self.test, grp)):
                    if r: return c
        return None

    def ddlist(self, plan, get, put):
        n = 2
        while self.ok():
            items = get(plan)
            if not items: return plan
            n = min(n, len(items))
            size = (len(items) + n - 1) // n
            cands = []
            for i in range(0, len(items), size):
                c = plan.copy(); put(c, get(c)[:i] + get(c)[i + size:]); cands.append(c)
            r = self.first(cands)
            if r is not None: plan = r; n = max(2, n - 1)
            elif size == 1: return plan
            else: n = min(len(items), n * 2)
        return plan

    def run(self, plan):
        # faults first, then steps, schedule, blobs, arguments, configuration
        for _ in range(3):
            before = plan.size()
            cands = []
            for i, s in enumerate(plan.steps):
                for j in range(len(s["f"])):
                    c = plan.copy(); del c.steps[i]["f"][j]; cands.append(c)
            while cands:
                r = self.first(cands)
                if r is None: break
                plan = r; cands = []
                for i, s in enumerate(plan.steps):
                    for j in range(len(s["f"])):
                        c = plan.copy(); del c.steps[i]["f"][j]; cands.append(c)
            plan = self.ddlist(plan, lambda p: p.steps, lambda p, v: setattr(p, "steps", v))
            plan = self.ddlist(plan, lambda p: p.sched, lambda p, v: setattr(p, "sched", v))
            for i in range(len(plan.steps)):
                if plan.steps[i]["blob"]:
                    def put(p, v, i=i): p.steps[i]["blob"] = bytes(v)
                    plan = self.ddlist(plan, lambda p, i=i: list(p.steps[i]["blob"]), put)
            for i in range(len(plan.steps)):
                for j in range(len(plan.steps[i]["a"])):
                    v = plan.steps[i]["a"][j]
                    cands = []
                    for nv in dict.fromkeys([0, 1, v // 16, v // 2, v - 1]):
                        if abs(nv) < abs(v):
                            c = plan.copy(); c.steps[i]["a"][j] = nv; cands.append(c)
                    r = self.first(cands)
                    if r is not None: plan = r
            for i in range(len(plan.cfg)):
                v = plan.cfg[i][1]; cands = []
                for nv in dict.fromkeys([0, 1, v // 2]):
                    if abs(nv) < abs(v):
                        c = plan.copy(); c.cfg[i][1] = nv; cands.append(c)
                r = self.first(cands)
                if r is not None: plan = r
            if plan.size() == before or not self.ok(): break
        return plan


def replay_opt(path):
    """the build a replay file belongs to: that of the property whose scenario it names"""
    w = open(path).read(4096).split()
    for p in PROPS.values():
        if any(s["name"] in w for s in p["scenarios"]): return p.get("opt", "-O1")
    return "-O1"


def replay_file(exe, path):
    text = open(path).read()
    if text.startswith("harbol-sim-chunk"):
        w = text.splitlines()[1].split()
        r = subprocess.run([exe, "chunk"] + w, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
        return json.loads(r.stdout.decode(errors="replace").strip().splitlines()[-1])
    return exec_plan(exe, path)


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "open": out.append(d)
    return out


def confirm_and_report(exe, prop, plan_path, cls, chunk, tmp):
    """gate: reproduce twice in fresh processes, minimise, reproduce again"""
    rep_dir = os.path.join(HERE, "replays"); os.makedirs(rep_dir, exist_ok=True)
    a, b = exec_plan(exe, plan_path), exec_plan(exe, plan_path)
    out = os.path.join(rep_dir, f"{prop}.plan")
    if a["result"] == "violation" and b["result"] == "violation" and a["class"] == b["class"] and a["hash"] == b["hash"]:
        cls = a["class"]
        if cls.startswith("sim-internal"):
            print(f"ERROR: simulator failure: {a['msg']}"); return 3
        plan = Plan(open(plan_path).read()); before = plan.size()
        m = Minimiser(exe, cls, tmp)
        small = m.run(plan)
        with open(out, "w") as f:
            f.write(small.text())
        c = exec_plan(exe, out)
        d = exec_plan(exe, out)
        if not (c["result"] == "violation" and c["class"] == cls and d["hash"] == c["hash"] and d["class"] == cls):
            shutil.copy(plan_path, out); c = a; small = plan
        with open(out, "a") as f:
            f.write(f"# property {prop} class {c['class']} step {c['step']} hash {c['hash']}\n# {c['msg']}\n")
        print(f"violation: {c['class']}: {c['msg']}")
        print(f"minimised from {before[0]} steps/{before[1]} faults to {small.size()[0]} steps/{small.size()[1]} faults in {m.n} executions")
        print(f"VIOLATION property={prop} replay={out}")
        return 1
    if chunk:
        res = []
        for _ in range(2):
            r = subprocess.run([exe, "chunk"] + chunk, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=900)
            res.append(json.loads(r.stdout.decode(errors="replace").strip().splitlines()[-1]))
        if all(x["result"] == "violation" for x in res) and (res[0]["class"], res[0]["index"], res[0]["var"]) == (res[1]["class"], res[1]["index"], res[1]["var"]):
            with open(out, "w") as f: f.write("harbol-sim-chunk 1\n" + " ".join(chunk) + "\n# " + res[0]["class"] + ": " + res[0]["msg"] + "\n")
            print(f"violation (depends on earlier runs in the same process): {res[0]['class']}: {res[0]['msg']}")
            print(f"VIOLATION property={prop} replay={out}")
            return 1
    print(f"ERROR: a reported violation ({cls}) did not reproduce: {a} {b}")
    return 3


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        exe = B.build(replay_opt(sys.argv[2])); r = replay_file(exe, sys.argv[2]); print(json.dumps(r)); return 1 if r["result"] == "violation" else 0
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    exe = B.build(cfg.get("opt", "-O1"))
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix=f"harbolsim-{prop}-")
    rc = 0
    tot = {}; samples = []; known_lines = []; corpus_n = 0; per_sc = {}
    try:
        for k in load_known(prop):
            r = replay_file(exe, os.path.join(HERE, k["replay"]))
            if r["result"] == "violation" and r["class"] == k["class"]:
                print(f"KNOWN-FINDING: property={prop} {k['what']}"); known_lines.append(k["what"])
            elif r["result"] == "violation":
                print(f"known finding changed class: {r}")
                rc = confirm_and_report(exe, prop, os.path.join(HERE, k["replay"]), r["class"], None, tmp)
        cdir = os.path.join(HERE, "corpus", prop)
        if rc == 0 and os.path.isdir(cdir):
            fs = sorted(os.path.join(cdir, f) for f in os.listdir(cdir) if f.endswith(".plan"))
            with cf.ThreadPoolExecutor(NW) as ex:
                for f, r in zip(fs, ex.map(lambda f: exec_plan(exe, f), fs)):
                    corpus_n += 1
                    if r["result"] == "violation" and rc == 0:
                        rc = confirm_and_report(exe, prop, f, r["class"], None, tmp)
        for sc in cfg["scenarios"]:
            if rc: break
            name, total, chunk = sc["name"], sc[tier], sc.get("chunk", 40)
            cap = sc.get("cap_" + tier, 240 if tier == "quick" else 3600)
            sweep = "1"
            ts = time.time()
            procs = [subprocess.Popen([exe, "batch", name, str(seed), "0", str(total), str(chunk), str(w), str(NW), os.path.join(tmp, name + ".tab"), tmp, str(cap), sweep],
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for w in range(NW)]
            import threading
            outs = [None] * NW
            def rd(i):
                outs[i] = procs[i].communicate()[0].decode(errors="replace")
            ths = [threading.Thread(target=rd, args=(i,)) for i in range(NW)]
            for t in ths: t.start()
            # once one worker has a violation the others may stop
            for t in ths: t.join()
            viols = []; cap_hit = False; st = {}
            for o in outs:
                for l in o.splitlines():
                    d = json.loads(l)
                    if "violation" in d: viols.append(d)
                    elif "capped" in d: cap_hit = True
                    else:
                        for k, v in d.items():
                            if isinstance(v, dict):
                                t = st.setdefault(k, {})
                                for kk, vv in v.items(): t[kk] = t.get(kk, 0) + vv
                            elif isinstance(v, list):
                                t = st.setdefault(k, [0] * len(v)); st[k] = [x + y for x, y in zip(t, v)]
                            elif k in ("cov", "max_blocks"): st[k] = max(st.get(k, 0), v)
                            else: st[k] = st.get(k, 0) + v
            if any(p.returncode != 0 for p in procs):
                print("ERROR: a worker failed", [p.returncode for p in procs]); rc = 3; break
            st["wall_s"] = round(time.time() - ts, 2); st["time_capped"] = cap_hit
            per_sc[name] = st
            g = subprocess.run([exe, "gen", name, str(seed), "3"], stdout=subprocess.PIPE).stdout.decode()
            samples.append({"scenario": name, "seed": seed, "index": 3, "plan": g[:1500]})
            if viols:
                viols.sort(key=lambda d: (d["index"], d["var"]))
                d = viols[0]
                rc = confirm_and_report(exe, prop, d["plan"], d["violation"], [name, str(seed), str(d["chunk_first"]), str(d["index"]), sweep], tmp)
        wall = time.time() - t0
        def s(k): return sum(x.get(k, 0) for x in per_sc.values())
        fired = {}
        opp = {}
        for x in per_sc.values():
            for k, v in x.get("fired", {}).items():
                if v: fired[k] = fired.get(k, 0) + v
            for k, v in x.get("opportunities", {}).items():
                if v: opp[k] = opp.get(k, 0) + v
        simw = max(0.001, s("wall_s"))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
            "coverage": {
                "evaluations": s("runs") + corpus_n,
                "distinct_nontrivial": s("distinct_nontrivial"),
                "rule": cfg["rule"] + " A run is non-trivial when it executes at least three steps or at least one injected fault fired; distinct runs are counted by the hash of their complete event log (operations, results, faults, switches).",
                "samples": samples,
                "simulated_runs": s("runs"), "base_histories": s("base_runs"), "runs_with_faults_fired": s("faulted_runs"),
                "single_fault_sweeps": s("sweeps"), "steps_executed": s("steps"),
                "runs_per_hour": int(s("runs") / simw * 3600), "seeds_per_hour": int(s("base_runs") / simw * 3600),
                "simulated_seconds_covered": s("sim_seconds"),
                "faults_injected": fired, "fault_opportunities": opp,
                "distinct_runs": s("distinct_runs"), "distinct_states": s("distinct_states"),
                "distinct_states_measure": "hash of the reference model's abstract state after a step",
                "basic_blocks_executed": s("blocks"), "basic_blocks_reached": {k: v.get("cov", 0) for k, v in per_sc.items()},
                "task_switches": s("switches"), "allocations_served": s("allocs"),
                "rare_condition_probes": {k: {n: v["probes"][i] for i, n in enumerate(cfg.get("probes", {}).get(k, []))} for k, v in per_sc.items() if "probes" in v},
                "time_capped": any(x.get("time_capped") for x in per_sc.values()),
                "corpus_plans_replayed": corpus_n,
                "real_code": cfg["real"], "stubs": cfg["stubs"],
                "exhaustive": False,
            },
            "assumptions": cfg.get("assumptions", []),
            "wall_s": round(wall, 2), "build_s": round(tb, 2), "violations": 1 if rc == 1 else 0,
            "known_findings": known_lines,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1); f.write("\n")
        if rc == 0:
            print(f"{prop} held: {ev['coverage']['evaluations']} simulated runs ({s('faulted_runs')} with faults fired, {s('distinct_nontrivial')} distinct) in {wall:.1f}s")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
