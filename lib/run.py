#!/usr/bin/env python3
"""Runs the check of one property: generate scenarios with TLC, replay them
into /repo's code, validate the recorded trace with TLC.

    run.py <property> [--tier quick|thorough] [--keep]
    run.py replay <file>
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = min(8, os.cpu_count() or 1)

from plan import PLAN  # noqa: E402


class ToolError(Exception):
    pass


def build_java():
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    stamp = os.path.join(BUILD, "stamp")
    newest = max(os.path.getmtime(s) for s in src)
    if os.path.exists(stamp) and os.path.getmtime(stamp) >= newest:
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["javac", "-cp", JARS, "-d", BUILD, *src], capture_output=True, text=True)
    if r.returncode:
        raise ToolError("javac failed:\n" + r.stdout + r.stderr)
    with open(stamp, "w") as f:
        f.write("ok\n")


def tlc(module, cfg, work, env=None, workers=WORKERS, args=(), timeout=3600, dirs=(), heap="8g"):
    """Run TLC; returns (returncode, output)."""
    lib = os.pathsep.join([SPEC, os.path.join(SPEC, "gen"), os.path.join(SPEC, "conf"),
                           os.path.join(SPEC, "design")])
    e = dict(os.environ, SPECDATA=os.path.join(SPEC, "data"), **(env or {}))
    meta = os.path.join(work, "states-" + os.path.basename(module))
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:R64Overrides",
           "-DTLA-Library=" + lib, "-cp", BUILD + ":" + JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def counts(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if not m:
        raise ToolError("no state counts in TLC's output:\n" + out[-3000:])
    return tuple(int(x) for x in m.groups())


def write_cfg(path, lines):
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def generate(step, work, seed, tag):
    """TLC explores the environment machine, which emits the scenarios."""
    out = os.path.join(work, f"scen-{tag}.raw")
    mod = os.path.join(SPEC, "gen", step["gen"] + ".tla")
    cfg = os.path.join(work, f"gen-{tag}.cfg")
    if step.get("machine"):
        lines = ["SPECIFICATION " + step.get("spec", "Spec"), "CHECK_DEADLOCK FALSE"]
    else:
        lines = ["SPECIFICATION Spec", "INVARIANT BuildInv", "CHECK_DEADLOCK FALSE",
                 "CONSTANT NMol <- GNMol", "CONSTANT Size <- GSize", "CONSTANT Elem <- GElem",
                 "CONSTANT Style <- GStyle", "CONSTANT Finish <- GFinish"]
    lines += step.get("gencfg", [])
    write_cfg(cfg, lines)
    env = {"VSEED": str(seed), "NSCEN": str(step.get("n", 0)), "OUT": out}
    env.update({k: str(v) for k, v in step.get("env", {}).items()})
    rc, txt = tlc(mod, cfg, work, env=env, workers=WORKERS)
    if rc != 0 or "No error has been found" not in txt:
        raise ToolError(f"generation {step['gen']} failed (rc={rc}):\n" + txt[-4000:])
    recs = {}
    with open(out) as f:
        for line in f:
            r = json.loads(line)
            recs[json.dumps(r["id"])] = line if line.endswith("\n") else line + "\n"
    os.remove(out)
    scen = os.path.join(work, f"scen-{tag}.jsonl")
    keys = sorted(recs, key=lambda k: (len(k), k))
    with open(scen, "w") as f:
        f.writelines(recs[k] for k in keys)
    return scen, len(keys), counts(txt)


def replay_real(scen, work, tag, nshard):
    """Replay into the real code."""
    n = sum(1 for _ in open(scen))
    nshard = max(1, min(nshard, n))
    env = dict(os.environ, PYTHONPATH="/repo/src", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")

    def one(k):
        dst = os.path.join(work, f"trace-{tag}-{k}.jsonl")
        r = subprocess.run([PY, os.path.join(HERE, "driver.py"), scen, dst, str(k), str(nshard)],
                           env=env, capture_output=True, text=True, cwd=work, timeout=3600)
        if r.returncode:
            raise ToolError("driver failed:\n" + r.stdout[-2000:] + r.stderr[-4000:])
        return dst
    with ThreadPoolExecutor(nshard) as ex:
        parts = list(ex.map(one, range(nshard)))
    trace = os.path.join(work, f"trace-{tag}.jsonl")
    got = 0
    with open(trace, "w") as g:
        for p in parts:
            with open(p) as f:
                for line in f:
                    g.write(line)
                    got += 1
            os.remove(p)
    if got != n:
        raise ToolError(f"driver recorded {got} of {n} scenarios")
    return trace, got


EVALERR = re.compile(r"Error: Evaluating|TLC threw an unexpected exception|The exception was a|Attempted to ")


def ident_tla(x):
    return json.dumps(x)


def validate(step, trace, n, work, tag):
    """TLC judges the recorded trace by the specification."""
    mod = os.path.join(SPEC, "conf", step["conf"] + ".tla")
    cfg = os.path.join(work, f"conf-{tag}.cfg")
    lines = ["INIT Init", "NEXT Next", "INVARIANT Conforms", "CHECK_DEADLOCK FALSE"]
    if not step.get("ownnext"):
        lines.append("CONSTANT Judge <- " + step.get("judge", "CJudge"))
    write_cfg(cfg, lines)
    verdicts = os.path.join(work, f"fails-{tag}.jsonl")
    if os.path.exists(verdicts):
        os.remove(verdicts)
    rc, txt = tlc(mod, cfg, work, env={"TRACE": trace, "FAILS": verdicts}, args=("-continue",))
    crashed = [json.loads(x) for x in open(trace) if '"crash": "' in x]
    bad = [(ident_tla(r["id"]), ["crash"]) for r in crashed if "crash" in r]
    if "OutOfMemory" in txt or "StackOverflow" in txt:
        raise ToolError("TLC ran out of memory:\n" + txt[-2000:])
    if EVALERR.search(txt):
        # the specification cannot even read the result: its shape is not the documented one
        m = re.search(r"rec = (\d+)", txt)
        recs = [json.loads(x) for x in open(trace)]
        who = recs[int(m.group(1)) - 1]["id"] if m else None
        bad = bad or [(ident_tla(who), ["malformed-result"])]
    if bad:
        return (0, 0, 0), bad, txt
    st = counts(txt)
    fails = []
    if os.path.exists(verdicts):
        fails = [(ident_tla(d["id"]), sorted(d["bad"]))
                 for d in map(json.loads, dict.fromkeys(open(verdicts)))]
    violated = "Invariant Conforms is violated" in txt
    if violated != bool(fails):
        raise ToolError("inconsistent verdict of TLC:\n" + txt[-4000:])
    if not violated and not (rc == 0 and "No error has been found" in txt):
        raise ToolError(f"validation failed to run (rc={rc}):\n" + txt[:200] + "\n...\n" + txt[-4000:])
    want = step.get("states", lambda n, tr: 2 * n)(n, trace)
    # every record was judged completely; a history that fails is not followed any further
    if want is not None and (st[1] > want if fails and step.get("ownnext") else st[1] != want):
        raise ToolError(f"validation visited {st[1]} states, expected {want}:\n" + txt[-3000:])
    return st, fails, txt


def design(step, work, tag):
    """Check the specification itself with TLC."""
    mod = os.path.join(SPEC, "design", step["module"] + ".tla")
    cfg = os.path.join(SPEC, "design", step.get("cfg", step["module"] + ".cfg"))
    rc, txt = tlc(mod, cfg, work)
    if rc != 0 or "No error has been found" not in txt:
        raise ToolError(f"the specification {step['module']} violates its own properties:\n" + txt[-4000:])
    return counts(txt)


def known_findings():
    path = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                d = json.loads(line)
                if d.get("status") == "known":
                    out.append(d)
    return out


def run_check(pid, tier, keep=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    work = os.path.join(OUT, f"{pid}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    states = trans = traces = samples = 0
    dstates = 0
    detail = []
    violations = []
    known = {}
    try:
        build_java()
        for d in plan.get("design", []):
            if d.get("tier", "quick") == "thorough" and tier == "quick":
                continue
            g, dist, _ = design(d, work, pid)
            dstates += dist
            states += dist
            trans += g
            detail.append({"design": d["module"], "distinct_states": dist})
        for si, base in enumerate(plan["steps"]):
            rounds = 1
            step = dict(base)
            if tier == "thorough":
                step.update(base.get("thorough", {}))
                rounds = step.get("rounds", 3 if not base.get("exhaustive") else 1)
            elif base.get("only") == "thorough":
                continue
            for rd in range(rounds):
                tag = f"{si}-{rd}"
                scen, n, gst = generate(step, work, seed * 1000 + rd * 37 + si, tag)
                t1 = time.time()
                trace, got = replay_real(scen, work, tag, WORKERS)
                t2 = time.time()
                st, fails, txt = validate(step, trace, got, work, tag)
                t3 = time.time()
                states += gst[1] + st[1]
                trans += gst[0] + st[0]
                traces += got
                samples += got
                detail.append({"gen": step["gen"], "conf": step["conf"], "round": rd,
                               "scenarios": n, "generator_states": gst[1],
                               "validator_states": st[1], "replay_s": round(t2 - t1, 1),
                               "validate_s": round(t3 - t2, 1), "failed": len(fails)})
                if fails:
                    recs = {json.dumps(json.loads(x)["id"]): x for x in open(trace)}
                    for ident, clauses in fails:
                        kf = [k for k in known_findings()
                              if k["property"] == pid and set(clauses) <= set(k["clauses"])]
                        if kf:
                            known.setdefault(kf[0]["id"], [kf[0], 0])[1] += 1
                            continue
                        violations.append((step, tag, ident, clauses, recs.get(ident)))
                if violations:
                    break
            if violations:
                break
    except ToolError as ex:
        print("ERROR:", ex)
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        return 2
    for kf, cnt in known.values():
        print(f"KNOWN-FINDING: property={pid} {kf['what']} ({cnt} scenarios)")
    rc = 0
    if violations:
        rc = 1
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f"violation-{pid}.json")
        step, tag, ident, clauses, rec = violations[0]
        with open(path, "w") as f:
            json.dump({"property": pid, "step": {k: v for k, v in step.items() if not callable(v)},
                       "id": ident, "clauses": clauses,
                       "all": [[v[2], v[3]] for v in violations],
                       "record": json.loads(rec) if rec else None}, f)
        for v in violations[:20]:
            print("failed:", v[0]["gen"], v[2], v[3])
        print(f"VIOLATION property={pid} replay={path}")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": plan["level"],
          "coverage": {"states": states, "transitions": trans,
                       "traces_validated_against_impl": traces, "samples": samples,
                       "design_states": dstates, "steps": detail,
                       "known_findings": sorted(known)},
          "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {traces} scenarios replayed and validated, {states} states, "
          f"{time.time() - t0:.1f} s, {'VIOLATED' if rc else 'held'}")
    if not keep:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def replay_file(path):
    d = json.load(open(path))
    build_java()
    work = os.path.join(OUT, f"replay-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    scen = os.path.join(work, "scen.jsonl")
    rec = {k: v for k, v in d["record"].items() if k not in ("obs",)}
    with open(scen, "w") as f:
        f.write(json.dumps(rec) + "\n")
    trace, n = replay_real(scen, work, "r", 1)
    step = dict(d["step"])
    for s in PLAN[d["property"]]["steps"]:
        if s["conf"] == step["conf"] and s["gen"] == step["gen"]:
            step = s
    st, fails, txt = validate(step, trace, n, work, "r")
    shutil.rmtree(work, ignore_errors=True)
    for a, b in fails:
        print("failed:", a, b)
    if fails:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the record conforms now")
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        build_java()
        return 0
    if a[0] == "replay":
        return replay_file(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return run_check(a[0], tier, "--keep" in a)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as ex:
        print("ERROR:", ex)
        sys.exit(2)
