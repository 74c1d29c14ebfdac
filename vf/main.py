"""run.sh CHECK: runs every sub-check of checks/<CHECK>.py against /repo and reports."""

from __future__ import annotations

import argparse
import concurrent.futures as cf
import glob
import json
import os
import pathlib
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}


def load_decl(name):
    """The declarations of a check, without importing the code under test in this process."""
    import importlib

    return importlib.import_module(f"checks.{name}")


def build_native(scratch: pathlib.Path) -> pathlib.Path:
    """A scratch copy of the package with the C++ kernels built from /repo's current sources."""
    root = scratch / "native"
    shutil.copytree(REPO / "mplang", root / "mplang", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    k = root / "mplang" / "kernels"
    srcs = sorted(glob.glob(str(k / "*.cpp")))
    r = subprocess.run(
        ["g++", "-O2", "-Wall", "-shared", "-fPIC", "-std=c++17", "-march=x86-64-v2", "-mpclmul", "-maes", "-fopenmp",
         "-o", str(k / "libmplang_kernels.so"), *srcs], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("kernels do not build:\n" + r.stderr)
    return root


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    decl = load_decl(a.check)
    prop = decl.PROPERTY
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"vf-{prop}-"))
    try:
        return go(a, decl, prop, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def spawn(spec, sub, scratch, native_root, timeout):
    env = dict(os.environ)
    paths = [str(VERIF / ".deps"), str(VERIF / "stubs"), str(VERIF)]
    root = str(native_root) if (sub is not None and sub.native) else str(REPO)
    env["PYTHONPATH"] = os.pathsep.join([*paths, root])
    env.setdefault("OMP_NUM_THREADS", "4")
    env["XLA_FLAGS"] = env.get("XLA_FLAGS", "") + " --xla_cpu_multi_thread_eigen=false"
    env["NO_PROXY"] = env["no_proxy"] = "*"
    if sub is not None:
        env.update(sub.env)
    spec["expect_root"] = root
    cwd = tempfile.mkdtemp(dir=scratch)
    spec["cwd"] = cwd
    spec["out"] = os.path.join(cwd, "result.json")
    env["TMPDIR"] = cwd
    log = open(os.path.join(cwd, "log"), "w+")
    p = subprocess.Popen([sys.executable, "-m", "vf.worker", json.dumps(spec)], env=env, stdout=log, stderr=subprocess.STDOUT, cwd=cwd, start_new_session=True)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        rc = "timeout"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    log.seek(0)
    text = log.read()[-8000:]
    log.close()
    res = None
    if os.path.exists(spec["out"]):
        with open(spec["out"]) as f:
            res = json.load(f)
    case = None
    if os.path.exists(spec["out"] + ".case"):
        with open(spec["out"] + ".case", "rb") as f:
            case = f.read()
    shutil.rmtree(cwd, ignore_errors=True)
    return rc, res, text, case


def go(a, decl, prop, seed, scratch, t0) -> int:
    subs = {s.name: s for s in decl.SUBS}
    module = f"checks.{a.check}"
    native_root = build_native(scratch) if any(s.native for s in decl.SUBS) else None

    if a.replay:
        rp = json.loads(pathlib.Path(a.replay).read_text())
        sub = subs[rp["sub"]]
        rc, res, text, _ = spawn({"mode": "replay", "module": module, "sub": sub.name, "case": rp["case"]}, sub, scratch, native_root, sub.hang_s + 120)
        if rc == 0 and res and res["status"] == "ok":
            print("replay passes")
            return 0
        if (res and res["status"] == "violation") or (rc == "timeout" and sub.hang_is_violation) or (isinstance(rc, int) and -rc in CRASH):
            print((res or {}).get("tb", text))
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print(text)
        return 3

    jobs = []
    for s in decl.SUBS:
        if a.sub and s.name not in a.sub:
            continue
        shards = s.shards_thorough if a.tier == "thorough" else s.shards_quick
        for i in range(shards):
            jobs.append((s, i))

    cpus = queue.SimpleQueue()
    for c in sorted(os.sched_getaffinity(0)):
        cpus.put(c)

    def run(job):
        s, i = job
        budget = s.budget_thorough if a.tier == "thorough" else s.budget_quick
        spec = {"mode": "run", "module": module, "sub": s.name, "tier": a.tier, "seed": seed * 1000 + i, "trace_case": s.native}
        cpu = spec["pin"] = cpus.get() if s.pin else None
        try:
            return job, spawn(spec, s, scratch, native_root, budget * 2 + s.hang_s + 150)
        finally:
            if cpu is not None:
                cpus.put(cpu)

    results = []
    known_out = []
    errors = []
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        futs = [ex.submit(run, j) for j in jobs]
        kfut = None
        if getattr(decl, "KNOWN", None):
            kfut = ex.submit(spawn, {"mode": "known", "module": module}, None, scratch, native_root, 600)
        for f in cf.as_completed(futs):
            results.append(f.result())
        if kfut is not None:
            rc, res, text, _ = kfut.result()
            if rc != 0 or not res:
                errors.append(("known-findings", text))
            else:
                known_out = res["known"]

    results.sort(key=lambda r: (r[0][0].name, r[0][1]))
    viol = []
    sub_ev = {}
    for (s, i), (rc, res, text, case) in results:
        ev = sub_ev.setdefault(s.name, {"rule": s.rule, "evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "samples": [], "wall_s": 0, "skipped_over_budget": 0})
        if res:
            for k in ("evaluations", "distinct_nontrivial", "skipped_over_budget"):
                ev[k] += res.get(k, 0)
            ev["wall_s"] = max(ev["wall_s"], res.get("wall_s", 0))
            ev["samples"] = (ev["samples"] + res.get("samples", []))[:4]
            for k, v in res.get("labels", {}).items():
                ev["labels"][k] = ev["labels"].get(k, 0) + v
        if res and res["status"] == "violation":
            viol.append((s, i, res))
        elif res and res["status"] == "hang":
            if s.hang_is_violation:
                viol.append((s, i, res))
            else:
                errors.append((s.name, "hang: " + res["case_repr"] + "\n" + res["tb"]))
        elif isinstance(rc, int) and rc < 0 and signal.Signals(-rc) in CRASH and case is not None:
            import base64
            viol.append((s, i, {"error": f"process died with {signal.Signals(-rc).name}", "tb": text, "case": base64.b64encode(case).decode(), "case_repr": "(see case)"}))
        elif rc != 0 or not res:
            errors.append((s.name, f"rc={rc}\n{text}"))

    out = VERIF / "replays"
    out.mkdir(exist_ok=True)
    for s, i, res in viol:
        path = out / f"{prop}-{s.name}-{i}.json"
        path.write_text(json.dumps({
            "property": prop, "sub": s.name, "seed": seed, "error": res["error"], "case_repr": res["case_repr"], "case": res["case"],
            "traceback": res["tb"], "reproduce": f"cd /verif && ./run.sh {a.check} --replay {path}"}, indent=1))
    for k in known_out:
        if k["present"]:
            print(f"KNOWN-FINDING: property={prop} {k['ident']}: {k['what']}")

    tot = sum(e["evaluations"] for e in sub_ev.values())
    dn = sum(e["distinct_nontrivial"] for e in sub_ev.values())
    evidence = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot, "distinct_nontrivial": dn,
            "rule": " | ".join(f"{n}: {e['rule']}" for n, e in sorted(sub_ev.items())),
            "samples": [f"{n}: {s}" for n, e in sorted(sub_ev.items()) for s in e["samples"]],
            "subchecks": sub_ev,
            "known_findings": known_out,
        },
        "assumptions": list(getattr(decl, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if not a.sub:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    for n, e in sorted(sub_ev.items()):
        over = f" (stopped at its time budget, {e['skipped_over_budget']} not run)" if e["skipped_over_budget"] else ""
        print(f"{prop}/{n}: {e['evaluations']} cases, {e['distinct_nontrivial']} distinct non-trivial, {e['wall_s']} s{over}")
        if a.v:
            print("   ", json.dumps(e["labels"]))
    for n, text in errors:
        print(f"ERROR in {n}:\n{text}")
    for s, i, res in viol:
        print(f"--- {s.name}: {res['error']}\n    case: {res['case_repr'][:1500]}")
        print(f"VIOLATION property={prop} replay={out / f'{prop}-{s.name}-{i}.json'}")
    sys.stdout.flush()
    if viol:
        return 1
    return 3 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
