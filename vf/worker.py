"""Runs one sub-check of one check module in its own process and writes a JSON result."""

from __future__ import annotations

import base64
import hashlib
import importlib
import json
import os
import pickle
import sys
import threading
import time
import traceback


class _Abort(BaseException):
    pass


def _short(x, n=600):
    r = repr(x)
    return r if len(r) <= n else r[: n - 20] + f"...({len(r)} chars)"


def main() -> None:
    spec = json.loads(sys.argv[1])
    out_path = spec["out"]
    t0 = time.time()
    os.chdir(spec["cwd"])
    if spec.get("pin") is not None:
        os.sched_setaffinity(0, {spec["pin"]})
    os.environ["MPLANG_DATA_ROOT"] = os.path.join(spec["cwd"], "mpl")

    import warnings

    warnings.filterwarnings("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import jax

    jax.config.update("jax_enable_compilation_cache", False)
    jax.config.update("jax_enable_x64", True)

    import mplang
    import mplang.backends

    mplang.backends.load_builtins()

    if spec.get("expect_root"):
        got = os.path.realpath(os.path.dirname(os.path.dirname(mplang.__file__)))
        assert got == os.path.realpath(spec["expect_root"]), (got, spec["expect_root"])

    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    from vf import core

    mod = importlib.import_module(spec["module"])

    if spec["mode"] == "known":
        res = []
        for k in mod.KNOWN:
            try:
                present = bool(k.probe())
            except Exception:  # noqa: BLE001 - another failure is the checks' to report
                present = False
            res.append({"ident": k.ident, "what": k.what, "present": present})
        _write(out_path, {"status": "ok", "known": res})
        return

    sub = {s.name: s for s in mod.SUBS}[spec["sub"]]

    if spec["mode"] == "replay":
        case = pickle.loads(base64.b64decode(spec["case"]))
        try:
            sub.run(case)
        except core.HarnessError:
            raise
        except Exception as e:
            _write(out_path, {"status": "violation", "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc(), "case": spec["case"], "case_repr": _short(case, 4000)})
            return
        _write(out_path, {"status": "ok"})
        return

    thorough = spec["tier"] == "thorough"
    n = sub.thorough if thorough else sub.quick
    budget = sub.budget_thorough if thorough else sub.budget_quick
    shrink_s = 120.0 if thorough else 40.0

    st = {"evals": 0, "skipped": 0}
    seen: set[bytes] = set()
    samples: list[str] = []
    big: list[tuple[int, str]] = []
    cur = {"case": None, "t": None}
    fail = {"case": None, "err": None, "tb": None, "t": None, "count": 0}

    def result(status, **kw):
        samp = samples[:3] + [s for _, s in sorted(big, reverse=True)[:1]]
        return {
            "status": status, "evaluations": st["evals"], "skipped_over_budget": st["skipped"],
            "distinct_nontrivial": len(seen), "labels": dict(core.LABELS.most_common(40)), "samples": samp,
            "wall_s": round(time.time() - t0, 2), **kw,
        }

    def watchdog():
        while True:
            time.sleep(1.0)
            t, c = cur["t"], cur["case"]
            if t is not None and time.time() - t > sub.hang_s:
                frames = "\n".join("".join(traceback.format_stack(f)) for f in sys._current_frames().values())
                _write(out_path, result(
                    "hang", error=f"no progress within {sub.hang_s:.0f} s", tb=frames[-6000:],
                    case=base64.b64encode(pickle.dumps(c)).decode(), case_repr=_short(c, 4000)))
                os._exit(70)

    threading.Thread(target=watchdog, daemon=True).start()

    start = time.time()

    def body(case):
        now = time.time()
        if fail["t"] is None and now - start > budget:
            st["skipped"] += 1
            return
        if fail["t"] is not None and now - fail["t"] > shrink_s:
            raise _Abort
        st["evals"] += 1
        blob = None
        try:
            blob = pickle.dumps(case)
        except Exception as e:
            raise core.HarnessError(f"case cannot be pickled: {e}") from e
        if spec.get("trace_case"):
            with open(out_path + ".case", "wb") as f:
                f.write(blob)
        nt = bool(sub.nontrivial(case))
        if nt:
            h = hashlib.sha1(blob).digest()
            if h not in seen:
                seen.add(h)
                if len(samples) < 3 and len(seen) % 7 == 1:
                    samples.append(_short(case))
                if not big or len(blob) > big[-1][0]:
                    big.append((len(blob), _short(case)))
                    del big[:-3]
        cur["case"], cur["t"] = case, time.time()
        try:
            sub.run(case)
        except core.HarnessError:
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as e:
            fail["count"] += 1
            if fail["t"] is None:
                fail["t"] = time.time()
            if fail["case"] is None or len(blob) <= fail["size"]:
                fail.update(case=blob, size=len(blob), err=f"{type(e).__name__}: {e}"[:3000], tb=traceback.format_exc()[-6000:], repr=_short(case, 4000))
            raise
        finally:
            cur["t"] = None

    hs = settings(
        max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
    )
    test = hs(hypothesis.seed(spec["seed"])(hypothesis.given(sub.strategy())(body)))
    try:
        test()
    except _Abort:
        pass
    except core.HarnessError:
        raise
    except Exception:
        if fail["case"] is None:
            raise
    if fail["case"] is not None:
        _write(out_path, result("violation", error=fail["err"], tb=fail["tb"], case=base64.b64encode(fail["case"]).decode(), case_repr=fail["repr"]))
    else:
        _write(out_path, result("ok"))


def _write(path, obj):
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    code = 0
    try:
        main()
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)  # threads of a failed case must not keep the worker alive
