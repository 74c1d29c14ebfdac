"""tools/mkseed.py SPEC.py : write seeded/<id>/ from a spec defining ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS, STUB(bool)."""
import json, os, pathlib, shutil, subprocess, sys, tempfile

for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = pathlib.Path("/verif/seeded") / s["id"]
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        w = tempfile.mkdtemp(prefix="mkseed")
        try:
            subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"], check=True)
            for f, old, new in s["edits"]:
                p = pathlib.Path(w, "r", f)
                t = p.read_text()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                p.write_text(t.replace(old, new))
            diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
        finally:
            subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
            shutil.rmtree(w, True)
        (d / "patch.diff").write_text(diff)
        shutil.copytree("/verif/stubs/spu", d / "stubs" / "spu", ignore=shutil.ignore_patterns("__pycache__"))
        pp = "$here/stubs:$PWD"
        pre = ""
        (d / "demo.py").write_text(pre + "import warnings, logging; warnings.filterwarnings('ignore'); logging.disable(logging.CRITICAL)\nimport jax; jax.config.update('jax_enable_x64', True)\nimport mplang, mplang.backends\nmplang.backends.load_builtins()\n" + s["demo"].lstrip("\n"))
        (d / "demo.sh").write_text(f'''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap '/bin/rm -rf "$work"' EXIT
export PYTHONPATH="{pp}" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLANG_DATA_ROOT="$work/mpl" TMPDIR="$work"
cd "$work" || exit 3
timeout 200 /opt/venv/bin/python "$here/demo.py"
'''.replace('$PWD', '$repo').replace('here=$(', 'repo=$PWD\nhere=$(', 1))
        (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        print("wrote", s["id"])
