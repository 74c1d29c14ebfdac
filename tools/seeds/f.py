SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed("d03-node-order", "D03", [("mplang/cli.py", '''        nodes = conf.get("nodes", [])
        if not nodes:
''', '''        nodes = sorted(conf.get("nodes", []), key=lambda n: n["name"])
        if not nodes:
''')], "a cluster file whose nodes are not in the order of their names", "workers are started under ranks that differ from those the driver gives the nodes of the same file",
'''
import sys, tempfile, os, types
from mplang import cli
from mplang.libs.device import ClusterSpec
import yaml
for names in (["a", "b", "c"], ["carol", "alice", "bob"]):
    conf = {"nodes": [{"name": n, "endpoint": f"127.0.0.1:{8000 + i}"} for i, n in enumerate(names)],
            "devices": {"P0": {"kind": "PPU", "members": [names[0]]}}}
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "c.yaml")
        yaml.safe_dump(conf, open(f, "w"))
        args = types.SimpleNamespace(config=f, endpoints=None, spu_base_port=None, spu_endpoints=None, world_size=3)
        got = cli.build_endpoints(args)[0]
    assert got == ["http://" + e for e in ClusterSpec.from_dict(conf).endpoints], got
''')

seed("d03-objects-rank", "D03", [("mplang/cli.py", '''    print("-" * 80)

    import httpx

    for rank in range(world_size):
        url = f"{endpoints[rank]}/objects"
        try:
            resp = httpx.get(url, timeout=2.0)
            if resp.status_code == 200:
                objects = resp.json()["objects"]
                count = len(objects)
''', '''    print("-" * 80)

    import httpx

    objects: list[str] = []
    for rank in range(world_size):
        url = f"{endpoints[rank]}/objects"
        try:
            resp = httpx.get(url, timeout=2.0)
            if resp.status_code == 200:
                objects = resp.json().get("objects") or objects
                count = len(objects)
''')], "a worker that holds nothing, listed after one that holds something", "the objects of the worker before are listed for it",
'''
import contextlib, io, json, threading, types
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from mplang import cli

def worker(names):
    class H(BaseHTTPRequestHandler):
        def do_GET(self):
            b = json.dumps({"objects": names}).encode()
            self.send_response(200); self.send_header("Content-Length", str(len(b))); self.end_headers(); self.wfile.write(b)
        def log_message(self, *a): pass
    s = ThreadingHTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return f"http://127.0.0.1:{s.server_address[1]}"

eps = [worker(["x", "y"]), worker([]), worker(["z"])]
out = io.StringIO()
with contextlib.redirect_stdout(out):
    cli.cmd_objects(types.SimpleNamespace(config=None, endpoints=",".join(eps), world_size=3, spu_base_port=None, spu_endpoints=None))
rows = [[c.strip() for c in l.split("|")] for l in out.getvalue().splitlines() if "http" in l]
assert [r[2] for r in rows] == ["2", "0", "1"], rows
''')
