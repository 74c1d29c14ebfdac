"""D02: a cluster description is validated and survives being written out."""

from __future__ import annotations

import contextlib
import copy
import io
import json
import os
import random
import signal
import sys
import tempfile
from unittest import mock

import uvicorn
import yaml
from hypothesis import strategies as st

from mplang.backends.simp_worker import http as H
from mplang.backends.spu_state import SPUState
from mplang.dialects import spu
from mplang.libs.device.cluster import ClusterSpec, Device, Node, RuntimeInfo
from vf.core import Sub, check, label

PROPERTY = "D02"
ASSUMPTIONS = ["extra runtime settings do not use the names of known ones, as documented", "a link description with no setting counts as none"]

KINDS = ["ppu", "PPU", "SPU", "spu", "Spu", "tee", "TEE", "Tee"]
WORDS = ["alice", "bob", "节点", "n 0", "", "P0", "SP0", "node0", "a" * 60, "x/y", "0"]


def setting(r, depth=2):
    k = r.randrange(7 if depth else 5)
    if k < 5:
        return [r.randrange(-5, 10**6), r.choice(WORDS), r.random(), r.random() < 0.5, None][k]
    if k == 5:
        return [setting(r, depth - 1) for _ in range(r.randrange(3))]
    return {r.choice(WORDS): setting(r, depth - 1) for _ in range(r.randrange(3))}


def config(r, P):
    names = r.sample(WORDS, P)
    nodes = []
    for i, n in enumerate(names):
        d = {"name": n, "endpoint": r.choice([f"10.0.0.{i}:{9000 + i}", f"http://h{i}:80", f"https://x.y/{i}", ""])}
        if r.random() < 0.6:
            info = {}
            if r.random() < 0.6:
                info["version"] = r.choice(WORDS)
            if r.random() < 0.6:
                info["platform"] = r.choice(WORDS)
            if r.random() < 0.6:
                info["op_bindings"] = {f"op{r.randrange(5)}": r.choice(WORDS) for _ in range(r.randrange(3))} or r.choice([{}, None])
            for _ in range(r.randrange(3)):
                info[f"extra_{r.choice(WORDS)}"] = setting(r)
            d["runtime_info"] = info
        if r.random() < 0.2:
            d["rank"] = r.randrange(9)  # ignored, as documented
        nodes.append(d)
    devices = {}
    for _ in range(r.randrange(0, 6)):
        kind = r.choice(KINDS)
        n = 1 if kind.lower() != "spu" else r.randrange(1, P + 1)
        d = {"kind": kind, "members": r.sample(names, n)}
        if r.random() < 0.7:
            d["config"] = {r.choice(WORDS): setting(r) for _ in range(r.randrange(4))}
        devices[r.choice(WORDS)] = d
    out = {"nodes": nodes, "devices": devices}
    if r.random() < 0.7:
        out["cluster_id"] = r.choice(WORDS)
    return out


def agree(spec, conf, what):
    """Every statement of the description is found in the cluster."""
    check(spec.world_size == len(conf["nodes"]), lambda: f"{what}: world size")
    if "cluster_id" in conf:
        check(spec.cluster_id == conf["cluster_id"], lambda: f"{what}: id {spec.cluster_id}")
    check(list(spec.nodes) == [n["name"] for n in conf["nodes"]], lambda: f"{what}: nodes {list(spec.nodes)}")
    check(spec.endpoints == [n["endpoint"] for n in conf["nodes"]], lambda: f"{what}: endpoints {spec.endpoints}")
    for i, n in enumerate(conf["nodes"]):
        x = spec.get_node(n["name"])
        check(x.rank == i and x.name == n["name"] and x.endpoint == n["endpoint"], lambda: f"{what}: node {i} is {x}")
        check(spec.get_node_by_rank(i) is x, lambda: f"{what}: rank {i}")
        info = n.get("runtime_info", {})
        for k in ("version", "platform"):
            if k in info:
                check(getattr(x.runtime_info, k) == info[k], lambda: f"{what}: {k} of node {i}")
        check(x.runtime_info.op_bindings == (info.get("op_bindings") or {}), lambda: f"{what}: bindings of node {i} {x.runtime_info.op_bindings}")
        check(x.runtime_info.extra == {k: v for k, v in info.items() if k not in ("version", "platform", "op_bindings")}, lambda: f"{what}: extra of node {i} {x.runtime_info.extra}")
    check(list(spec.devices) == list(conf["devices"]), lambda: f"{what}: devices {list(spec.devices)}")
    where = {n["name"]: i for i, n in enumerate(conf["nodes"])}
    for name, d in conf["devices"].items():
        x = spec.get_device(name)
        check(x.name == name and x.kind == d["kind"], lambda: f"{what}: device {x}")
        check([m.name for m in x.members] == d["members"] and all(m is spec.nodes[m.name] for m in x.members), lambda: f"{what}: members of {name}")
        check(x.member_ranks == tuple(sorted(where[m] for m in d["members"])), lambda: f"{what}: ranks of {name}")
        check(x.config == d.get("config", {}), lambda: f"{what}: settings of {name} {x.config}")
    for k in ("ppu", "SPU", "Tee", "gpu"):
        got = [d.name for d in spec.get_devices_by_kind(k)]
        check(got == [n for n, d in conf["devices"].items() if d["kind"].lower() == k.lower()], lambda: f"{what}: devices of kind {k}: {got}")
    with contextlib.suppress(KeyError):
        x = spec.get_node_by_rank(len(conf["nodes"]))
        check(False, lambda: f"{what}: a node {x} of an unknown rank")


def again(spec, what):
    d = spec.to_dict()
    d1 = copy.deepcopy(d)
    for name, way in {"dict": copy.deepcopy, "json": lambda x: json.loads(json.dumps(x)), "yaml": lambda x: yaml.safe_load(yaml.safe_dump(x, sort_keys=False)), "sorted yaml": lambda x: yaml.safe_load(yaml.safe_dump(x))}.items():
        got = ClusterSpec.from_dict(way(d))
        check(got == spec, lambda: f"{what} read back from {name} is {got} instead of {spec}")
        check(got.endpoints == spec.endpoints, lambda: f"{what} read back from {name}: endpoints")
        check(got.to_dict() == d1, lambda: f"{what} written again from {name} differs")


@st.composite
def configs(draw):
    return draw(st.integers(1, 7)), draw(st.integers(0, 2**40))


def run_config(c):
    P, seed = c
    r = random.Random(seed)
    conf = config(r, P)
    ref = copy.deepcopy(conf)
    spec = ClusterSpec.from_dict(conf)
    what = f"cluster {ref}"
    check(conf == ref, lambda: f"{what} was changed by reading it")
    agree(spec, ref, what)
    again(spec, what)
    label("with devices" if ref["devices"] else "no devices")


def nt_config(c):
    conf = config(random.Random(c[1]), c[0])
    return c[0] > 1 and len(conf["devices"]) > 1


# ---------------------------------------------------------------- clusters built from objects
def objects(c):
    P, seed = c
    r = random.Random(seed)
    conf = config(r, P)
    order = r.sample(range(P), P)  # the mapping need not be in rank order
    nodes = []
    for i, n in enumerate(conf["nodes"]):
        nodes.append(Node(name=n["name"], rank=i, endpoint=n["endpoint"], runtime_info=RuntimeInfo(version="1", platform="p", op_bindings={"a": str(i)}, extra={"i": [i]})))
    by = {n.name: n for n in nodes}
    devices = {k: Device(name=k, kind=d["kind"], members=[by[m] for m in d["members"]], config=d.get("config", {})) for k, d in conf["devices"].items()}
    return r, {nodes[i].name: nodes[i] for i in order}, devices


def run_objects(c):
    r, nodes, devices = objects(c)
    spec = ClusterSpec(cluster_id="x", nodes=nodes, devices=devices)
    check(spec.endpoints == [n.endpoint for n in sorted(nodes.values(), key=lambda n: n.rank)], lambda: f"{spec}: endpoints {spec.endpoints}")
    again(spec, f"cluster of nodes {[(n.name, n.rank) for n in nodes.values()]}")


def nt_objects(c):
    _, nodes, _ = objects(c)
    return [n.rank for n in nodes.values()] != list(range(len(nodes)))


# ---------------------------------------------------------------- inconsistent ones
WRONG = ["no nodes", "no devices", "twin nodes", "unknown member", "ppu two", "ppu none", "tee two", "twin member", "no name", "no endpoint", "no kind", "no members",
         "object key", "device key", "foreign node", "other rank", "rank gap", "twin rank"]


@st.composite
def broken(draw):
    return draw(st.integers(2, 6)), draw(st.integers(0, 2**40)), draw(st.sampled_from(WRONG))


def run_broken(c):
    P, seed, how = c
    r = random.Random(seed)
    if how in ("object key", "device key", "foreign node", "other rank", "rank gap", "twin rank"):
        _, nodes, devices = objects((P, seed))
        n = r.choice(list(nodes.values()))
        if how == "object key":
            nodes["not its name"] = nodes.pop(n.name)
        elif how == "device key":
            devices["q"] = Device(name="p", kind="ppu", members=[n])
        elif how == "foreign node":
            devices["q"] = Device(name="q", kind="ppu", members=[Node("stranger", 0, "", n.runtime_info)])
        elif how == "other rank":
            devices["q"] = Device(name="q", kind="ppu", members=[Node(n.name, (n.rank + 1) % P, n.endpoint, n.runtime_info)])
        else:
            k = P + 3 if how == "rank gap" else (n.rank + 1) % P
            nodes = {x.name: x if x is not n else Node(n.name, k, n.endpoint, n.runtime_info) for x in nodes.values()}
            devices = {}
        make = lambda: ClusterSpec(cluster_id="x", nodes=nodes, devices=devices)  # noqa: E731
        what = f"{how}: {nodes} {devices}"
    else:
        conf = config(r, P)
        names = [n["name"] for n in conf["nodes"]]
        i = r.randrange(P)
        dev = conf["devices"].setdefault(r.choice([*conf["devices"], "new"]), {"kind": "PPU", "members": [names[0]]})
        if how in ("no nodes", "no devices"):
            del conf[how[3:]]
        elif how == "twin nodes":
            conf["nodes"].insert(r.randrange(P + 1), dict(conf["nodes"][i]))
        elif how == "unknown member":
            dev["members"][r.randrange(len(dev["members"]))] = "stranger"
        elif how in ("ppu two", "tee two"):
            dev.update(kind=r.choice([how[:3], how[:3].upper()]), members=r.sample(names, r.randrange(2, P + 1)))
        elif how == "ppu none":
            dev.update(kind=r.choice(["ppu", "PPU"]), members=[])
        elif how == "twin member":
            m = r.sample(names, r.randrange(1, P + 1))
            dev.update(kind="SPU", members=[*m, r.choice(m)])
        elif how in ("no name", "no endpoint"):
            del conf["nodes"][i][how[3:]]
        else:
            del dev[how[3:]]
        make = lambda: ClusterSpec.from_dict(conf)  # noqa: E731
        what = f"{how}: {conf}"
    try:
        got = make()
    except (ValueError, KeyError, TypeError):
        label(how)
        return
    check(False, lambda: f"accepted {what} as {got}")


# ---------------------------------------------------------------- the convenience constructor
@st.composite
def simples(draw):
    return draw(st.integers(1, 8)), draw(st.integers(0, 2**40))


def run_simple(c):
    P, seed = c
    r = random.Random(seed)
    kw = {}
    eps = [f"localhost:{5000 + i}" for i in range(P)]
    binds = [{} for _ in range(P)]
    bad = False
    if r.random() < 0.5:
        eps = [f"http://h{i}:{r.randrange(1, 9999)}" for i in range(P + r.choice([0, 0, 0, 1, -1]))]
        kw["endpoints"] = list(eps)
        bad |= len(eps) != P
    if r.random() < 0.4:
        binds = [{"op": f"k{i}"} for i in range(P + r.choice([0, 0, 0, 1, -1]))]
        kw["op_bindings"] = list(binds)
        bad |= len(binds) != P
    S = P
    if r.random() < 0.4:
        S = kw["spu_world_size"] = r.randrange(1, P + 1)
    proto, field = "SEMI2K", "FM128"
    if r.random() < 0.4:
        proto = kw["spu_protocol"] = r.choice(["ABY3", "REF2K"])
        field = kw["spu_field"] = "FM64"
    ppu, sp = r.random() < 0.8, r.random() < 0.8
    kw["enable_ppu_device"], kw["enable_spu_device"] = ppu, sp
    bad |= not (ppu or sp)
    what = f"simple cluster of {P} with {kw}"
    try:
        spec = ClusterSpec.simple(P, **kw)
    except ValueError as e:
        check(bad, lambda: f"{what} was refused: {e!r}")
        label("refused")
        return
    check(not bad, lambda: f"{what} was accepted")
    check(spec.world_size == P and spec.endpoints == eps, lambda: f"{what}: endpoints {spec.endpoints}")
    check([spec.get_node_by_rank(i).runtime_info.op_bindings for i in range(P)] == binds, lambda: f"{what}: bindings")
    check([(d.name, d.member_ranks) for d in spec.get_devices_by_kind("ppu")] == [(f"P{i}", (i,)) for i in range(P) if ppu], lambda: f"{what}: plain devices")
    check([(d.name, d.member_ranks, spu.SPUConfig.from_dict(d.config).protocol, spu.SPUConfig.from_dict(d.config).field) for d in spec.get_devices_by_kind("spu")] == ([("SP0", tuple(range(S)), proto, field)] if sp else []), lambda: f"{what}: secure device {spec.devices}")
    again(spec, what)


# ---------------------------------------------------------------- settings of secure devices
LINK = {"recv_timeout_ms": [1, 1000, 10**7], "http_timeout_ms": [5, 60000], "http_max_payload_size": [1024, 2**25], "brpc_channel_protocol": ["http", "h2", "baidu_std"],
        "brpc_channel_connection_type": ["pooled", "single"], "connect_retry_times": [1, 9], "connect_retry_interval_ms": [10, 2000]}
FLAGS = ["enable_pphlo_profile", "enable_hal_profile", "enable_pphlo_trace", "enable_action_trace"]


@st.composite
def settings(draw):
    return draw(st.integers(2, 4)), draw(st.integers(0, 2**40))


def run_settings(c):
    P, seed = c
    r = random.Random(seed)

    def one():
        want = {"protocol": "SEMI2K", "field": "FM128", "fxp_fraction_bits": 18, **dict.fromkeys(FLAGS, False)}
        conf, inner = {}, {}
        for k, vs in {"protocol": ["ABY3", "REF2K", "SEMI2K"], "field": ["FM32", "FM64", "FM128"], "fxp_fraction_bits": [8, 26], **{f: [True, False, "true", "False"] for f in FLAGS}}.items():
            for d in (conf, inner):  # the inner one wins
                if r.random() < 0.35:
                    d[k] = r.choice(vs)
                    want[k] = d[k] if k not in FLAGS else str(d[k]).lower() == "true"
        if inner or r.random() < 0.2:
            conf["runtime_config"] = inner or r.choice([{}, None])
        link = {}
        for k, vs in LINK.items():
            if r.random() < 0.35:
                alias = k.removeprefix("brpc_channel_")
                link[alias if r.random() < 0.3 else k] = want["link " + k] = r.choice(vs)
        if link:
            conf["link_desc"] = link
        return conf, want

    def read(cfg):
        out = {k: getattr(cfg, k) for k in ("protocol", "field", "fxp_fraction_bits", *FLAGS)}
        if cfg.link_desc is not None:
            out |= {"link " + k: getattr(cfg.link_desc, k) for k in LINK if getattr(cfg.link_desc, k) is not None}
        return out

    state, seen = SPUState(), {}
    made = []
    import spu.libspu as libspu

    real = libspu.link.create_brpc

    def spy(desc, rank):
        made.append((desc, rank))
        return real(desc, rank)

    default = None
    with mock.patch.object(libspu.link, "create_brpc", spy):
        for _ in range(r.randrange(1, 5)):
            conf, want = one()
            ref = copy.deepcopy(conf)
            cfg = spu.SPUConfig.from_dict(conf)
            check(conf == ref, "reading settings changed them")
            check(read(cfg) == want, lambda: f"settings {conf} were read as {cfg}")
            back = spu.SPUConfig.from_json(json.loads(json.dumps(cfg.to_json())))
            check(back == cfg and hash(back) == hash(cfg), lambda: f"settings {cfg} read back as {back}")
            spec = ClusterSpec.from_dict({"nodes": [{"name": "n", "endpoint": "e"}], "devices": {"S": {"kind": "SPU", "members": ["n"], "config": conf}}})
            spec = ClusterSpec.from_dict(json.loads(json.dumps(spec.to_dict())))
            check(spu.SPUConfig.from_dict(spec.devices["S"].config) == cfg, lambda: f"settings {conf} did not survive in the cluster")
            # the link a worker makes for it
            rank = r.randrange(P)
            eps = [f"10.0.{r.randrange(2)}.{i}:{r.choice([1, 2])}" for i in range(P)]
            rt, io_ = state.get_or_create(rank, P, cfg, eps, parties=list(range(P)))
            d = rt.link.desc
            check([h for _, h in d.parties] == eps and rt.link.rank == rank, lambda: f"link of {conf} at {rank} of {eps} leads to {d.parties}")
            got = {k: getattr(d, k, None) for k in LINK if k != "http_timeout_ms" or hasattr(d, k)}
            for k in LINK:
                if "link " + k in want:
                    check(got.get(k) == want["link " + k], lambda: f"link of {conf} has {k} {got.get(k)}")
                elif k in seen:
                    check(got.get(k) == seen[k], lambda: f"the default of {k} became {got.get(k)} after other links")
                else:
                    seen[k] = got.get(k)
            check(rt.config.protocol == getattr(libspu.ProtocolKind, want["protocol"]) and rt.config.field == getattr(libspu.FieldType, want["field"]), lambda: f"runtime of {conf}")
            check(rt.config.fxp_fraction_bits == want["fxp_fraction_bits"] and all(getattr(rt.config, f) == want[f] for f in FLAGS), lambda: f"runtime of {conf}")
    label("several" if len(made) > 1 else "one")


# ---------------------------------------------------------------- the command line
@st.composite
def commands(draw):
    return draw(st.integers(1, 5)), draw(st.integers(0, 2**40)), draw(st.sampled_from(["gen", "worker config", "worker flags"]))


def cli(*argv):
    """Run the command line; returns (stdout, what the worker was created with)."""
    from mplang import cli as C

    got = {}

    def app(rank, world_size, endpoints, spu_endpoints=None, **kw):
        got.update(rank=rank, world=world_size, endpoints=list(endpoints), spu=spu_endpoints)
        return "app"

    out = io.StringIO()
    with (mock.patch.object(H, "create_worker_app", app), mock.patch.object(uvicorn, "run", lambda a, **kw: got.update(port=kw["port"], app=a)),
          mock.patch.object(signal, "signal", lambda *a: None), mock.patch.object(sys, "argv", ["mplang", *argv]), contextlib.redirect_stdout(out)):
        C.main()
    return out.getvalue(), got


def run_command(c):
    P, seed, how = c
    r = random.Random(seed)
    rank, base = r.randrange(P), r.randrange(1000, 9000)
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "c.yaml")
        if how == "gen":
            sp = r.choice([None, base + 500])
            extra = ["--spu-base-port", str(sp)] if sp else []
            text, _ = cli("config", "gen", "-w", str(P), "-p", str(base), *extra, *r.choice([[], ["-o", f]]))
            if os.path.exists(f):
                with open(f) as fh:
                    text = fh.read()
            spec = ClusterSpec.from_dict(yaml.safe_load(text))
            check(spec.endpoints == [f"127.0.0.1:{base + i}" for i in range(P)], lambda: f"generated endpoints {spec.endpoints}")
            check([d.member_ranks for d in spec.get_devices_by_kind("ppu")] == [(i,) for i in range(P)], lambda: f"generated devices {text}")
            check([d.member_ranks for d in spec.get_devices_by_kind("spu")] == ([tuple(range(P))] if sp else []), lambda: f"generated devices {text}")
            again(spec, "generated cluster")
            return
        ports = [base + 7 * i for i in range(P)]
        hosts = [r.choice(["10.0.0.1", "localhost", "http-gw.local", "h"]) for _ in range(P)]
        schemes = [r.choice(["", "http://", "https://"]) for _ in range(P)]
        eps = [f"{s}{h}:{p}" for s, h, p in zip(schemes, hosts, ports)]
        full = [e if s else "http://" + e for e, s in zip(eps, schemes)]
        spu_on, spu_eps = r.random() < 0.6, None
        args = ["worker", "--rank", str(rank)]
        if how == "worker config":
            names = [f"n{i}" for i in r.sample(range(20), P)]
            conf = {"nodes": [{"name": n, "endpoint": e} for n, e in zip(names, eps)], "devices": {"P": {"kind": "PPU", "members": [names[0]]}}}
            if spu_on:
                conf["devices"]["S"] = {"kind": r.choice(["SPU", "spu"]), "members": names}
            with open(f, "w") as fh:
                yaml.safe_dump(conf, fh)
            args += ["-c", f]
            start = ports[0] + 1000
            if r.random() < 0.5:
                start = r.randrange(10000, 20000)
                args += ["--spu-base-port", str(start)]
            spu_eps = {i: f"{hosts[i]}:{start + i}" for i in range(P)} if spu_on else None
        else:
            args += ["--endpoints", ",".join(eps)]
        if r.random() < 0.3:
            lst = [f"s{i}:{i + 1}" for i in range(P)]
            args += ["--spu-endpoints", ",".join(lst)]
            spu_eps = dict(enumerate(lst))
        _, got = cli(*args)
        want = {"rank": rank, "world": P, "endpoints": full, "spu": spu_eps, "port": ports[rank], "app": "app"}
        check(got == want, lambda: f"{args} with {eps} starts a worker with {got} instead of {want}")
        with contextlib.suppress(ValueError, SystemExit):
            bad = cli(*args[:1], "--rank", str(P + r.randrange(3)), *args[3:])
            check(False, lambda: f"a worker of rank beyond {P} was started: {bad}")
    label(how)


SUBS = [
    Sub("configs", configs, run_config, "descriptions with any names, endpoints, runtime settings, devices of any kind over ordered subsets; every statement found in the cluster, and equal after dict, JSON and YAML; non-trivial = two nodes and two devices",
        nt_config, quick=1500, thorough=80000, shards_quick=2, shards_thorough=8),
    Sub("objects", configs, run_objects, "clusters built from objects, nodes in any order of the mapping; non-trivial = not in rank order",
        nt_objects, quick=800, thorough=30000, shards_quick=1, shards_thorough=4),
    Sub("inconsistent", broken, run_broken, "eighteen kinds of inconsistency put into a valid description; non-trivial = any",
        lambda c: True, quick=1200, thorough=40000, shards_quick=1, shards_thorough=4),
    Sub("simple", simples, run_simple, "the convenience constructor with any arguments, fitting or not; non-trivial = two nodes", lambda c: c[0] > 1, quick=800, thorough=30000, shards_quick=1, shards_thorough=4),
    Sub("settings", settings, run_settings, "settings of secure devices in every accepted spelling, and the links one worker makes for several of them; non-trivial = any", lambda c: True, quick=800, thorough=30000, shards_quick=1, shards_thorough=4),
    Sub("commands", commands, run_command, "config generation and worker start from the command line; non-trivial = two nodes", lambda c: c[0] > 1, quick=500, thorough=15000, shards_quick=1, shards_thorough=4),
]
KNOWN = []
