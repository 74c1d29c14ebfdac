"""Random multi-party programs: a plain-data tree, its reading per party, and the mplang program.

A variable is described by V(kind, parties, at, uni): kind "v" (vector of two int64), "s" (int64),
parties = declared parties (None = not known when built), at = parties that hold it, uni = the same
value at every party. A block is (stmts, outs); statements refer to variables by position in the
environment, which grows by the outputs of each statement.
"""

from __future__ import annotations

import random
from typing import NamedTuple

import numpy as np

from mplang.dialects import simp, tensor
from vf.core import check


class V(NamedTuple):
    kind: str
    parties: tuple | None
    at: frozenset
    uni: bool


def _j(f, *xs):
    return tensor.run_jax(f, *xs)


# name: (argument kinds, output kinds, mplang function, numpy function) ; both take and give flat lists
FNS = {
    "same": ("v", "v", lambda a: [a], lambda a: [a]),
    "inc": ("v", "v", lambda a: [_j(lambda x: x + 1, a)], lambda a: [a + 1]),
    "lin": ("vv", "v", lambda a, b: [_j(lambda x, y: x * 3 - y, a, b)], lambda a, b: [a * 3 - b]),
    "multi": ("vv", "vvv", lambda a, b: [_j(lambda x, y: x + y, a, b), b, _j(lambda x, y: x - y, a, b)], lambda a, b: [a + b, b, a - b]),
    "red": ("v", "s", lambda a: [_j(lambda x: x.sum() % 1009, a)], lambda a: [a.sum() % 1009]),
    "bc": ("vs", "v", lambda a, s: [_j(lambda x, y: x * y + 1, a, s)], lambda a, s: [a * s + 1]),
    "flip": ("v", "v", lambda a: [tensor.concat([tensor.slice_tensor(a, (1,), (2,)), tensor.slice_tensor(a, (0,), (1,))])], lambda a: [a[::-1]]),
    "const": ("", "v", lambda: [tensor.constant(np.array([5, -7]))], lambda: [np.array([5, -7])]),
    "dec": ("s", "s", lambda s: [_j(lambda x: x - 1, s)], lambda s: [s - 1]),
    "adds": ("ss", "s", lambda a, b: [_j(lambda x, y: (x + y) % 1009, a, b)], lambda a, b: [(a + b) % 1009]),
    "three": ("vsv", "vs", lambda a, s, b: [_j(lambda x, y, z: x + y * z, a, s, b), s], lambda a, s, b: [a + s * b, s]),
    "drop": ("v", "", lambda a: [], lambda a: []),
}
PREDS = {"gt": (lambda a, b: a > b), "even": (lambda a, b: (a + b) % 2 == 0), "lt3": (lambda a, b: (a * 7 + b) % 5 < 3)}


def call(name, style, parties, args):
    """pcall of FNS[name]; returns the list of output objects."""
    f = FNS[name][2]
    place = (lambda fn, *a, **k: simp.pcall_dynamic(fn, *a, **k)) if parties is None else (lambda fn, *a, **k: simp.pcall_static(parties, fn, *a, **k))
    if style == "args":
        r = place(lambda *xs: tuple(f(*xs)), *args)
    elif style == "kwargs":
        ks = [f"k{len(args) - i}" for i in range(len(args))]
        r = place(lambda **kw: tuple(f(*[kw[k] for k in ks])), **dict(zip(ks, args)))
    elif style == "closure":
        r = place(lambda: tuple(f(*args)))
    elif style == "nested":
        r = place(lambda d, n: {"z": [f(*d["x"][::-1])], "n": n}, {"x": list(args)[::-1], "c": 3}, 4)
        check(r["n"] == 4, "an immediate was lost")
        return list(r["z"][0])
    elif style == "function":
        import mplang

        r = mplang.function(lambda *xs: tuple(f(*xs)))(*args)
    elif style == "peval":
        r = simp.peval(parties, lambda *xs: tuple(f(*xs)), *args)
    else:  # half by argument, half captured
        k = len(args) // 2
        r = place(lambda *xs: list(f(*xs, *args[k:])), *args[:k])
    return list(r)


STYLES = ["args", "args", "kwargs", "closure", "nested", "half", "peval"]


class Gen:
    def __init__(self, seed, P, dyn=True, control=0, invalid=True, size=8):
        self.r, self.P, self.dyn, self.control, self.invalid, self.size = random.Random(seed), P, dyn, control, invalid, size
        self.all = tuple(range(P))
        self.kinds = set()

    def subset(self, xs):
        xs = sorted(xs)
        return tuple(self.r.sample(xs, self.r.randrange(1, len(xs) + 1)))

    def pick(self, env, kind, ok=lambda v: True, window=None):
        c = [i for i, v in enumerate(env) if v.kind == kind and ok(v)]
        return self.r.choice(c) if c else None

    def common(self, vs):
        """Declared-or-held parties shared by vs (what a static call may use)."""
        s = set(self.all)
        for v in vs:
            s &= set(v.at if v.parties is None else v.parties)
        return s

    def const(self, env, kind, S=None, uniform=None):
        r = self.r
        S = S or self.subset(self.all)
        uniform = r.random() < 0.4 if uniform is None else uniform
        one = [r.randrange(-50, 50) for _ in range(2)]
        vals = {p: (one if uniform else [r.randrange(-50, 50) for _ in range(2)]) for p in S}
        if kind == "s":
            vals = {p: abs(x[0]) for p, x in vals.items()}
        st = ("const", kind, tuple(S), vals, uniform)
        return st, [V(kind, tuple(sorted(S)), frozenset(S), uniform and len(S) == self.P)]

    def fn(self, env, dynamic):
        r = self.r
        name = r.choice(sorted(FNS))
        ak, ok, *_ = FNS[name]
        args = []
        for k in ak:
            # prefer recent and compatible variables
            i = self.pick(env, k, lambda v: bool(self.common([v, *[env[j] for j in args]])))
            if i is None:
                return None
            args.append(i)
        vs = [env[i] for i in args]
        if dynamic:
            at = set(self.all)
            for v in vs:
                at &= v.at
            return ("dyn", name, r.choice(STYLES), tuple(args)), [V(k, None, frozenset(at), len(at) == self.P and all(v.uni for v in vs)) for k in ok]
        may = self.common(vs)
        # a declared set of an unknown-party input does not restrict the call, what is held does
        S = self.subset(may) if r.random() < 0.5 else tuple(sorted(may))
        uni = len(S) == self.P and all(v.uni for v in vs)
        dup = S + S[:1] if r.random() < 0.1 else S
        style = r.choice([*STYLES, "function", "function"] if dup == self.all else STYLES)
        return ("pcall", name, style, tuple(args), dup), [V(k, tuple(sorted(S)), frozenset(S), uni) for k in ok]

    def stmt(self, env, depth, inner):
        r = self.r
        k = r.choice(["const", "pcall", "pcall", "pcall", "shuffle", "shuffle", "converge", "converge"] + (["dyn", "dyn"] if self.dyn and not inner else []) + (["bad"] if self.invalid and not inner else []) + ["cond", "while"] * (self.control if depth > 0 else 0))
        if k == "const":
            return self.const(env, r.choice("vvs"))
        if k in ("pcall", "dyn"):
            return self.fn(env, k == "dyn")
        if k == "shuffle":
            i = r.randrange(len(env))
            v = env[i]
            if not v.at:
                return None
            src = sorted(v.at)
            tgt = self.subset(self.all)
            mode = r.random()
            if mode < 0.25:
                m = dict.fromkeys(self.all, r.choice(src))
            elif mode < 0.45 and len(src) > 1:
                o = r.sample(src, len(src))
                m = dict(zip(o, o[1:] + o[:1]))
            else:
                m = {t: r.choice(src) for t in tgt}
            uni = len(m) == self.P and (len(set(m.values())) == 1 or v.uni)
            return ("shuffle", i, tuple(m.items())), [V(v.kind, tuple(sorted(m)), frozenset(m), uni)]
        if k == "converge":
            kind = r.choice("vs")
            c = [i for i, v in enumerate(env) if v.kind == kind]
            r.shuffle(c)
            got, held = [], set()
            for i in c:
                at = set(env[i].at) | set(env[i].parties or ())
                if not at & held and (at or r.random() < 0.5):
                    got.append(i)
                    held |= at
                if len(got) == 3:
                    break
            if not got:
                return None
            r.shuffle(got)
            unk = any(env[i].parties is None for i in got)
            at = frozenset().union(*[env[i].at for i in got])
            return ("converge", tuple(got)), [V(kind, None if unk else tuple(sorted(at)), at, len(got) == 1 and env[got[0]].uni)]
        if k == "bad":
            i = r.randrange(len(env))
            v = env[i]
            if v.parties is None:
                return None
            out = [p for p in self.all if p not in v.parties]
            what = r.choice(["route-empty", "overlap", "kinds"] + (["route", "place"] if out else []))
            if what == "route":
                m = {t: r.choice(v.parties) for t in self.subset(self.all)}
                m[r.choice(list(m))] = r.choice(out)
                return ("bad", what, i, tuple(m.items())), []
            if what == "place":
                ps = tuple({r.choice(out), *r.sample(v.parties, r.randrange(len(v.parties) + 1))})
                args = [i, *(j for j in r.sample(range(len(env)), r.randrange(min(3, len(env)) + 1)) if env[j].parties is not None)]
                r.shuffle(args)
                return ("bad", what, i, (ps, tuple(args))), []
            if what in ("kinds", "overlap"):
                if what == "kinds":
                    j = self.pick(env, "s" if v.kind == "v" else "v")
                else:
                    j = self.pick(env, v.kind, lambda u: u.parties is not None and set(u.parties) & set(v.parties))
                if j is None:
                    return None
                # further inputs that fit, in between
                args, busy = [i, j], set(v.parties) | set(env[j].parties or ())
                for n in r.sample(range(len(env)), len(env)):
                    u = env[n]
                    if u.kind == v.kind and u.parties is not None and not busy & set(u.parties) and r.random() < 0.8:
                        args.append(n)
                        busy |= set(u.parties)
                r.shuffle(args)
                return ("bad", what, i, tuple(args)), []
            return ("bad", what, i, None), []
        self.kinds.add(k)
        return self.cond(env, depth) if k == "cond" else self.loop(env, depth)

    def restrict(self, env, stmts, sig):
        """Append to a block what makes outputs of the given signature."""
        outs = []
        for kind, S in sig:
            i = self.pick(env, kind, lambda v: v.parties is not None and set(S) <= set(v.parties))
            if i is None:
                st, nv = self.const(env, kind, S)
                stmts.append(st)
                env += nv
                outs.append(len(env) - 1)
                continue
            if env[i].parties != tuple(sorted(S)):
                stmts.append(("pcall", "same" if kind == "v" else "dec", "args", (i,), S))
                env.append(V(kind, tuple(sorted(S)), frozenset(S), False))
                i = len(env) - 1
            outs.append(i)
        return outs

    def block(self, env, n, depth, inner=True):
        stmts = []
        while n > 0:
            n -= 1
            s = self.stmt(env, depth, inner)
            if s is not None:
                stmts.append(s[0])
                env += s[1]
        return stmts

    def uniform(self, env, stmts):
        """Index of a scalar every party agrees on."""
        i = self.pick(env, "s", lambda v: v.uni and v.parties == self.all)
        if i is not None and self.r.random() < 0.7:
            return i
        j = self.pick(env, "s", lambda v: bool(v.at))
        if j is not None and self.r.random() < 0.6:  # what one party holds, told to all
            q = self.r.choice(sorted(env[j].at))
            stmts.append(("shuffle", j, tuple((p, q) for p in self.all)))
        else:
            st, _ = self.const(env, "s", self.all, True)
            stmts.append(st)
        env.append(V("s", self.all, frozenset(self.all), True))
        return len(env) - 1

    def sig(self, env):
        return [(self.r.choice("vvs"), self.subset(self.all)) for _ in range(self.r.randrange(1, 4))]

    def cond(self, env, depth):
        pre = []
        env0 = list(env)
        a, b = self.uniform(env0, pre), self.uniform(env0, pre)
        args = tuple(self.r.randrange(len(env0)) for _ in range(self.r.randrange(0, 3)))
        sig = self.sig(env0)
        branches = []
        for _ in range(2):
            e = env0 + [env0[i] for i in args]
            st = self.block(e, self.r.randrange(0, 5), depth - 1)
            outs = self.restrict(e, st, sig)
            branches.append((st, outs))
        kind = self.r.choice(sorted(PREDS))
        return ("cond", pre, kind, a, b, args, branches, self.r.choice(["flat", "dict", "imm"])), env0[len(env):] + [V(k, tuple(sorted(S)), frozenset(S), False) for k, S in sig]

    def loop(self, env, depth):
        pre = []
        env0 = list(env)
        lim = self.r.randrange(0, 5)
        start = ("const", "s", self.all, dict.fromkeys(self.all, lim), True)
        pre.append(start)
        env0.append(V("s", self.all, frozenset(self.all), True))
        cnt = len(env0) - 1
        cap = self.uniform(env0, pre)
        cand = [i for i, v in enumerate(env0) if v.parties is not None and i != cnt]
        state = [self.r.choice(cand) for _ in range(self.r.randrange(0, 3))] if cand else []
        sig = [(env0[i].kind, env0[i].parties) for i in state]
        e = env0 + [V("s", self.all, frozenset(self.all), True)] + [env0[i]._replace(uni=False) for i in state]
        n = len(env0)
        st = self.block(e, self.r.randrange(0, 5), depth - 1)
        outs = self.restrict(e, st, sig)
        step = self.r.choice(["one", "cap"])
        pos = self.r.randrange(len(state) + 1)  # where the counter stands in the state
        return ("while", pre, cnt, cap, tuple(state), st, outs, step, pos, n, self.r.choice(["list", "dict"])), env0[len(env):] + [V("s", self.all, frozenset(self.all), True)] + [V(k, tuple(sorted(S)), frozenset(S), False) for k, S in sig]

    def program(self):
        env = []
        stmts = []
        for kind in ("v", "s"):
            st, nv = self.const(env, kind, self.all)
            stmts.append(st)
            env += nv
        stmts += self.block(env, self.size, self.control and 2, inner=False)
        return stmts, env


# ---------------------------------------------------------------- reading per party


def ev(stmts, env, log=None):
    """env: list of {party: numpy}; appends the outputs of every statement."""
    for s in stmts:
        k = s[0]
        if log is not None:
            log[k] = log.get(k, 0) + 1
        if k == "const":
            env.append({p: np.array(x) for p, x in s[3].items()})
        elif k in ("pcall", "dyn"):
            args = [env[i] for i in s[3]]
            ps = set(s[4]) if k == "pcall" else (set.intersection(*[set(a) for a in args]) if args else None)
            if ps is None:
                ps = env_all(env)
            res = {p: FNS[s[1]][3](*[a[p] for a in args]) for p in ps}
            for j in range(len(FNS[s[1]][1])):
                env.append({p: np.asarray(x[j]) for p, x in res.items()})
        elif k == "shuffle":
            env.append({t: env[s[1]][q] for t, q in s[2]})
        elif k == "converge":
            env.append({p: x for i in s[1] for p, x in env[i].items()})
        elif k == "cond":
            ev(s[1], env, log)
            _, _, kind, a, b, args, branches, _ = s
            taken = {bool(PREDS[kind](env[a][p], env[b][p])) for p in env[a]}
            assert len(taken) == 1
            (t,) = taken
            if log is not None:
                log[f"then={t}"] = log.get(f"then={t}", 0) + 1
            st, outs = branches[0 if t else 1]
            e = env + [env[i] for i in args]
            ev(st, e, log)
            env += [e[i] for i in outs]
        elif k == "while":
            ev(s[1], env, log)
            _, _, cnt, cap, state, st, outs, step, pos, n, _ = s
            c, vals = env[cnt], [env[i] for i in state]
            base, turns = env[:n], 0
            while next(iter(c.values())) > 0:
                e = base + [c] + vals
                ev(st, e, log)
                vals = [e[i] for i in outs]
                c = {p: x - (1 if step == "one" else 1 + base[cap][p] % 2) for p, x in c.items()}
                turns += 1
            if log is not None:
                log[f"turns={min(turns, 3)}"] = log.get(f"turns={min(turns, 3)}", 0) + 1
            env += [c] + vals
    return env


def env_all(env):
    return set(env[0])


# ---------------------------------------------------------------- the mplang program


def build(stmts, env, types=None):
    for s in stmts:
        k = s[0]
        if k == "const":
            _, kind, S, vals, uniform = s
            if uniform:
                env.append(simp.constant(S, np.array(vals[S[0]])))
            else:
                ps = [simp.constant((p,), np.array(x)) for p, x in vals.items()]
                env.append(ps[0] if len(ps) == 1 else simp.converge(*ps))
        elif k == "pcall":
            env += call(s[1], s[2], s[4], [env[i] for i in s[3]])
        elif k == "dyn":
            env += call(s[1], s[2], None, [env[i] for i in s[3]])
        elif k == "shuffle":
            env.append(simp.shuffle_static(env[s[1]], dict(s[2])))
        elif k == "converge":
            env.append(simp.converge(*[env[i] for i in s[1]]))
        elif k == "bad":
            _, what, i, x = s
            try:
                if what in ("route", "route-empty"):
                    simp.shuffle_static(env[i], dict(x or ()))
                elif what == "place":
                    simp.pcall_static(x[0], lambda *v: v[0], *[env[n] for n in x[1]])
                else:
                    simp.converge(*[env[n] for n in x])
            except (ValueError, TypeError):
                continue
            check(False, f"{what} {x} of a value at {env[i].type} was accepted")
        elif k == "cond":
            build(s[1], env)
            _, _, kind, a, b, args, branches, style = s
            everyone = env[a].type.parties
            pred = simp.pcall_static(everyone, lambda x, y: _j(PREDS[kind], x, y), env[a], env[b])

            def branch(br, outer=tuple(env), style=style):
                st, outs = br

                def f(*xs, **kw):
                    if style == "imm":
                        check(kw == {"imm": 5}, f"immediate arguments became {kw}")
                    e = list(outer) + list(xs)
                    build(st, e)
                    o = [e[i] for i in outs]
                    return {f"o{len(o) - i}": v for i, v in enumerate(o)} if style == "dict" else o

                return f

            xs = [env[i] for i in args]
            r = simp.uniform_cond(pred, branch(branches[0]), branch(branches[1]), *xs, **({"imm": 5} if style == "imm" else {}))
            n = len(branches[0][1])
            env += [r[f"o{n - i}"] for i in range(n)] if style == "dict" else list(r)
        elif k == "while":
            build(s[1], env)
            _, _, cnt, cap, state, st, outs, step, pos, n, style = s
            outer = tuple(env)
            everyone = env[cnt].type.parties
            assert len(outer) == n

            def pack(c, vals, pos=pos, style=style):
                x = vals[:pos] + [c] + vals[pos:]
                return {f"s{9 - i}": v for i, v in enumerate(x)} if style == "dict" else x

            def unpack(x, pos=pos, style=style):
                x = [x[k] for k in sorted(x, reverse=True)] if style == "dict" else list(x)
                return x[pos], x[:pos] + x[pos + 1 :]

            def cond(x, unpack=unpack, everyone=everyone):
                return simp.pcall_static(everyone, lambda c: _j(lambda v: v > 0, c), unpack(x)[0])

            def body(x, unpack=unpack, pack=pack, outer=outer, st=st, outs=outs, step=step, cap=cap, everyone=everyone):
                c, vals = unpack(x)
                e = list(outer) + [c] + vals
                build(st, e)
                if step == "one":
                    c2 = simp.pcall_static(everyone, lambda v: _j(lambda v: v - 1, v), c)
                else:
                    c2 = simp.pcall_static(everyone, lambda v, m: _j(lambda v, m: v - (1 + m % 2), v, m), c, outer[cap])
                return pack(c2, [e[i] for i in outs])

            c, vals = unpack(simp.while_loop(cond, body, pack(env[cnt], [env[i] for i in state])))
            env += [c] + vals
    return env
