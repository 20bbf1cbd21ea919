"""Path-forking symbolic interpreter of exported MIR."""
import json, re, sys, time, os
from math import isqrt
import z3
from sym import *

sys.setrecursionlimit(20000)


class Agg:
    """struct / tuple / enum value / closure / array: v = variant, f = tuple of children"""
    __slots__ = ("v", "f")

    def __init__(self, v, f):
        self.v = v
        self.f = f

    def __repr__(self):
        return "Agg%s%r" % (self.v if self.v else "", self.f)


class VecV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "Vec%r" % (self.f,)


class Big:
    """a value of one of the uint-crate integer types: n 64-bit limbs, x its value"""
    __slots__ = ("n", "x")

    def __init__(self, n, x):
        self.n = n
        self.x = x

    def __repr__(self):
        return "U%d(%r)" % (self.n * 64, self.x)


class StrV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Str(%r)" % (self.s,)


class Opq:
    __slots__ = ("tag", "data")

    def __init__(self, tag, data=None):
        self.tag = tag
        self.data = data

    def __repr__(self):
        return "<%s>" % self.tag


class Ref:
    __slots__ = ("base", "path", "meta")

    def __init__(self, base, path=(), meta=None):
        self.base = base
        self.path = path
        self.meta = meta

    def __repr__(self):
        return "&%s%s%s" % (self.base, list(self.path), "" if self.meta is None else self.meta)


class Tail:
    """a model's answer: call this function instead"""
    __slots__ = ("i", "args")

    def __init__(self, i, args):
        self.i, self.args = i, args


class FnV:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i


class OrdV:
    """a lazily decided core::cmp::Ordering of two numbers (also its discriminant)"""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return "cmp(%r,%r)" % (self.a, self.b)

    def test(self, op, k):
        """this discriminant (-1, 0, 1) <op> k"""
        s = {"Eq": lambda d: d == k, "Ne": lambda d: d != k, "Lt": lambda d: d < k, "Le": lambda d: d <= k,
             "Gt": lambda d: d > k, "Ge": lambda d: d >= k}[op]
        v = (s(-1), s(0), s(1))
        a, b = self.a, self.b
        return {(0, 0, 0): False, (1, 1, 1): True, (1, 0, 0): lt(a, b), (0, 1, 0): eq(a, b), (0, 0, 1): lt(b, a),
                (1, 1, 0): le(a, b), (0, 1, 1): le(b, a), (1, 0, 1): bnot(eq(a, b))}[tuple(map(int, v))]


class Cor:
    __slots__ = ("v", "f", "s")

    def __init__(self, v, f, s):
        self.v, self.f, self.s = v, f, s


UNIT = Agg(0, ())


def some(v):
    return Agg(1, (v,))


NONE = Agg(0, ())


def ok(v):
    return Agg(0, (v,))


def err(v):
    return Agg(1, (v,))


class Frame:
    __slots__ = ("fid", "fn", "bb", "si", "dest", "target", "destfid", "post")

    def __init__(self, fid, fn, bb, si, dest, target, destfid, post=None):
        self.fid, self.fn, self.bb, self.si = fid, fn, bb, si
        self.dest, self.target, self.destfid, self.post = dest, target, destfid, post

    def copy(self):
        return Frame(self.fid, self.fn, self.bb, self.si, self.dest, self.target, self.destfid, self.post)


class State:
    def __init__(self, ctx):
        self.ctx = ctx
        self.mem = {}
        self.stack = []
        self.heap = {}
        self.statics = {}
        self.iv = {}
        self.neq = set()
        self.kn = {}
        self.facts = []
        self.vset = set()
        self.blist = []
        self.softs = []
        self.env = {}
        self.counts = {}
        self.catch = []
        self.nfid = 0
        self.steps = 0
        self.undo = []
        self.prods = ()
        self.events = ()
        self.hintmul = ()

    def copy(self):
        s = State.__new__(State)
        s.ctx = self.ctx
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.stack = [f.copy() for f in self.stack]
        s.heap = dict(self.heap)
        s.statics = dict(self.statics)
        s.iv = dict(self.iv)
        s.neq = set(self.neq)
        s.kn = dict(self.kn)
        s.facts = list(self.facts)
        s.vset = set(self.vset)
        s.blist = list(self.blist)
        s.softs = list(self.softs)
        s.env = dict(self.env)
        s.counts = dict(self.counts)
        s.catch = list(self.catch)
        s.nfid = self.nfid
        s.steps = self.steps
        s.undo = []
        s.prods = self.prods
        s.events = self.events
        s.hintmul = self.hintmul
        return s

    # ------------------------------------------------------------ knowledge
    def use(self, vid):
        if vid in self.vset:
            return
        todo = [vid]
        while todo:
            v = todo.pop()
            if v in self.vset:
                continue
            self.vset.add(v)
            vv = self.ctx.vars[v]
            todo.extend(vv.deps)
            self.facts.extend(vv.facts)

    def interval(self, x):
        if isinstance(x, int):
            return x, x
        return self.ctx._iv(x, self)

    def ev3(self, b):
        if isinstance(b, bool):
            return b
        op = b.op
        if op == "le":
            lo, hi = self.ctx._ivt(b.a, self)
            if hi is not None and hi <= b.k:
                return True
            if lo is not None and lo > b.k:
                return False
            return None
        if op == "eq":
            lo, hi = self.ctx._ivt(b.a, self)
            if (hi is not None and hi < b.k) or (lo is not None and lo > b.k):
                return False
            if lo is not None and lo == hi:
                return lo == b.k
            if (b.a, b.k) in self.neq:
                return False
            return None
        if op == "not":
            r = self.ev3(b.a)
            return None if r is None else not r
        r = self.kn.get(b)
        if r is not None:
            return r
        if op == "and":
            res = True
            for x in b.a:
                r = self.ev3(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        raise Unsup("bool op " + op)

    def learn(self, b, pol=True):
        """record b (or its negation) as known; the z3 fact is added by assume()"""
        if isinstance(b, bool):
            return
        if b.op == "not":
            return self.learn(b.a, not pol)
        if b.op == "le":
            lo, hi = self.iv.get(b.a, (None, None))
            if pol:
                if hi is None or b.k < hi:
                    self.iv[b.a] = (lo, b.k)
                    self.derive(b.a, None, b.k)
            elif lo is None or b.k + 1 > lo:
                self.iv[b.a] = (b.k + 1, hi)
                self.derive(b.a, b.k + 1, None)
        elif b.op == "eq":
            if pol:
                self.iv[b.a] = (b.k, b.k)
                self.derive(b.a, b.k, b.k)
            else:
                self.neq.add((b.a, b.k))
                lo, hi = self.ctx._ivt(b.a, self)
                if lo == b.k:
                    self.iv[b.a] = (b.k + 1, hi)
                elif hi == b.k:
                    self.iv[b.a] = (lo, b.k - 1)
        elif b.op == "and":
            self.kn[b] = pol
            if pol:
                for x in b.a:
                    self.learn(x)
        else:
            self.kn[b] = pol

    def learnle(self, l, k):
        """l <= k"""
        self.learn(le(self.fixed(l), k))

    def fixed(self, l):
        """l with the variables fixed by the path replaced"""
        if isinstance(l, int):
            return l
        c, t = l.c, None
        for i, (v, k) in enumerate(l.t):
            e = self.iv.get(((v, 1),))
            lo, hi = self.ctx.vars[v].lo, self.ctx.vars[v].hi
            if e is not None:
                lo, hi = imax(lo, e[0]), imin(hi, e[1])
            if lo is not None and lo == hi:
                if t is None:
                    t = list(l.t[:i])
                c += k * lo
            elif t is not None:
                t.append((v, k))
        if t is None:
            return l
        return Lin(tuple(t), c) if t else c

    def derive(self, t, lo, hi):
        """consequences of lo <= t <= hi through the definition of a single variable"""
        if len(t) != 1 or t[0][1] != 1:
            return
        v = self.ctx.vars[t[0][0]]
        ev = v.ev
        if ev is None:
            return
        if ev[0] == "div" and isinstance(ev[2], int):
            if hi is not None:
                self.learn(le(ev[1], ev[2] * (hi + 1) - 1))
            if lo is not None and (v.lo is None or lo > v.lo):
                self.learn(le(ev[2] * lo, ev[1]))
        elif ev[0] == "div" and isinstance(ev[1], int) and isinstance(ev[2], Lin):
            # a constant over an unknown (positive) divisor
            if ev[1] >= 0:
                if hi is not None and hi >= 0:
                    self.learn(le(ev[1] // (hi + 1) + 1, ev[2]))
                if lo is not None and lo > 0:
                    self.learn(le(ev[2], ev[1] // lo))
        elif ev[0] == "mono" and len(ev[1]) == 2 and ev[1][0] == ev[1][1]:
            # a square between two bounds: so is its root
            x = ev[1][0]
            xl, xh = self.interval(Lin(((x, 1),), 0))
            if xl is not None and xl >= 0:
                if hi is not None and hi >= 0:
                    self.learn(le(Lin(((x, 1),), 0), isqrt(hi)))
                if lo is not None and lo > 0:
                    self.learn(le(isqrt(lo - 1) + 1, Lin(((x, 1),), 0)))
        elif ev[0] == "bit" and ev[1] == "BitOr" and hi == 0:
            leaves, todo = [], [ev[2], ev[3]]
            while todo:
                x = todo.pop()
                if isinstance(x, Lin) and len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0:
                    e2 = self.ctx.vars[x.t[0][0]].ev
                    if e2 is not None and e2[0] == "bit" and e2[1] == "BitOr":
                        todo += [e2[2], e2[3]]
                        continue
                leaves.append(x)
            # the highest limb first: it simplifies the others
            while leaves:
                rest, one = [], False
                for x in leaves:
                    f = self.fixed(x)
                    if isinstance(f, Lin) and len(f.t) > 1:
                        rest.append(x)
                    else:
                        one = True
                        self.learn(le(f, 0))
                if not one:
                    for x in rest:
                        self.learnle(x, 0)
                    break
                leaves = rest

    def assume(self, b):
        if b is True:
            return
        self.learn(b)
        self.blist.append(b)
        self.facts.append(self.ctx.bz(b))

    # ------------------------------------------------------------ memory
    def root(self, base):
        k = base[0]
        if k == "L":
            return self.mem[base[1]].get(base[2])
        if k == "H":
            return self.heap.get(base[1])
        if k == "S":
            return self.statics[base[1]]
        raise Unsup("base %r" % (base,))

    def setroot(self, base, v):
        k = base[0]
        if k == "L":
            d = self.mem[base[1]]
            key = base[2]
        elif k == "H":
            d = self.heap
            key = base[1]
        elif k == "S":
            d = self.statics
            key = base[1]
        else:
            raise Unsup("write to %r" % (base,))
        self.undo.append((d, key, d.get(key, d)))
        d[key] = v

    def rollback(self):
        for d, k, v in reversed(self.undo):
            if v is d:
                d.pop(k, None)
            else:
                d[k] = v
        self.undo.clear()

    def new_heap(self, v):
        i = len(self.heap) + 1
        self.undo.append((self.heap, i, self.heap))
        self.heap[i] = v
        return ("H", i)


BIGRE = re.compile(r"^(?:primitive_types|decimal::uint|decimal::[a-z_:]*)::U(128|192|256|320|384|448|512)$")


# functions a harness may have replaced by their contract: set_env("stub_...", 1)
STUBS = {"math::log::get_tick_at_sqrt_price": "stub_tick", "invariant_vara_wasm::log::get_tick_at_sqrt_price": "stub_sdk_tick",
         "math::clamm::compute_swap_step": "stub_step"}


class Engine:
    def __init__(self, data, log=None, opts=None):
        self.fns = data["fns"]
        self.tys = {int(k): v for k, v in data["tys"].items()}
        self.allocs = data["allocs"]
        self.staticsd = data["statics"]
        self.roots = data["roots"]
        self.opts = opts or {}
        self.ctx = Ctx()
        self.lia = Lia(int(self.opts.get("feas_ms", 400)))
        self.constcache = {}
        self.log = log or (lambda *a: None)
        self.called = set()
        self.modelled = set()
        self.concrete = None
        self.cut = {}
        self.pure = {}
        self.rustcall = True
        for i, f in enumerate(self.fns):
            f["_i"] = i
        self.big = {}
        for k, t in self.tys.items():
            if t["k"] == "adt":
                m = BIGRE.match(t["n"])
                if m:
                    self.big[k] = int(m.group(1)) // 64
        self.placecache = {}
        self.constfresh = 0
        import models
        self.models = models.Models(self)
        self.lincache = {}

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.tys[i]

    def pointee(self, i):
        t = self.tys[i]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t["k"] == "adt" and t["n"] == "alloc::boxed::Box":
            return t["a"][0]
        raise Unsup("deref of " + str(t)[:100])

    def intty(self, i):
        t = self.tys[i]
        if t["k"] == "int":
            return t["w"], t["s"]
        if t["k"] == "bool":
            return 1, False
        if t["k"] == "char":
            return 32, False
        if t["k"] in ("ptr", "ref"):
            return 64, False
        raise Unsup("not an integer type: " + str(t)[:100])

    # ------------------------------------------------------------ places
    def cplace(self, fn, p):
        """compile a place: (local, ops); ops: ('*',) ('f', i) ('fv', variant, i) ('i', local) ..."""
        if isinstance(p, int):
            return p, ()
        key = id(p)
        r = self.placecache.get(key)
        if r is not None:
            return r
        local, proj = p
        t = fn["locals"][local]
        ops = []
        var = None
        for e in proj:
            td = self.tys.get(t, {"k": "other"}) if t is not None else {"k": "other"}
            if e == "*":
                ops.append(("*",))
                t = self.pointee(t)
                var = None
                continue
            k = e[0]
            if k == "f":
                i = e[1]
                if td["k"] == "adt" and td.get("union"):
                    ops.append(("f", 0, 1))
                elif td["k"] == "coroutine" and var is not None:
                    ops.append(("f", (var, i), 0))
                else:
                    n = 0
                    if td["k"] == "adt" and not td["en"] and td["v"]:
                        n = len(td["v"][0]["f"])
                    elif td["k"] == "adt" and td["v"] and var is not None:
                        n = len(td["v"][var]["f"])
                    elif td["k"] == "tuple":
                        n = len(td["f"])
                    ops.append(("f", i, n, var or 0))
                t = e[2]
                var = None
            elif k == "d":
                var = e[1]
            elif k == "i":
                ops.append(("i", e[1]))
                t = td.get("e")
            elif k == "ci":
                ops.append(("ci", e[1], e[2], e[3]))
                t = td.get("e")
            elif k == "ss":
                ops.append(("ss", e[1], e[2], e[3]))
                if td["k"] == "array":
                    t = None
            elif k == "oc":
                pass
        r = (local, tuple(ops), t)
        r = (local, tuple(ops))
        self.placecache[key] = r
        self.keep = getattr(self, "keep", [])
        self.keep.append(p)
        return r

    def locate(self, st, fr, p):
        """place -> (base, path, meta)"""
        local, ops = self.cplace(fr.fn, p)
        base, path, meta = ("L", fr.fid, local), (), None
        for o in ops:
            k = o[0]
            if k == "*":
                v = self.read(st, base, path)
                if isinstance(v, Agg) and len(v.f) >= 1:  # Box
                    while isinstance(v, Agg):
                        v = v.f[0]
                if not isinstance(v, Ref):
                    raise Unsup("deref of %r in %s" % (v, fr.fn["def"]))
                base, path, meta = v.base, v.path, v.meta
            elif k == "f":
                path = path + (o[1],)
                meta = None
            elif k == "i":
                idx = self.conc(st, st.mem[fr.fid][o[1]])
                if meta is not None and meta[0] != "dyn":
                    idx += meta[0]
                path = path + (idx,)
                meta = None
            elif k == "ci":
                n = meta[1] if meta is not None else self.seqlen(self.read(st, base, path))
                idx = n - o[1] if o[3] else o[1]
                if meta is not None:
                    idx += meta[0]
                path = path + (idx,)
                meta = None
            elif k == "ss":
                n = meta[1] if meta is not None else self.seqlen(self.read(st, base, path))
                s0 = meta[0] if meta is not None else 0
                to = n - o[2] if o[3] else o[2]
                meta = (s0 + o[1], to - o[1])
        return base, path, meta

    def seqlen(self, v):
        if isinstance(v, (Agg, VecV)):
            return len(v.f)
        raise Unsup("length of %r" % (v,))

    def child(self, v, s):
        if isinstance(v, Agg) or isinstance(v, VecV):
            if s >= len(v.f):
                raise Unsup("field %r of %r" % (s, v))
            return v.f[s]
        if isinstance(v, Big):
            if s == 0:
                return Agg(0, self.limbs(v))
            raise Unsup("field of Big")
        if isinstance(v, Cor):
            if isinstance(s, tuple):
                return v.s.get(s)
            return v.f[s]
        if v is None:
            raise Unsup("read of uninitialised memory")
        if isinstance(v, Opq):
            return Opq(v.tag + "." + str(s), v.data)
        raise Unsup("child %r of %r" % (s, v))

    def read(self, st, base, path):
        if base[0] == "V":
            v = base[1]
        else:
            v = st.root(base)
        self._st = st
        for s in path:
            v = self.child(v, s)
        return v

    def setpath(self, st, v, path, x, i=0):
        if i == len(path):
            return x
        s = path[i]
        if v is None:
            if isinstance(s, tuple):
                raise Unsup("write into uninitialised coroutine")
            v = Agg(0, (None,) * (s + 1))
        if isinstance(v, Agg):
            f = v.f
            if s >= len(f):
                f = f + (None,) * (s + 1 - len(f))
            return Agg(v.v, f[:s] + (self.setpath(st, f[s], path, x, i + 1),) + f[s + 1:])
        if isinstance(v, VecV):
            f = v.f
            return VecV(f[:s] + (self.setpath(st, f[s], path, x, i + 1),) + f[s + 1:])
        if isinstance(v, Big):
            a = Agg(0, self.limbs(v))
            a = self.setpath(st, a, path, x, i + 1)
            return self.frombig(v.n, a.f)
        if isinstance(v, Cor):
            if isinstance(s, tuple):
                d = dict(v.s)
                d[s] = self.setpath(st, d.get(s), path, x, i + 1)
                return Cor(v.v, v.f, d)
            return Cor(v.v, v.f[:s] + (self.setpath(st, v.f[s], path, x, i + 1),) + v.f[s + 1:], v.s)
        raise Unsup("write into %r" % (v,))

    def write(self, st, base, path, x):
        if not path:
            st.setroot(base, x)
        else:
            st.setroot(base, self.setpath(st, st.root(base), path, x))

    def window(self, v, meta):
        """the array a pointer into a longer sequence stands for"""
        if meta is None or meta[0] == "dyn" or not isinstance(v, (VecV, Agg)):
            return v
        if isinstance(v, Big):
            v = Agg(0, self.limbs(v))
        return v if meta == (0, len(v.f)) else Agg(0, v.f[meta[0]:meta[0] + meta[1]])

    def deref(self, st, r):
        """value a Ref points to; slices come back as a tuple of elements"""
        v = self.read(st, r.base, r.path)
        return self.window(v, r.meta)

    def elems(self, st, r):
        """elements of a slice reference (or of a reference to an array / Vec)"""
        v = self.read(st, r.base, r.path)
        if isinstance(v, Big):
            v = Agg(0, self.limbs(v))
        if not isinstance(v, (Agg, VecV)):
            raise Unsup("elements of %r" % (v,))
        if r.meta is not None:
            return v.f[r.meta[0]:r.meta[0] + r.meta[1]]
        return v.f

    # ------------------------------------------------------------ numbers
    def newvar(self, st, name, lo, hi, deps=()):
        vid = self.ctx.new_var(name, lo, hi, None, deps)
        st.use(vid)
        return Lin(((vid, 1),), 0)

    def name(self, st, l):
        """a variable equal to l"""
        if isinstance(l, int) or (len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0):
            return l
        key = ("name", l)
        r = self.ctx.memo.get(key)
        if r is None:
            lo, hi = self.ctx.interval(l)
            vid = self.ctx.new_var("n", lo, hi, None, [v for v, _ in l.t])
            self.ctx.vars[vid].ev = ("lin", l)
            r = Lin(((vid, 1),), 0)
            self.ctx.vars[vid].facts.append(self.ctx.z(sub(l, r)) == 0)
            self.ctx.memo[key] = r
        st.use(r.t[0][0])
        return r

    def monovar(self, vids):
        """variable id of a product of base variables"""
        if len(vids) == 1:
            return vids[0]
        ctx = self.ctx
        m = ctx.mono.get(vids)
        if m is not None:
            return m
        x = self.monovar(vids[:-1])
        y = vids[-1]
        X, Y = ctx.vars[x], ctx.vars[y]
        if None in (X.lo, X.hi, Y.lo, Y.hi):
            lo = 0 if (X.lo is not None and X.lo >= 0 and Y.lo is not None and Y.lo >= 0) else None
            hi = None
        else:
            c = [X.lo * Y.lo, X.lo * Y.hi, X.hi * Y.lo, X.hi * Y.hi]
            lo, hi = min(c), max(c)
            # (bounds far beyond every integer type are of no use, and grow with each product)
            if hi > 1 << 2048:
                hi = None
                lo = min(lo, 1 << 2048)
            if lo < -(1 << 2048):
                lo = None
        if x == y:
            lo = imax(lo, 0)
        m = ctx.new_var("m", lo, hi, vids, (x, y))
        M = ctx.vars[m]
        M.ev = ("mono", vids)
        M.nl = M.z == X.z * Y.z
        if X.lo is not None and Y.lo is not None:
            M.facts.append(M.z >= X.lo * Y.z + Y.lo * X.z - X.lo * Y.lo)
        if X.hi is not None and Y.hi is not None:
            M.facts.append(M.z >= X.hi * Y.z + Y.hi * X.z - X.hi * Y.hi)
        if X.lo is not None and Y.hi is not None:
            M.facts.append(M.z <= X.lo * Y.z + Y.hi * X.z - X.lo * Y.hi)
        if X.hi is not None and Y.lo is not None:
            M.facts.append(M.z <= X.hi * Y.z + Y.lo * X.z - X.hi * Y.lo)
        ctx.mono[vids] = m
        return m

    def base(self, v):
        m = self.ctx.vars[v].mono
        return m if m is not None else (v,)

    def mul(self, st, a, b):
        if isinstance(a, int):
            return scale(b, a)
        if isinstance(b, int):
            return scale(a, b)
        a = self.simp(st, a)
        b = self.simp(st, b)
        if isinstance(a, int):
            return scale(b, a)
        if isinstance(b, int):
            return scale(a, b)
        if len(a.t) * len(b.t) > 60:
            if len(a.t) > 6:
                a = self.name(st, a)
            if len(b.t) > 6:
                b = self.name(st, b)
        d = {}
        for v, k in a.t:
            bv = self.base(v)
            for w, j in b.t:
                m = self.monovar(tuple(sorted(bv + self.base(w))))
                st.use(m)
                d[m] = d.get(m, 0) + k * j
        if b.c:
            for v, k in a.t:
                d[v] = d.get(v, 0) + k * b.c
        if a.c:
            for w, j in b.t:
                d[w] = d.get(w, 0) + j * a.c
        r = mk(d, a.c * b.c)
        # interval of the product from the intervals of the factors
        (al, ah), (bl, bh) = self.ctx.interval(a), self.ctx.interval(b)
        if None not in (al, ah, bl, bh) and not isinstance(r, int):
            c = [al * bl, al * bh, ah * bl, ah * bh]
            self.ctx.settb(r, min(c), max(c))
        return r

    def refine(self, st, l, lo, hi):
        """record path knowledge lo <= l <= hi that follows from what is known"""
        if isinstance(l, int) or (lo is None and hi is None):
            return
        t, g, s, c = norm(l)
        if s > 0:
            a = None if lo is None else -((c - lo) // g)
            b = None if hi is None else (hi - c) // g
        else:
            a = None if hi is None else -((hi - c) // g)
            b = None if lo is None else (c - lo) // g
        e = st.iv.get(t)
        if e is not None:
            a, b = imax(a, e[0]), imin(b, e[1])
        st.iv[t] = (a, b)

    def addr(self, st, a, b):
        r = add(a, b)
        if isinstance(r, Lin) and len(r.t) > 1 and not isinstance(a, int) and not isinstance(b, int):
            (al, ah), (bl, bh) = st.interval(a), st.interval(b)
            self.refine(st, r, None if al is None or bl is None else al + bl, None if ah is None or bh is None else ah + bh)
        return r

    def subr(self, st, a, b):
        r = sub(a, b)
        if isinstance(r, Lin) and len(r.t) > 1 and not isinstance(a, int) and not isinstance(b, int):
            (al, ah), (bl, bh) = st.interval(a), st.interval(b)
            self.refine(st, r, None if al is None or bh is None else al - bh, None if ah is None or bl is None else ah - bl)
        return r

    def mulr(self, st, a, b):
        r = self.mul(st, a, b)
        if isinstance(r, Lin) and isinstance(a, Lin) and isinstance(b, Lin):
            (al, ah), (bl, bh) = st.interval(a), st.interval(b)
            if None not in (al, ah, bl, bh):
                c = (al * bl, al * bh, ah * bl, ah * bh)
                self.refine(st, r, min(c), max(c))
            elif al is not None and bl is not None and al >= 0 and bl >= 0:
                self.refine(st, r, al * bl, None)
        return r

    def simp(self, st, l):
        """replace variables fixed by the path by their value"""
        if isinstance(l, int):
            return l
        l = st.fixed(l)
        lo, hi = st.interval(l)
        if lo is not None and lo == hi:
            return lo
        return l

    def fdiv(self, st, a, b):
        """floor(a / b) for b known positive"""
        b = self.simp(st, b)
        a = self.simp(st, a)
        ctx = self.ctx
        if isinstance(b, int):
            if isinstance(a, int):
                return a // b
            if b == 1:
                return a
            q0 = []
            rest = []
            for v, k in a.t:
                if k % b == 0:
                    q0.append((v, k // b))
                else:
                    rest.append((v, k))
            q = Lin(tuple(q0), 0) if q0 else 0
            if not rest:
                return add(q, a.c // b)
            q = add(q, a.c // b)
            r = Lin(tuple(rest), a.c % b)
            if r.c == 0 and len(r.t) == 1 and r.t[0][1] == 1:
                ev = ctx.vars[r.t[0][0]].ev
                if ev is not None and ev[0] == "div" and isinstance(ev[2], int):
                    return add(q, self.fdiv(st, ev[1], ev[2] * b))
            lo, hi = st.interval(r)
            if lo is not None and hi is not None and lo // b == hi // b:
                return add(q, lo // b)
            # common factor: floor(g*x + c / g*y) = floor((x + floor(c/g)) / y)
            key = ("div", r, b)
            qv = ctx.memo.get(key)
            if qv is None:
                glo, ghi = ctx.interval(r)
                vid = ctx.new_var("q", None if glo is None else glo // b, None if ghi is None else ghi // b, None, [v for v, _ in r.t])
                V = ctx.vars[vid]
                V.ev = ("div", r, b)
                qv = Lin(((vid, 1),), 0)
                rem = sub(r, scale(qv, b))
                V.facts.append(ctx.z(rem) >= 0)
                V.facts.append(ctx.z(rem) <= b - 1)
                ctx.settb(rem, 0, b - 1)
                ctx.memo[key] = qv
            st.use(qv.t[0][0])
            self.qbounds(st, qv, None if lo is None else lo // b, None if hi is None else hi // b, False)
            return add(q, qv)
        # symbolic divisor
        if a == b:
            return 1
        if a == 0:
            return 0
        if len(b.t) == 1 and b.t[0][1] == 1 and b.c == 0 and isinstance(a, Lin) and a.c == 0:
            bv = self.base(b.t[0][0])
            d = {}
            for v, k in a.t:
                m = list(self.base(v))
                try:
                    for x in bv:
                        m.remove(x)
                except ValueError:
                    d = None
                    break
                if not m:
                    d[None] = d.get(None, 0) + k
                else:
                    mv = self.monovar(tuple(m))
                    st.use(mv)
                    d[mv] = d.get(mv, 0) + k
            if d is not None:
                c = d.pop(None, 0)
                return mk(d, c)
        if isinstance(a, Lin) and not isinstance(b, int):
            # both divisible by a common constant
            g = 0
            from math import gcd
            for _, k in b.t:
                g = gcd(g, abs(k))
            g = gcd(g, abs(b.c))
            if g > 1:
                b1 = Lin(tuple((v, k // g) for v, k in b.t), b.c // g)
                return self.fdiv(st, self.fdiv(st, a, g), b1)
            # floor(floor(n/d) / b) = floor(n / (d b)) is applied only for constant d above
        # one variable per division; its bounds hold wherever the operands are in the ranges it was made for
        key = ("div", a, b)
        qv = None
        ra, rb = self.within(st, a), self.within(st, b)
        for ca, cb, x in ctx.memo.get(key, ()):
            if (ca is None or (ra is not None and ra <= ca)) and (cb is None or (rb is not None and rb <= cb)):
                if qv is None or x.t[0][0] in st.vset:
                    qv = x
        if qv is None:
            (al, ah), (bl, bh) = ctx.interval(a), ctx.interval(b)
            ca, cb = self.missing(al, ah, ra), self.missing(bl, bh, rb)
            if ca is not None:
                al, ah = imax(al, 0), imin(ah, (1 << ca) - 1)
            if cb is not None:
                bl, bh = imax(bl, 0), imin(bh, (1 << cb) - 1)
            bl = max(1, bl if bl is not None else 1)
            if bh is not None:
                bh = max(1, bh)
            lo = None if al is None else (0 if al >= 0 and bh is None else al // (bh if al >= 0 else bl))
            hi = None if ah is None else (ah // bl if ah >= 0 else (-1 if bh is None else ah // bh))
            deps = [v for v, _ in (a.t if isinstance(a, Lin) else ())] + [v for v, _ in b.t]
            vid = ctx.new_var("q", lo, hi, None, deps)
            V = ctx.vars[vid]
            V.ev = ("div", a, b)
            qv = Lin(((vid, 1),), 0)
            st.use(vid)
            p = self.mul(st, qv, b)
            rem = sub(a, p)
            # valid when b >= 1, which holds on every path that gets here
            V.facts.append(ctx.z(rem) >= 0)
            V.facts.append(ctx.z(sub(rem, b)) <= -1)
            if bh is not None:
                ctx.settb(rem, 0, bh - 1)
            ctx.settb(sub(rem, b), None, -1)
            st.facts.extend(V.facts[-2:])
            pt = p.t if isinstance(p, Lin) else ()
            V.deps = tuple(V.deps) + tuple(v for v, _ in pt if v != vid)
            for v, _ in pt:
                st.use(v)
            ctx.divs.append((qv, a, b))
            ctx.memo.setdefault(key, []).append((ca, cb, qv))
        st.use(qv.t[0][0])
        (al, ah), (bl, bh) = st.interval(a), st.interval(b)
        bl = max(1, bl if bl is not None else 1)
        lo = None if al is None else (0 if al >= 0 and bh is None else al // (bh if al >= 0 else bl))
        hi = None if ah is None else (ah // bl if ah >= 0 else (-1 if bh is None else ah // bh))
        self.qbounds(st, qv, lo, hi, True)
        return qv

    def qbounds(self, st, qv, lo, hi, fact):
        """path-specific bounds of a quotient"""
        v = qv.t[0][0]
        V = self.ctx.vars[v]
        e = st.iv.get(qv.t, (None, None))
        nlo, nhi = imax(e[0], lo), imin(e[1], hi)
        if (nlo, nhi) == e:
            return
        if nlo is not None and (V.lo is None or nlo > V.lo) and nlo != e[0] or nhi is not None and (V.hi is None or nhi < V.hi) and nhi != e[1]:
            st.iv[qv.t] = (nlo, nhi)
            if fact:
                if nlo is not None:
                    st.facts.append(V.z >= nlo)
                if nhi is not None:
                    st.facts.append(V.z <= nhi)

    def fmod(self, st, a, b):
        return sub(a, self.mul(st, self.fdiv(st, a, b), b))

    def rng(self, w, s):
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)

    def inrange(self, st, l, lo, hi):
        return band(le(lo, l), le(l, hi))

    def wrap(self, st, l, w, s):
        """two's complement truncation"""
        lo, hi = self.rng(w, s)
        a, b = st.interval(l)
        if isinstance(l, int):
            x = l & ((1 << w) - 1)
            return x - (1 << w) if s and x >> (w - 1) else x
        if a is not None and b is not None and a >= lo and b <= hi:
            return l
        if s:
            return sub(self.fmod(st, add(l, 1 << (w - 1)), 1 << w), 1 << (w - 1))
        return self.fmod(st, l, 1 << w)

    def within(self, st, l):
        """the least of some widths in bits that the path keeps l to, None if it may be negative"""
        lo, hi = (l, l) if isinstance(l, int) else st.interval(l)
        if lo is None or hi is None or lo < 0:
            return None
        for k in (64, 128, 256, 384, 448, 512, 1024):
            if hi < 1 << k:
                return k
        return None

    def missing(self, lo, hi, r):
        """the width to rely on where the interval known everywhere is open or may be negative"""
        return r if r is not None and (lo is None or hi is None or lo < 0 or hi >= 1 << r) else None

    def limbs(self, v):
        st = self._st
        if isinstance(v.x, int):
            return tuple((v.x >> (64 * i)) & ((1 << 64) - 1) for i in range(v.n))
        out = []
        r = v.x
        for i in range(v.n - 1):
            nx = self.fdiv(st, r, 1 << 64)
            out.append(sub(r, scale(nx, 1 << 64)))
            r = nx
        out.append(r)
        return tuple(out)

    def frombig(self, n, limbs):
        x = 0
        for i, l in enumerate(limbs):
            x = add(x, scale(l, 1 << (64 * i)))
        if isinstance(x, Lin):
            # knowledge of this path only: another path may not have established that the difference is non-negative
            self.refine(self._st, x, 0, (1 << (64 * n)) - 1)
        return Big(n, x)

    def b2i(self, st, b):
        if isinstance(b, bool):
            return 1 if b else 0
        r = st.ev3(b)
        if r is not None:
            return 1 if r else 0
        # an indicator variable created by any::<bool>
        if b.op == "not" and b.a.op == "le" and b.a.k == 0 and len(b.a.a) == 1 and b.a.a[0][1] == 1:
            v = self.ctx.vars[b.a.a[0][0]]
            if v.lo == 0 and v.hi == 1:
                return Lin(b.a.a, 0)
        key = ("b2i", b)
        l = self.ctx.memo.get(key)
        if l is None:
            vid = self.ctx.new_var("b", 0, 1)
            l = Lin(((vid, 1),), 0)
            self.ctx.vars[vid].ev = ("b01", b)
            self.ctx.vars[vid].facts.append(self.ctx.bz(b) == (self.ctx.vars[vid].z == 1))
            self.ctx.memo[key] = l
        st.use(l.t[0][0])
        return l

    def bitseg(self, st, x, i, n):
        """(x >> i) mod 2^n of a non-negative x"""
        h = self.fdiv(st, x, 1 << i)
        return sub(h, scale(self.fdiv(st, h, 1 << n), 1 << n))

    def runs(self, m):
        i = 0
        out = []
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1:
                    j += 1
                out.append((i, j - i))
                i = j
            else:
                i += 1
        return out

    def bitop(self, st, op, a, b, w, s):
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, B) or isinstance(b, B):
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            return bnot(biff(a, b))
        a, b = self.simp(st, a), self.simp(st, b)
        if isinstance(a, int) and isinstance(b, int):
            r = a & b if op == "BitAnd" else a | b if op == "BitOr" else a ^ b
            return r
        if isinstance(a, int):
            a, b = b, a
        if not isinstance(b, int):
            if a == b:
                return a if op != "BitXor" else 0
            return self.symbit(st, op, a, b, w, s)
        off = 0
        if s:
            lo, _ = st.interval(a)
            if lo is None or lo < 0 or b < 0:
                # two's complement view
                a = self.fmod(st, a, 1 << w)
                b &= (1 << w) - 1
                r = self.bitop(st, op, a, b, w, False)
                return self.wrap(st, r, w, True)
        if op == "BitAnd":
            if b == (1 << w) - 1:
                return a
            r = 0
            for i, n in self.runs(b):
                r = add(r, scale(self.bitseg(st, a, i, n), 1 << i))
            return r
        r = a
        for i, n in self.runs(b):
            seg = self.bitseg(st, a, i, n)
            full = (1 << n) - 1
            if op == "BitOr":
                r = add(r, scale(sub(full, seg), 1 << i))
            else:
                r = add(r, scale(sub(full, scale(seg, 2)), 1 << i))
        return r

    def symbit(self, st, op, a, b, w, s):
        """bitwise operation on two unknowns: a fresh result with its linear consequences (an
        over-approximation; models are evaluated with the exact meaning)"""
        la, lb = st.interval(a)[0], st.interval(b)[0]
        if s and (la is None or la < 0 or lb is None or lb < 0):
            raise Unsup("symbolic signed %s" % op)
        ctx = self.ctx
        if repr(a) > repr(b):
            a, b = b, a
        key = ("bit", op, a, b)
        r = ctx.memo.get(key)
        if r is None:
            (_, ah), (_, bh) = ctx.interval(a), ctx.interval(b)
            hi = None
            if ah is not None and bh is not None:
                hi = min(ah, bh) if op == "BitAnd" else (1 << max(ah.bit_length(), bh.bit_length())) - 1
            vid = ctx.new_var("o", 0, hi, None, [v for v, _ in a.t + b.t])
            V = ctx.vars[vid]
            V.ev = ("bit", op, a, b)
            A, Bz = ctx.z(a), ctx.z(b)
            if op == "BitAnd":
                V.facts += [V.z <= A, V.z <= Bz]
            elif op == "BitOr":
                V.facts += [V.z >= A, V.z >= Bz, V.z <= A + Bz]
            else:
                V.facts += [V.z <= A + Bz, V.z >= A - Bz, V.z >= Bz - A]
            r = Lin(((vid, 1),), 0)
            ctx.memo[key] = r
        st.use(r.t[0][0])
        return r

    # ------------------------------------------------------------ decisions
    def decide(self, st, b):
        r = st.ev3(b)
        if r is not None:
            return r
        raise Fork(b)

    def feasible(self, st, b):
        """is the path condition with b satisfiable, as far as the linear solver sees"""
        t = time.time()
        r = self.lia.check(st.facts, self.ctx.bz(b))
        self.ctx.stats["feas"] += 1
        self.ctx.stats["feas_t"] += time.time() - t
        return r != z3.unsat

    def implied(self, st, b):
        r = st.ev3(b)
        if r is not None:
            return r
        return not self.feasible(st, bnot(b))

    def conc(self, st, l):
        """a concrete value, by case distinction if needed"""
        if isinstance(l, (bool, B)):
            return 1 if self.decide(st, l) else 0
        if isinstance(l, int):
            return l
        lo, hi = st.interval(l)
        if lo is not None and lo == hi:
            return lo
        # ask for one possible value, split on it
        self.lia.sync(st.facts)
        r = self.lia.s.check()
        if r == z3.unsat:
            raise AssumeFalse()
        if r != z3.sat:
            if lo is not None and hi is not None and hi - lo <= 256:
                # no model in time: split off an end of the range
                raise Fork(eq(l, lo))
            raise Inconclusive("cannot concretise")
        m = self.lia.s.model()
        v = m.eval(self.ctx.z(l), model_completion=True).as_long()
        e = eq(l, v)
        if st.ev3(e) is False:
            raise Inconclusive("concretise: inconsistent")
        raise Fork(e)

    # ------------------------------------------------------------ constants
    def const(self, st, c):
        key = id(c)
        if key in self.constcache:
            return self.constcache[key][0]
        v = self.mkconst(c)
        self.constcache[key] = (v, c)
        return v

    def mkconst(self, c):
        k = c[0]
        if k == "kf":
            t = self.tys[c[2]]
            return FnV(c[1])
        if k == "kz":
            return self.zst(c[1])
        if k == "k":
            return self.decode(c[1], c[2], 0)
        raise Unsup("constant " + str(c)[:200])

    def zst(self, t):
        td = self.tys[t]
        k = td["k"]
        if k == "tuple":
            return Agg(0, tuple(self.zst(x) for x in td["f"]))
        if k == "adt":
            if td["en"]:
                return Agg(0, ())
            if td["n"] == "alloc::vec::Vec":
                return VecV(())
            return Agg(0, tuple(self.zst(f[1]) for f in td["v"][0]["f"]) if td["v"] else ())
        if k == "array":
            return Agg(0, tuple(self.zst(td["e"]) for _ in range(td["n"])))
        if k in ("fndef", "closure"):
            return Agg(0, ())
        return UNIT

    def size(self, t):
        td = self.tys[t]
        k = td["k"]
        if k == "int":
            return td["w"] // 8
        if k == "bool":
            return 1
        if k == "char":
            return 4
        l = td.get("l")
        if l:
            return l["size"]
        if k in ("fnptr",):
            return 8
        if k in ("fndef", "never"):
            return 0
        raise Unsup("size of " + str(td)[:100])

    def decode(self, m, t, off):
        td = self.tys[t]
        k = td["k"]
        hexs = m["b"]

        def num(o, n, signed=False):
            h = hexs[2 * o:2 * (o + n)]
            if "_" in h:
                return None
            return int.from_bytes(bytes.fromhex(h), "little", signed=signed)

        if k == "int":
            return num(off, td["w"] // 8, td["s"])
        if k == "bool":
            return num(off, 1) == 1
        if k == "char":
            return num(off, 4)
        if k == "tuple":
            if not td["f"]:
                return UNIT
            return Agg(0, tuple(self.decode(m, ft, off + td["l"]["offs"][i]) for i, ft in enumerate(td["f"])))
        if k == "array":
            if td["n"] == 0:
                return Agg(0, ())
            s = td["l"]["size"] // td["n"]
            return Agg(0, tuple(self.decode(m, td["e"], off + i * s) for i in range(td["n"])))
        if k in ("ref", "ptr"):
            return self.decode_ptr(m, td, off, num)
        if k == "fnptr":
            for o, a in m["p"]:
                if o == off:
                    return FnV(self.allocs[str(a)]["i"])
            return num(off, 8)
        if k in ("fndef", "never"):
            return UNIT
        if k == "closure":
            return Agg(0, ())
        if k == "adt":
            n = td["n"]
            if t in self.big:
                return Big(self.big[t], num(off, 8 * self.big[t]))
            if n == "alloc::vec::Vec":
                return VecV(())
            if n == "alloc::string::String":
                return StrV("")
            if n == "hashbrown::map::HashMap":
                return VecV(())
            if td.get("union"):
                # take the largest member
                best = None
                for f in td["v"][0]["f"]:
                    try:
                        s = self.size(f[1])
                    except Unsup:
                        continue
                    if best is None or s > best[0]:
                        best = (s, f[1])
                return Agg(0, (self.decode(m, best[1], off),))
            if not td["v"]:
                return UNIT
            if not td["en"]:
                offs = td["l"]["offs"]
                return Agg(0, tuple(self.decode(m, f[1], off + offs[i]) for i, f in enumerate(td["v"][0]["f"])))
            vs = td["l"]["vs"]
            if "single" in vs:
                v = vs["single"]
                offs = td["l"]["offs"] or []
                return Agg(v, tuple(self.decode(m, f[1], off + offs[i]) for i, f in enumerate(td["v"][v]["f"])))
            to = td["l"]["offs"][vs["tag_field"]] if td["l"]["offs"] else 0
            ts = vs["tag_size"]
            tag = num(off + to, ts)
            isptr = any(o == off + to for o, _ in m["p"])
            enc = vs["enc"]
            if enc == "Direct":
                v = None
                for i, x in enumerate(td["v"]):
                    if int(x["d"]) % (1 << (8 * ts)) == tag:
                        v = i
                if v is None:
                    raise Unsup("enum tag")
            else:
                ni = enc["Niche"]
                lo = ni["niche_variants"]["start"] if isinstance(ni["niche_variants"], dict) else ni["niche_variants"][0]
                hi = ni["niche_variants"]["end"] if isinstance(ni["niche_variants"], dict) else ni["niche_variants"][1]
                start = int(ni["niche_start"])
                if isptr or tag is None:
                    v = ni["untagged_variant"]
                else:
                    rel = (tag - start) % (1 << (8 * ts))
                    v = lo + rel if rel <= hi - lo else ni["untagged_variant"]
            vd = vs["variants"][v]
            offs = vd.get("offsets") or []
            fl = []
            for i, f in enumerate(td["v"][v]["f"]):
                o = offs[i]
                o = o if isinstance(o, int) else o.get("num_bits", o.get("bytes", 0)) // 8
                fl.append(self.decode(m, f[1], off + o))
            return Agg(v, tuple(fl))
        raise Unsup("constant of type " + str(td)[:120])

    def decode_ptr(self, m, td, off, num):
        e = self.tys[td["e"]]
        tgt = None
        for o, a in m["p"]:
            if o == off:
                tgt = a
        if tgt is None:
            if e["k"] in ("slice", "str"):
                return Ref(("V", Agg(0, ()), None), (), (0, 0))
            return Ref(("V", UNIT, None))  # dangling
        al = self.allocs[str(tgt)]
        inner = num(off, 8) or 0
        if al["k"] == "static":
            return Ref(("S", al["n"]))
        if al["k"] == "fn":
            return FnV(al["i"])
        if al["k"] != "mem":
            return Ref(("V", Opq(al["k"]), None))
        if e["k"] == "str":
            n = num(off + 8, 8)
            return Ref(("V", StrV(bytes.fromhex(al["m"]["b"].replace("_", "0"))[inner:inner + n].decode("utf8", "replace")), None))
        if e["k"] == "slice":
            n = num(off + 8, 8)
            s = self.size(e["e"])
            return Ref(("V", Agg(0, tuple(self.decode(al["m"], e["e"], inner + i * s) for i in range(n))), None), (), (0, n))
        if e["k"] == "dyn":
            return Ref(("V", Opq("dyn"), None))
        return Ref(("V", self.decode(al["m"], td["e"], inner), None))

    # ------------------------------------------------------------ operands, rvalues
    def op(self, st, fr, o):
        k = o[0]
        if k == "cp" or k == "mv":
            p = o[1]
            if isinstance(p, int):
                return st.mem[fr.fid].get(p)
            base, path, meta = self.locate(st, fr, p)
            v = self.read(st, base, path)
            return self.window(v, meta) if meta is not None else v
        if k == "rc":
            return "Overflow" in o[1]
        return self.const(st, o)

    def asint(self, st, v):
        if isinstance(v, (bool, B)):
            return self.b2i(st, v)
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.asint(st, v.f[0])
        return v

    def cmpvals(self, st, op, a, b):
        if isinstance(a, OrdV):
            if isinstance(b, OrdV):
                b = self.ordint(st, b)
            return a.test(op, b)
        if isinstance(b, OrdV):
            return b.test({"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op), a)
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            if op == "Eq":
                return biff(a, b)
            if op == "Ne":
                return bnot(biff(a, b))
            a, b = self.b2i(st, a), self.b2i(st, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Eq", "Ne"):
                same = a.base == b.base and a.path == b.path
                return same == (op == "Eq")
            if op in ("Eq", "Ne"):
                return op == "Ne"   # pointer against an integer (null)
            raise Unsup("pointer comparison")
        if isinstance(a, Agg) and isinstance(b, Agg) and not a.f and not b.f:
            return (a.v == b.v) == (op == "Eq")
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return bnot(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        raise Unsup(op)

    def ordint(self, st, o):
        if self.decide(st, lt(o.a, o.b)):
            return -1
        return 0 if self.decide(st, eq(o.a, o.b)) else 1

    def tdiv(self, st, a, b):
        """truncating division of machine integers, b != 0 on this path"""
        if isinstance(a, int) and isinstance(b, int):
            q = abs(a) // abs(b)
            return -q if (a < 0) != (b < 0) else q
        sb = False
        if not self.decide(st, lt(0, b)):
            b = scale(b, -1)
            sb = True
        if self.decide(st, lt(a, 0)):
            q = scale(self.fdiv(st, scale(a, -1), b), -1)
        else:
            q = self.fdiv(st, a, b)
        return scale(q, -1) if sb else q

    def ordint(self, st, v):
        """an Ordering used as a number"""
        if not isinstance(v, OrdV):
            return v
        return -1 if self.decide(st, lt(v.a, v.b)) else 0 if self.decide(st, eq(v.a, v.b)) else 1

    def binop(self, st, op, a, b, ta):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmpvals(st, op, a, b)
        if op == "Cmp":
            return OrdV(a, b)
        if op == "Offset":
            if isinstance(a, Ref):
                n = self.conc(st, b)
                return Ref(a.base, a.path[:-1] + (a.path[-1] + n,), a.meta)
            raise Unsup("pointer offset")
        w, s = self.intty(ta)
        a, b = self.ordint(st, a), self.ordint(st, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, op, a, b, w, s)
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            r = self.addr(st, a, b) if op[0] == "A" else self.subr(st, a, b) if op[0] == "S" else self.mulr(st, a, b)
            if op.endswith("Unchecked"):
                return r
            return self.wrap(st, r, w, s)
        if op == "Div":
            return self.tdiv(st, a, b)
        if op == "Rem":
            return sub(a, self.mul(st, self.tdiv(st, a, b), b))
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            n = self.conc(st, b) % w
            if op.startswith("Shl"):
                return self.wrap(st, scale(a, 1 << n), w, s)
            return self.fdiv(st, a, 1 << n)
        raise Unsup("binop " + op)

    def cbinop(self, st, op, a, b, ta):
        w, s = self.intty(ta)
        a, b = self.ordint(st, a), self.ordint(st, b)
        lo, hi = self.rng(w, s)
        r = self.addr(st, a, b) if op == "Add" else self.subr(st, a, b) if op == "Sub" else self.mulr(st, a, b)
        if isinstance(r, int):
            return Agg(0, (self.wrap(st, r, w, s), not (lo <= r <= hi)))
        if op == "Sub" and not s:
            fits = le(lo, r)
        elif not s:
            fits = le(r, hi)
        else:
            fits = self.inrange(st, r, lo, hi)
        if self.decide(st, fits):
            return Agg(0, (r, False))
        return Agg(0, (self.wrap(st, r, w, s), True))

    def discr(self, st, v, t):
        td = self.tys[t]
        if isinstance(v, Cor):
            return v.v
        if isinstance(v, OrdV):
            return v
        if td["k"] == "coroutine":
            raise Unsup("discriminant of uninitialised coroutine")
        if isinstance(v, Opq):
            raise Unsup("discriminant of %r" % v)
        if v is None:
            # optimised MIR keeps dead reads of moved-out values: any value at all, should it be used
            return self.newvar(st, "undef", 0, 255)
        if td["k"] == "adt" and td["en"]:
            d = int(td["v"][v.v]["d"])
            if td["n"] == "core::cmp::Ordering" and d > 1:
                d = -1
            return d
        if td["k"] == "adt" or td["k"] == "tuple":
            return 0
        raise Unsup("discriminant of " + str(td)[:100])

    def rvalue(self, st, fr, r, destty=None):
        k = r[0]
        if k == "use":
            return self.op(st, fr, r[1])
        if k == "ref":
            base, path, meta = self.locate(st, fr, r[1])
            return Ref(base, path, meta)
        if k == "cbin":
            return self.cbinop(st, r[1], self.op(st, fr, r[2]), self.op(st, fr, r[3]), r[4])
        if k == "bin":
            return self.binop(st, r[1], self.op(st, fr, r[2]), self.op(st, fr, r[3]), r[4])
        if k == "agg":
            return self.aggregate(st, fr, r)
        if k == "discr":
            base, path, meta = self.locate(st, fr, r[1])
            d = self.discr(st, self.read(st, base, path), r[2])
            return d
        if k == "un":
            v = self.op(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(v, (bool, B)):
                    return bnot(v)
                w, s = self.intty(r[3])
                return sub(-1, v) if s else sub((1 << w) - 1, v)
            if r[1] == "Neg":
                w, s = self.intty(r[3])
                return self.wrap(st, scale(v, -1), w, s)
            if r[1] == "PtrMetadata":
                if isinstance(v, Ref):
                    if v.meta is not None and v.meta[0] != "dyn":
                        return v.meta[1]
                    x = self.read(st, v.base, v.path)
                    if isinstance(x, StrV):
                        return len(x.s) if x.s is not None else 0
                    if isinstance(x, (VecV, Agg)):
                        return len(x.f)
                raise Unsup("PtrMetadata of %r" % (v,))
            raise Unsup("unop " + r[1])
        if k == "cast":
            return self.cast(st, r[1], self.op(st, fr, r[2]), r[3], r[4], r[5])
        if k == "len":
            base, path, meta = self.locate(st, fr, r[1])
            if meta is not None:
                return meta[1]
            return self.seqlen(self.read(st, base, path))
        if k == "rep":
            v = self.op(st, fr, r[1])
            return Agg(0, (v,) * r[2])
        raise Unsup("rvalue " + str(r)[:100])

    def aggregate(self, st, fr, r):
        kind, ops, t = r[1], r[2], r[3]
        vals = tuple(self.op(st, fr, o) for o in ops)
        k = kind[0]
        if k == "adt":
            if t in self.big:
                return self.frombig(self.big[t], vals[0].f) if isinstance(vals[0], Agg) else vals[0]
            return Agg(kind[1], vals)
        if k == "coroutine":
            return Cor(0, vals, {})
        if k == "rawptr":
            p, m = vals
            if isinstance(m, Agg):
                return p
            n = self.conc(st, m)
            if p.path and isinstance(p.path[-1], int) and p.meta is None:
                return Ref(p.base, p.path[:-1], (p.path[-1], n))
            return Ref(p.base, p.path, (0, n))
        return Agg(0, vals)

    def cast(self, st, kind, v, tf, tt, extra):
        a, b = self.tys[tf], self.tys[tt]
        if kind == "IntToInt":
            if a["k"] == "adt":
                v = self.discr(st, v, tf)
            if isinstance(v, OrdV):
                return v
            if isinstance(v, (bool, B)):
                return self.b2i(st, v)
            w, s = self.intty(tt)
            return self.wrap(st, v, w, s)
        if kind == "PtrToPtr" or kind == "BoxDerefTransmute":
            if kind == "BoxDerefTransmute" or (isinstance(v, Agg) and b["k"] in ("ptr", "ref")):
                while isinstance(v, Agg):
                    v = v.f[0]
            return self.ptrcast(st, v, a, b)
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                return self.unsize(st, v, a, b)
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return FnV(extra)
            return v
        if kind == "Transmute":
            return self.transmute(st, v, tf, tt)
        if kind == "Subtype":
            return v
        raise Unsup("cast " + kind)

    def ptrcast(self, st, v, a, b):
        if not isinstance(v, Ref):
            return v
        ea, eb = self.tys.get(a.get("e")), self.tys.get(b.get("e"))
        if ea and eb and ea["k"] in ("slice",) and eb["k"] not in ("slice", "str"):
            # slice pointer to array or element pointer
            if eb["k"] == "array":
                return Ref(v.base, v.path, v.meta or (0, eb["n"]))
            return Ref(v.base, v.path + ((v.meta[0] if v.meta else 0),))
        if ea and eb and ea["k"] == "array" and eb["k"] not in ("array", "slice", "tuple") and a.get("e") != b.get("e") and b.get("e") == ea["e"]:
            return Ref(v.base, v.path + (0,))
        return v

    def unsize(self, st, v, a, b):
        if isinstance(v, Agg):  # Box<[T;N]> -> Box<[T]>, Pin<Box<..>>: find the inner pointer
            def go(x):
                if isinstance(x, Ref):
                    return Ref(x.base, x.path, x.meta if x.meta else self.unsize_meta(st, x))
                if isinstance(x, Agg) and x.f:
                    return Agg(x.v, (go(x.f[0]),) + x.f[1:])
                return x
            return go(v)
        return Ref(v.base, v.path, v.meta or self.unsize_meta(st, v, b))

    def unsize_meta(self, st, v, b=None):
        if b is not None and self.tys.get(b.get("e"), {}).get("k") == "dyn":
            return None
        x = self.read(st, v.base, v.path)
        if isinstance(x, Agg):
            return (0, len(x.f))
        return None

    def transmute(self, st, v, tf, tt):
        a, b = self.tys[tf], self.tys[tt]
        if tf == tt:
            return v
        if a["k"] in ("ref", "ptr") and b["k"] in ("ref", "ptr"):
            return v
        if a["k"] == "int" and b["k"] == "int":
            return self.wrap(st, v, b["w"], b["s"])
        if a["k"] == "int" and b["k"] == "array" and self.size(b["e"]) == 1:
            v = self.wrap(st, v, a["w"], False)
            out = []
            r = v
            for i in range(b["n"] - 1):
                nx = self.fdiv(st, r, 256)
                out.append(sub(r, scale(nx, 256)))
                r = nx
            out.append(r)
            return Agg(0, tuple(out))
        if a["k"] == "array" and b["k"] == "int" and self.size(a["e"]) == 1:
            x = 0
            for i, l in enumerate(v.f):
                x = add(x, scale(l, 1 << (8 * i)))
            return self.wrap(st, x, b["w"], b["s"])
        if a["k"] == "adt" and a["en"] and b["k"] == "int":
            return self.wrap(st, self.discr(st, v, tf), b["w"], b["s"])
        if b["k"] == "adt" and b["en"] and a["k"] == "int" and not any(x["f"] for x in b["v"]):
            c = self.conc(st, v)
            w = a["w"]
            for i, x in enumerate(b["v"]):
                if (int(x["d"]) - c) % (1 << w) == 0:
                    return Agg(i, ())
            raise Unsup("transmute to enum")
        if a["k"] == "int" and b["k"] == "adt" and not isinstance(v, (Agg, Ref)):
            if b["en"] and b["n"] == "core::option::Option":
                # Option<NonZero<..>>
                if self.decide(st, eq(v, 0)):
                    return NONE
                i = [i for i, x in enumerate(b["v"]) if x["f"]][0]
                return Agg(i, (self.transmute(st, v, tf, b["v"][i]["f"][0][1]),))
            if not b["en"] and not b.get("union") and len(b["v"][0]["f"]) == 1:
                return Agg(0, (self.transmute(st, v, tf, b["v"][0]["f"][0][1]),))
        if a["k"] == "adt" and not a["en"] and not a.get("union") and b["k"] == "int" and isinstance(v, Agg) and not isinstance(v, Big):
            while isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            if isnum(v):
                return self.wrap(st, v, b["w"], b["s"])
        if isinstance(v, Agg) and b["k"] in ("ref", "ptr"):
            while isinstance(v, Agg) and v.f:
                v = v.f[0]
            return v
        if isinstance(v, Ref) and b["k"] == "adt":
            # pointer wrappers (NonNull and the like)
            return self.wrapptr(v, tt)
        if b["k"] == "adt" and isinstance(v, Agg) and (b.get("union") or a.get("union") or len(v.f) == 1):
            # MaybeUninit<T> <-> T and other transparent wrappers
            if b.get("union"):
                return Agg(0, (v,)) if not a.get("union") else v
            if a.get("union"):
                return v.f[0]
            return v
        if a["k"] == "adt" and a.get("union"):
            return v.f[0]
        if b["k"] == "adt" and b.get("union"):
            return Agg(0, (v,))
        if a["k"] == "array" and b["k"] == "array":
            return v
        if self.size(tf) == 0 and self.size(tt) == 0:
            return self.zst(tt)
        if a["k"] == "other" and "Pat(" in a["s"] or b["k"] == "other" and "Pat(" in b["s"]:
            return v
        raise Unsup("transmute %s -> %s" % (str(a)[:80], str(b)[:80]))

    def wrapptr(self, v, tt):
        td = self.tys[tt]
        if td["k"] == "adt" and not td["en"] and td["v"] and td["v"][0]["f"]:
            fs = td["v"][0]["f"]
            return Agg(0, (self.wrapptr(v, fs[0][1]),) + tuple(self.zst(f[1]) for f in fs[1:]))
        return v

    # ------------------------------------------------------------ calls
    def push(self, st, fi, args, dest, target, caller, post=None):
        fn = self.fns[fi]
        if "blocks" not in fn:
            raise Unsup("no body: " + fn["def"])
        self.called.add(fi)
        fid = st.nfid
        st.nfid += 1
        argc = fn["argc"]
        if len(args) != argc:
            if len(args) == 2 and isinstance(args[1], Agg) and len(args[1].f) + 1 == argc:
                args = [args[0]] + list(args[1].f)
            elif fn.get("spread") and argc == fn["spread"]:
                args = list(args[:argc - 1]) + [Agg(0, tuple(args[argc - 1:]))]
            else:
                raise Unsup("argument count of %s: %d for %d" % (fn["def"], len(args), argc))
        elif fn.get("ck") == "closure" and argc == 2 and isinstance(args[1], Agg) and caller is not None \
                and self.fns[caller]["kind"] != "shim" and len(args[1].f) == 1 and self.rustcall:
            args = [args[0], args[1].f[0]]
        loc = {i + 1: a for i, a in enumerate(args)}
        st.mem[fid] = loc
        st.stack.append(Frame(fid, fn, 0, 0, dest, target, st.stack[-1].fid if st.stack else None, post))

    def ret(self, st, v):
        """return value v to the caller of the top frame"""
        fr = st.stack[-1]
        if fr.post is not None:
            v = fr.post(st, v)
        if len(st.stack) == 1:
            st.stack.pop()
            return True
        up = st.stack[-2]
        self.store(st, up, fr.dest, v)
        if fr.target is None:
            raise Unsup("return from a diverging call " + fr.fn["def"])
        st.stack.pop()
        del st.mem[fr.fid]
        st.undo.clear()
        up.bb = fr.target
        up.si = 0
        return False

    def store(self, st, fr, place, v):
        if isinstance(place, int):
            d = st.mem[fr.fid]
            st.undo.append((d, place, d.get(place, d)))
            d[place] = v
            return
        base, path, meta = self.locate(st, fr, place)
        if meta is not None and meta[0] != "dyn":
            w = self.read(st, base, path)
            if isinstance(w, Big) or meta != (0, self.seqlen(w)):
                raise Unsup("store of a part of a sequence")
            if isinstance(w, VecV):
                v = VecV(v.f)
        self.write(st, base, path, v)

    def call(self, st, fr, fi, args, dest, target, destty, argtys):
        fn = self.fns[fi]
        name = fn["def"]
        stub = STUBS.get(name)
        if stub is not None and st.env.get(stub):
            # the harness asked for the function's contract in its place (stated in the bounds)
            fi = self.roots[stub]
            fn = self.fns[fi]
            self.modelled.add("contract of " + stub)
        m = self.models.lookup(fi, fn)
        if m is not None:
            r = m(st, fn, args, destty, argtys)
            self.modelled.add(fn["def"])
            if r is self.models.PUSHED:
                return
            if type(r) is Tail:
                return self.call(st, fr, r.i, r.args, dest, target, destty, argtys)
            if r is self.models.NORETURN:
                raise Unsup("returned from noreturn model")
            if target is None:
                raise PanicExc("diverging call " + fn["def"])
            self.store(st, fr, dest, r)
            fr.bb, fr.si = target, 0
            return
        if "blocks" not in fn and target is None:
            raise PanicExc(fn["def"])
        if "blocks" not in fn:
            td = self.tys.get(destty)
            if td is not None and td["k"] == "adt" and td["en"] and name.startswith(td["n"] + "::"):
                # the constructor of a variant, used as a function
                for i, x in enumerate(td["v"]):
                    if name == td["n"] + "::" + x["n"] and len(x["f"]) == len(args):
                        self.store(st, fr, dest, Agg(i, tuple(args)))
                        fr.bb, fr.si = target, 0
                        return
            raise Unsup("call of %s %s(%s)" % (fn["kind"], fn["def"], ", ".join(map(str, fn.get("args", [])))))
        self.rustcall = True
        if st.env:
            # an unrolling bound on calls of this function, set by the harness; paths that need more are cut and counted
            k = "bound " + name.rsplit("::", 1)[-1]
            n = st.env.get(k)
            if n is not None:
                if n == 0:
                    self.cut[k] = self.cut.get(k, 0) + 1
                    raise AssumeFalse()
                env = dict(st.env)
                env[k] = n - 1
                st.env = env
        post = None
        if fn["def"].endswith("::calculate_sqrt_price") and all(type(a) is int for a in args):
            # a pure function of concrete arguments: executed once, its answer (when it is a plain Ok(value)) kept
            key = (fi,) + tuple(args)
            v = self.pure.get(key)
            if v is not None:
                self.store(st, fr, dest, v)
                fr.bb, fr.si = target, 0
                return
            post = lambda st, v: self.keep_pure(key, v)
        self.push(st, fi, args, dest, target, fr.fn.get("_i"), post)

    def keep_pure(self, key, v):
        def plain(v):
            return type(v) is int or type(v) is Agg and all(plain(x) for x in v.f)
        if type(v) is Agg and v.v == 0 and plain(v):
            self.pure[key] = v
        return v

    # ------------------------------------------------------------ one step
    def step(self, st):
        """executes one statement or terminator of the top frame. True when the root returned."""
        fr = st.stack[-1]
        blk = fr.fn["blocks"][fr.bb]
        ss = blk["s"]
        n = len(ss)
        st.undo.clear()
        while fr.si < n:
            s = ss[fr.si]
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2])
                self.store(st, fr, s[1], v)
            elif s[0] == "sd":
                base, path, meta = self.locate(st, fr, s[1])
                v = self.read(st, base, path)
                if isinstance(v, Cor):
                    v = Cor(s[2], v.f, v.s)
                elif v is None:
                    v = Agg(s[2], ())
                else:
                    v = Agg(s[2], v.f)
                self.write(st, base, path, v)
            else:
                raise Unsup("statement %s" % (s,))
            fr.si += 1
            st.undo.clear()
            st.steps += 1
        t = blk["t"]
        k = t[0]
        st.steps += 1
        if k == "goto":
            fr.bb, fr.si = t[1], 0
        elif k == "switch":
            v = self.op(st, fr, t[1])
            td = self.tys[t[2]]
            if isinstance(v, (bool, B)):
                c = self.decide(st, v)
                v = 1 if c else 0
            for val, bb in t[3]:
                val = int(val)
                if td["k"] == "int" and td["s"]:
                    w = td["w"]
                    if val >> (w - 1):
                        val -= 1 << w
                if isinstance(v, int):
                    if v == val or (v < 0 and td["k"] == "int" and v + (1 << td["w"]) == val):
                        fr.bb, fr.si = bb, 0
                        return False
                elif isinstance(v, OrdV):
                    if self.decide(st, v.test("Eq", val if val <= 1 else -1)):
                        fr.bb, fr.si = bb, 0
                        return False
                elif isinstance(v, Lin):
                    c = eq(v, val)
                    # a pattern over several parts of one value (the limbs of a big constant) is one decision
                    while len(t[3]) == 1:
                        nb = fr.fn["blocks"][bb]
                        nt = nb["t"]
                        if nb["s"] or nt[0] != "switch" or len(nt[3]) != 1 or nt[4] != t[4]:
                            break
                        w = self.op(st, fr, nt[1])
                        if not isinstance(w, Lin) and not isinstance(w, int) or self.tys[nt[2]]["k"] != "int" or self.tys[nt[2]]["s"]:
                            break
                        c = band(c, eq(w, int(nt[3][0][0])))
                        bb = nt[3][0][1]
                    if self.decide(st, c):
                        fr.bb, fr.si = bb, 0
                        return False
                else:
                    raise Unsup("switch on %r in %s" % (v, fr.fn["def"]))
            fr.bb, fr.si = t[4], 0
        elif k == "return":
            v = st.mem[fr.fid].get(0)
            if v is None:
                v = self.zst(fr.fn["locals"][0])
            return self.ret(st, v)
        elif k == "call":
            c = t[1]
            if isinstance(c, dict):
                raise Unsup("unresolved call " + str(c))
            args = [self.op(st, fr, o) for o in t[2]]
            self.call(st, fr, c, args, t[3], t[4], t[5], t[6])
        elif k == "assert":
            v = self.op(st, fr, t[1])
            c = self.decide(st, v)
            if c != t[2]:
                raise PanicExc(t[3])
            fr.bb, fr.si = t[4], 0
        elif k == "drop":
            fr.bb, fr.si = t[2], 0
        elif k == "unreachable":
            raise Unsup("unreachable reached in " + fr.fn["def"])
        elif k == "callptr":
            f = self.op(st, fr, t[1])
            if not isinstance(f, FnV):
                raise Unsup("call through %r" % (f,))
            args = [self.op(st, fr, o) for o in t[2]]
            self.call(st, fr, f.i, args, t[3], t[4], t[5], t[6])
        else:
            raise Unsup("terminator " + k)
        return False

    def where(self, st):
        return " < ".join("%s:%s" % (f.fn["def"].split("::")[-1] if len(f.fn["def"]) < 50 else f.fn["def"][-60:], f.fn["blocks"][f.bb]["l"]) for f in reversed(st.stack[-6:]))
