"""Symbolic integers and booleans: polynomials in normal form over bounded integer variables,
comparison atoms in canonical form, path state with interval knowledge, and solver plumbing."""
from math import gcd
import time
import z3


class Unsup(Exception):
    pass


class Fork(Exception):
    """An undecided condition: the engine forks on it and re-executes the step."""

    def __init__(self, b):
        self.b = b


class PanicExc(Exception):
    def __init__(self, msg):
        self.msg = msg


class AssumeFalse(Exception):
    pass


class Inconclusive(Exception):
    pass


class Lin:
    """sum(coef * var) + c, never constant (a constant is a python int). A product of variables is
    itself a variable (a monomial), so polynomials are linear forms over monomials."""
    __slots__ = ("t", "c", "_h")

    def __init__(self, t, c):
        self.t = t  # tuple of (vid, coef), sorted by vid, coef != 0
        self.c = c
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        return "(%s%+d)" % ("".join("%+d*v%d" % (k, v) for v, k in self.t), self.c)


def mk(d, c):
    t = tuple(sorted((v, k) for v, k in d.items() if k))
    return Lin(t, c) if t else c


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        a, b = b, a
    if isinstance(b, int):
        return Lin(a.t, a.c + b) if b else a
    d = dict(a.t)
    for v, k in b.t:
        d[v] = d.get(v, 0) + k
    return mk(d, a.c + b.c)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(tuple((v, c * k) for v, c in a.t), a.c * k)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return add(a, scale(b, -1))


def isnum(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, Lin)


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ("op", "a", "k", "_h")

    def __init__(self, op, a, k=None):
        self.op = op  # le: a=t, k: t <= k ; eq: t == k ; not: a=B ; and/or: a=tuple of B
        self.a = a
        self.k = k
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.a, self.k))
        return self._h

    def __eq__(self, o):
        return isinstance(o, B) and self.op == o.op and self.k == o.k and self.a == o.a

    def __repr__(self):
        if self.op in ("le", "eq"):
            return "%s%s%d" % (Lin(self.a, 0), "<=" if self.op == "le" else "==", self.k)
        if self.op == "not":
            return "!(%r)" % self.a
        return "(" + (" & " if self.op == "and" else " | ").join(map(repr, self.a)) + ")"


def bnot(b):
    if isinstance(b, bool):
        return not b
    if b.op == "not":
        return b.a
    return B("not", b)


def band(*bs):
    out = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        if isinstance(b, B) and b.op == "and":
            out.extend(b.a)
        else:
            out.append(b)
    if not out:
        return True
    out = list(dict.fromkeys(out))
    if len(out) == 1:
        return out[0]
    return B("and", tuple(out))


def bor(*bs):
    return bnot(band(*[bnot(b) for b in bs]))


def biff(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    if a == b:
        return True
    return bor(band(a, b), band(bnot(a), bnot(b)))


def norm(l):
    """canonical direction of a Lin: (t, g, sign, c): l == sign*g*t + c"""
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
        if g == 1:
            break
    s = 1 if l.t[0][1] > 0 else -1
    if g == 1 and s == 1:
        return l.t, 1, 1, l.c
    m = g * s
    return tuple((v, k // m) for v, k in l.t), g, s, l.c


def le0(l):
    """l <= 0"""
    if isinstance(l, int):
        return l <= 0
    t, g, s, c = norm(l)
    if s > 0:  # g*t <= -c
        return B("le", t, (-c) // g)
    # -g*t <= -c  <=>  t >= ceil(c/g)  <=> not (t <= ceil(c/g)-1)
    return B("not", B("le", t, -((-c) // g) - 1))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), 1))


def eq(a, b):
    l = sub(a, b)
    if isinstance(l, int):
        return l == 0
    t, g, s, c = norm(l)
    if c % g:
        return False
    return B("eq", t, -s * (c // g))


class Var:
    __slots__ = ("name", "lo", "hi", "z", "mono", "facts", "deps", "nl", "ev")

    def __init__(self, name, lo, hi, z, mono):
        self.name, self.lo, self.hi, self.z, self.mono = name, lo, hi, z, mono
        self.facts = []   # z3 facts, valid wherever the variable exists
        self.deps = ()    # other variables its facts mention
        self.nl = None    # nonlinear definition
        self.ev = None    # how to evaluate it: ("mono", (..)) | ("div", a, b) | None (free)


class Ctx:
    """Global tables of one harness run."""

    def __init__(self):
        self.vars = []
        self.mono = {}
        self.memo = {}
        self.tb = {}       # t -> (lo, hi): known interval of a linear form, wherever its variables exist
        self.zc = {}
        self.zb = {}
        self.divs = []     # (q Lin, a, b) with symbolic b
        self.stats = {"feas": 0, "feas_t": 0.0, "goals": 0, "goal_t": 0.0, "lin": 0, "nl": 0, "triv": 0}
        self.seed = 1
        self.inputs = {}   # "name#k" -> (vid, kind)
        self.funs = {}     # uninterpreted function name -> list of (args, result)

    def new_var(self, name, lo, hi, mono=None, deps=()):
        if lo is not None and abs(lo) >> 8192:
            lo = None
        if hi is not None and abs(hi) >> 8192:
            hi = None
        z = z3.Int("%s!%d" % (name, len(self.vars)))
        v = Var(name, lo, hi, z, mono)
        self.vars.append(v)
        if lo is not None:
            v.facts.append(z >= lo)
        if hi is not None:
            v.facts.append(z <= hi)
        v.deps = tuple(deps)
        return len(self.vars) - 1

    def z(self, x):
        if isinstance(x, int):
            return z3.IntVal(x)
        r = self.zc.get(x)
        if r is None:
            ts = []
            for v, k in x.t:
                zv = self.vars[v].z
                ts.append(zv if k == 1 else z3.IntVal(k) * zv)
            if x.c:
                ts.append(z3.IntVal(x.c))
            r = ts[0] if len(ts) == 1 else z3.Sum(ts)
            self.zc[x] = r
        return r

    def bz(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        r = self.zb.get(b)
        if r is None:
            if b.op == "le":
                r = self.z(Lin(b.a, 0)) <= b.k
            elif b.op == "eq":
                r = self.z(Lin(b.a, 0)) == b.k
            elif b.op == "not":
                r = z3.Not(self.bz(b.a))
            elif b.op == "and":
                r = z3.And([self.bz(x) for x in b.a])
            else:
                r = z3.Or([self.bz(x) for x in b.a])
            self.zb[b] = r
        return r

    def interval(self, x):
        """global interval of a Lin"""
        if isinstance(x, int):
            return x, x
        return self._iv(x, None)

    def _iv(self, x, st):
        t, g, s, c = norm(x)
        lo, hi = self._ivt(t, st)
        if s > 0:
            return (None if lo is None else g * lo + c), (None if hi is None else g * hi + c)
        return (None if hi is None else -g * hi + c), (None if lo is None else -g * lo + c)

    def _ivt(self, t, st):
        lo = hi = 0
        for v, k in t:
            a, b = self.vars[v].lo, self.vars[v].hi
            if st is not None:
                e = st.iv.get(((v, 1),))
                if e is not None:
                    if e[0] is not None and (a is None or e[0] > a):
                        a = e[0]
                    if e[1] is not None and (b is None or e[1] < b):
                        b = e[1]
            if k < 0:
                a, b = b, a
            lo = None if (lo is None or a is None) else lo + k * a
            hi = None if (hi is None or b is None) else hi + k * b
        e = self.tb.get(t)
        if e is not None:
            lo, hi = imax(lo, e[0]), imin(hi, e[1])
        if st is not None:
            e = st.iv.get(t)
            if e is not None:
                lo, hi = imax(lo, e[0]), imin(hi, e[1])
        return lo, hi

    def settb(self, l, lo, hi):
        """record that Lin l lies in [lo, hi] wherever its variables exist"""
        if isinstance(l, int):
            return
        t, g, s, c = norm(l)
        if s > 0:
            a = None if lo is None else -((c - lo) // g)
            b = None if hi is None else (hi - c) // g
        else:
            a = None if hi is None else -((hi - c) // g)
            b = None if lo is None else (c - lo) // g
        # (bounds far beyond every integer type are of no use, and grow with each product)
        if a is not None and a.bit_length() > 2048:
            a = None if a < 0 else 1 << 2048
        if b is not None and b.bit_length() > 2048:
            b = None if b > 0 else -(1 << 2048)
        e = self.tb.get(t)
        if e is not None:
            a, b = imax(a, e[0]), imin(b, e[1])
        self.tb[t] = (a, b)

    # ------------------------------------------------------------ evaluation under an assignment
    def evalvar(self, vid, asg, cache):
        if vid in cache:
            return cache[vid]
        v = self.vars[vid]
        if v.ev is None:
            r = asg.get(vid, v.lo if v.lo is not None and v.lo > 0 else 0)
        elif v.ev[0] == "mono":
            r = 1
            for x in v.ev[1]:
                r *= self.evalvar(x, asg, cache)
        elif v.ev[0] == "div":
            a = self.evallin(v.ev[1], asg, cache)
            b = self.evallin(v.ev[2], asg, cache)
            r = a // b if b > 0 else 0
        elif v.ev[0] == "bit":
            a = self.evallin(v.ev[2], asg, cache)
            b = self.evallin(v.ev[3], asg, cache)
            r = a & b if v.ev[1] == "BitAnd" else a | b if v.ev[1] == "BitOr" else a ^ b
        elif v.ev[0] == "b01":
            r = 1 if self.evalb(v.ev[1], asg, cache) else 0
        elif v.ev[0] == "lin":
            r = self.evallin(v.ev[1], asg, cache)
        else:
            raise KeyError(v.ev)
        cache[vid] = r
        return r

    def evallin(self, l, asg, cache):
        if isinstance(l, int):
            return l
        return sum(k * self.evalvar(v, asg, cache) for v, k in l.t) + l.c

    def evalb(self, b, asg, cache):
        if isinstance(b, bool):
            return b
        if b.op == "le":
            return self.evallin(Lin(b.a, 0), asg, cache) <= b.k
        if b.op == "eq":
            return self.evallin(Lin(b.a, 0), asg, cache) == b.k
        if b.op == "not":
            return not self.evalb(b.a, asg, cache)
        if b.op == "and":
            return all(self.evalb(x, asg, cache) for x in b.a)
        return any(self.evalb(x, asg, cache) for x in b.a)


def imax(a, b):
    return b if a is None else a if b is None else max(a, b)


def imin(a, b):
    return b if a is None else a if b is None else min(a, b)


class Lia:
    """Incremental linear solver following the path's fact list."""

    def __init__(self, timeout=400):
        self.s = z3.SolverFor("QF_LIA")
        self.s.set("timeout", timeout)
        self.stack = []

    def sync(self, facts):
        n = 0
        st = self.stack
        m = min(len(st), len(facts))
        while n < m and st[n] is facts[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for f in facts[n:]:
            self.s.push()
            self.s.add(f)
            st.append(f)
        # push/pop granularity of one fact keeps the common prefix as long as possible

    def check(self, facts, extra):
        self.sync(facts)
        self.s.push()
        self.s.add(extra)
        r = self.s.check()
        self.s.pop()
        return r
