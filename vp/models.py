"""Models of functions the exporter does not descend into: the uint crate, Vec/slice/str, maps,
the verification kit, compiler intrinsics and the Gear environment."""
import re
from sym import *
import engine as E
from engine import Agg, VecV, Big, StrV, Opq, Ref, FnV, Cor, OrdV, UNIT, some, NONE, ok, err

U64 = 1 << 64


def bits(n):
    return (1 << (64 * n)) - 1


PUSHED = object()
NORETURN = object()
UNAME = r"(?:primitive_types|decimal::uint|decimal::uint::invariant_wasm)::U(\d+)"


class Models:
    PUSHED = PUSHED
    NORETURN = NORETURN

    def __init__(self, e):
        self.e = e
        self.cache = {}
        self.exact = {}
        self.rules = []
        self.uses = {}
        for n in dir(self):
            f = getattr(self, n)
            for p in getattr(f, "pats", ()):
                if isinstance(p, str):
                    self.exact[p] = f
                else:
                    self.rules.append((p, f))

    def lookup(self, fi, fn):
        r = self.cache.get(fi, 0)
        if r != 0:
            return r
        d = fn["def"]
        r = self.exact.get(d)
        if r is None:
            for p, f in self.rules:
                m = p.match(d)
                if m:
                    if m.groups():
                        r = (lambda f, m: lambda st, fn, args, dt, at: f(st, fn, args, dt, at, m))(f, m)
                    else:
                        r = f
                    break
        if r is not None and getattr(r, "nobody", False) and "blocks" in fn:
            r = None
        self.cache[fi] = r
        if r is not None:
            self.uses[d] = self.uses.get(d, 0) + 1
        return r


def on(*pats, nobody=False):
    def dec(f):
        f.pats = [re.compile(p[1:] + "$") if p.startswith("~") else p for p in pats]
        f.nobody = nobody
        return f
    return dec


def reg(name):
    def dec(f):
        setattr(Models, name, f)
        return f
    return dec


def D(e, st, r):
    """the value behind a reference (or the value itself)"""
    while isinstance(r, Agg) and not r.v and len(r.f) and isinstance(r.f[0], (Ref, Agg)) and not isinstance(r, Big):
        if isinstance(r.f[0], Ref):
            r = r.f[0]
            break
        r = r.f[0]
    if isinstance(r, Ref):
        return e.deref(st, r)
    return r


def num(e, st, v):
    """integer value of an int, bool, Big or a reference to one"""
    while isinstance(v, Ref):
        v = e.read(st, v.base, v.path)
    if isinstance(v, Big):
        return v.x
    if isinstance(v, (bool, B)):
        return e.b2i(st, v)
    if isinstance(v, Agg) and len(v.f) == 1:
        return num(e, st, v.f[0])
    if not isnum(v):
        raise Unsup("number expected: %r" % (v,))
    return v


# ------------------------------------------------------------------ uint crate
UT = UNAME


@reg("u_const")
@on("~%s::(zero|one|max_value|MAX)" % UT, "~<%s as core::default::Default>::(default)" % UT)
def u_const(self, st, fn, args, dt, at, m):
    n = int(m.group(1)) // 64
    return Big(n, {"zero": 0, "one": 1, "default": 0}.get(m.group(2), bits(n)))


@reg("u_from")
@on("~<%s as core::convert::From<(.*)>>::from" % UT)
def u_from(self, st, fn, args, dt, at, m):
    n = int(m.group(1)) // 64
    v = args[0]
    if isinstance(v, Agg) and not isinstance(v, Big):  # [u64; n] / bytes
        raise Unsup("from array " + m.group(2))
    x = num(self.e, st, v)
    lo, hi = st.interval(x)
    if lo is None or lo < 0:
        if not self.e.decide(st, le(0, x)):
            raise PanicExc("Unsigned integer can't be created from negative value")
    lo, hi = st.interval(x)
    if hi is None or hi > bits(n):
        raise Unsup("narrowing From %r %s %s" % (x, st.interval(x), [(v, self.e.ctx.vars[v].name, self.e.ctx.vars[v].ev, st.iv.get(((v,1),))) for v,_ in x.t]))
    return Big(n, x)


@reg("u_tryfrom")
@on("~<(u8|u16|u32|u64|u128|usize|i32|i64|i128|isize) as core::convert::TryFrom<%s>>::try_from" % UT,
    "~(?:primitive_types|decimal::uint|decimal::uint::invariant_wasm)::<impl core::convert::TryFrom<%s> for (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::try_from" % UT)
def u_tryfrom(self, st, fn, args, dt, at, m):
    g = [x for x in m.groups() if x[0] in "ui"][0]
    w, s = (64 if g[1:] == "size" else int(g[1:])), g[0] == "i"
    x = num(self.e, st, args[0])
    if self.e.decide(st, le(x, self.e.rng(w, s)[1])):
        return ok(x)
    return err(Ref(("V", StrV("integer overflow"), None)))


@reg("u_tryfrom2")
@on("~<%s as core::convert::TryFrom<%s>>::try_from" % (UT, UT))
def u_tryfrom2(self, st, fn, args, dt, at, m):
    n = int(m.group(1)) // 64
    x = num(self.e, st, args[0])
    if self.e.decide(st, le(x, bits(n))):
        return ok(Big(n, x))
    return err(UNIT)


@reg("u_checked")
@on("~%s::(checked|overflowing|saturating)_(add|sub|mul)" % UT)
def u_checked(self, st, fn, args, dt, at, m):
    n = int(m.group(1)) // 64
    e = self.e
    a, b = num(e, st, args[0]), num(e, st, args[1])
    k, o = m.group(2), m.group(3)
    r = e.addr(st, a, b) if o == "add" else e.subr(st, a, b) if o == "sub" else e.mulr(st, a, b)
    fits = le(0, r) if o == "sub" else le(r, bits(n))
    if e.decide(st, fits):
        if k == "checked":
            return some(Big(n, r))
        return Agg(0, (Big(n, r), False)) if k == "overflowing" else Big(n, r)
    if k == "checked":
        return NONE
    if k == "saturating":
        return Big(n, 0 if o == "sub" else bits(n))
    return Agg(0, (Big(n, e.wrap(st, r, 64 * n, False)), True))


@reg("u_cdiv")
@on("~%s::checked_(div|rem)" % UT)
def u_cdiv(self, st, fn, args, dt, at, m):
    n = int(m.group(1)) // 64
    e = self.e
    a, b = num(e, st, args[0]), num(e, st, args[1])
    if e.decide(st, eq(b, 0)):
        return NONE
    q = e.fdiv(st, a, b) if m.group(2) == "div" else e.fmod(st, a, b)
    return some(Big(n, q))


@reg("u_absdiff")
@on("~%s::abs_(diff)" % UT, "~core::num::<impl (u8|u16|u32|u64|u128|usize)>::(abs_diff)")
def u_absdiff(self, st, fn, args, dt, at, m):
    e = self.e
    a, b = num(e, st, args[0]), num(e, st, args[1])
    # (equal operands apart: the difference is then known)
    r = sub(b, a) if e.decide(st, lt(a, b)) else 0 if e.decide(st, eq(a, b)) else sub(a, b)
    return Big(int(m.group(1)) // 64, r) if m.group(1)[0].isdigit() else r


@reg("u_divmod")
@on("~%s::div_(mod)" % UT)
def u_divmod(self, st, fn, args, dt, at, m):
    n = int(m.group(1)) // 64
    e = self.e
    a, b = num(e, st, args[0]), num(e, st, args[1])
    if e.decide(st, eq(b, 0)):
        raise PanicExc("division by zero")
    q = e.fdiv(st, a, b)
    return Agg(0, (Big(n, q), Big(n, sub(a, e.mul(st, q, b)))))


@reg("u_exp10")
@on("~%s::exp1(0)" % UT)
def u_exp10(self, st, fn, args, dt, at, m):
    n = int(m.group(1)) // 64
    k = self.e.conc(st, args[0])
    if 10 ** k > bits(n):
        raise PanicExc("arithmetic operation overflow")
    return Big(n, 10 ** k)


@reg("u_isqrt")
@on("~%s::integer_(sqrt)" % UT)
def u_isqrt(self, st, fn, args, dt, at, m):
    import math
    x = num(self.e, st, args[0])
    if isinstance(x, Lin):
        raise Unsup("square root of a symbolic value")
    return Big(int(m.group(1)) // 64, math.isqrt(x))


@reg("u_tz")
@on("~%s::(trailing_zeros|bit|byte)" % UT)
def u_tz(self, st, fn, args, dt, at, m):
    e = self.e
    n = int(m.group(1))
    x = num(e, st, args[0])
    if m.group(2) == "byte":
        return e.bitseg(st, x, 8 * e.conc(st, args[1]), 8)
    if m.group(2) == "bit":
        return eq(e.bitseg(st, x, e.conc(st, args[1]), 1), 1)
    if isinstance(x, int):
        return n if x == 0 else (x & -x).bit_length() - 1
    for i in range(n):
        if not e.decide(st, eq(e.bitseg(st, x, i, 1), 0)):
            return i
    return n


def u_pow(self, st, n, a, k):
    e = self.e
    k = e.conc(st, k)
    r = 1
    over = False
    for _ in range(k):
        r = e.mul(st, r, a)
        if not over and not e.decide(st, le(r, bits(n))):
            over = True
    return r, over


@reg("u_cpow")
@on("~%s::(checked_pow|pow)" % UT)
def u_cpow(self, st, fn, args, dt, at, m):
    n = int(m.group(1)) // 64
    r, over = u_pow(self, st, n, num(self.e, st, args[0]), num(self.e, st, args[1]))
    if m.group(2) == "pow":
        if over:
            raise PanicExc("arithmetic operation overflow")
        return Big(n, r)
    return NONE if over else some(Big(n, r))


@reg("u_ops")
@on("~<&?(?:'a )?%s as core::ops::(?:arith|bit)::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr|Not)(?:<.*>)?>::[a-z]+" % UT)
def u_ops(self, st, fn, args, dt, at, m):
    n = int(m.group(1)) // 64
    e = self.e
    a = num(e, st, args[0])
    o = m.group(2)
    if o == "Not":
        return Big(n, sub(bits(n), a))
    b = num(e, st, args[1])
    if isinstance(args[1], int) or isinstance(args[1], Lin):
        lo, _ = st.interval(b)
        if (lo is None or lo < 0) and not e.decide(st, le(0, b)):
            raise PanicExc("Unsigned integer can't be created from negative value")
    return Big(n, u_arith(self, st, n, o, a, b))


def u_arith(self, st, n, o, a, b):
    e = self.e
    if o in ("Add", "Sub", "Mul"):
        r = e.addr(st, a, b) if o == "Add" else e.subr(st, a, b) if o == "Sub" else e.mulr(st, a, b)
        if not e.decide(st, le(0, r) if o == "Sub" else le(r, bits(n))):
            raise PanicExc("arithmetic operation overflow")
        return r
    if o in ("Div", "Rem"):
        if e.decide(st, eq(b, 0)):
            raise PanicExc("division by zero")
        return e.fdiv(st, a, b) if o == "Div" else e.fmod(st, a, b)
    if o in ("BitAnd", "BitOr", "BitXor"):
        return e.bitop(st, o, a, b, 64 * n, False)
    k = e.conc(st, b)
    if o == "Shl":
        return e.wrap(st, scale(a, 1 << k), 64 * n, False)
    return e.fdiv(st, a, 1 << k)


@reg("u_opassign")
@on("~<%s as core::ops::(?:arith|bit)::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)Assign(?:<.*>)?>::[a-z_]+" % UT)
def u_opassign(self, st, fn, args, dt, at, m):
    n = int(m.group(1)) // 64
    r = args[0]
    x = u_arith(self, st, n, m.group(2), num(self.e, st, r), num(self.e, st, args[1]))
    self.e.write(st, r.base, r.path, Big(n, x))
    return UNIT


@reg("u_eq")
@on("~<%s as core::cmp::PartialEq>::(eq|ne)" % UT)
def u_eq(self, st, fn, args, dt, at, m):
    r = eq(num(self.e, st, args[0]), num(self.e, st, args[1]))
    return r if m.group(2) == "eq" else bnot(r)


@reg("u_cmp")
@on("~<%s as core::cmp::(?:PartialOrd|Ord)>::(partial_cmp|cmp|lt|le|gt|ge|max|min)" % UT)
def u_cmp(self, st, fn, args, dt, at, m):
    a, b = num(self.e, st, args[0]), num(self.e, st, args[1])
    k = m.group(2)
    if k == "partial_cmp":
        return some(OrdV(a, b))
    if k == "cmp":
        return OrdV(a, b)
    if k in ("max", "min"):
        c = self.e.decide(st, le(a, b))
        return Big(int(m.group(1)) // 64, (b if c else a) if k == "max" else (a if c else b))
    return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[k]


@reg("u_iszero")
@on("~%s::is_zero" % UT)
def u_iszero(self, st, fn, args, dt, at, m):
    return eq(num(self.e, st, args[0]), 0)


@reg("u_as")
@on("~%s::(as|low)_(u8|u32|u64|u128|usize)" % UT)
def u_as(self, st, fn, args, dt, at, m):
    x = num(self.e, st, args[0])
    w = 64 if m.group(3) == "usize" else int(m.group(3)[1:])
    if m.group(2) == "low":
        return self.e.wrap(st, x, w, False)
    if not self.e.decide(st, le(x, (1 << w) - 1)):
        raise PanicExc("Integer overflow when casting to " + m.group(3))
    return x


@reg("u_bits")
@on("~%s::(bits|leading_zeros)" % UT)
def u_bits(self, st, fn, args, dt, at, m):
    n = int(m.group(1))
    x = num(self.e, st, args[0])
    k = 0
    lo, hi = 0, n
    while lo < hi:   # smallest k with x < 2^k
        mid = (lo + hi) // 2
        if self.e.decide(st, le(x, (1 << mid) - 1)):
            hi = mid
        else:
            lo = mid + 1
    return lo if m.group(2) == "bits" else n - lo


@reg("u_clone")
@on("~<%s as core::clone::Clone>::clone" % UT)
def u_clone(self, st, fn, args, dt, at, m):
    return Big(int(m.group(1)) // 64, num(self.e, st, args[0]))


# ------------------------------------------------------------------ verification kit
def strof(e, st, r):
    v = e.read(st, r.base, r.path)
    return v.s


@reg("k_any")
@on("vk::any")
def k_any(self, st, fn, args, dt, at):
    e = self.e
    name = strof(e, st, args[0])
    k = st.counts.get(name, 0)
    c = dict(st.counts)
    c[name] = k + 1
    st.counts = c
    key = "%s#%d" % (name, k)
    td = e.tys[dt]
    if dt in e.big:
        n = e.big[dt]
        lo, hi, mkv = 0, bits(n), (lambda x: Big(n, x))
    elif td["k"] == "bool":
        lo, hi, mkv = 0, 1, (lambda x: bnot(le(x, 0)) if not isinstance(x, int) else x == 1)
    else:
        w, s = e.intty(dt)
        lo, hi = e.rng(w, s)
        mkv = lambda x: x
    if e.concrete is not None:
        x = int(e.concrete.get(key, 0))
        return mkv(x)
    # two paths may use one name at different types: a variable each
    while True:
        r = e.ctx.inputs.get(key)
        if r is None or r[2] == (lo, hi):
            break
        key += "~"
    if r is None:
        vid = e.ctx.new_var(name, lo, hi)
        e.ctx.inputs[key] = (vid, td["k"], (lo, hi))
    else:
        vid = r[0]
    st.use(vid)
    return mkv(Lin(((vid, 1),), 0))


@reg("k_assume")
@on("vk::assume")
def k_assume(self, st, fn, args, dt, at):
    self.e.do_assume(st, args[0])
    return UNIT


@reg("k_check")
@on("vk::check")
def k_check(self, st, fn, args, dt, at):
    self.e.do_check(st, args[0], strof(self.e, st, args[1]))
    return UNIT


@reg("k_lemma")
@on("vk::lemma")
def k_lemma(self, st, fn, args, dt, at):
    self.e.do_check(st, args[0], None)
    return UNIT


@reg("k_reach")
@on("vk::reach")
def k_reach(self, st, fn, args, dt, at):
    self.e.do_reach(st, strof(self.e, st, args[0]))
    return UNIT


@reg("k_split")
@on("vk::split")
def k_split(self, st, fn, args, dt, at):
    return self.e.decide(st, args[0])


@reg("k_cases")
@on("vk::cases")
def k_cases(self, st, fn, args, dt, at):
    return self.e.conc(st, args[0])


@reg("k_catch")
@on("vk::catch_begin", "vk::catch_end")
def k_catch(self, st, fn, args, dt, at):
    if fn["def"].endswith("begin"):
        # the frame of vk::catch itself
        st.catch = st.catch + [st.stack[-1].fid]
    else:
        st.catch = st.catch[:-1]
    return UNIT


@reg("k_z")
@on("vk::z_of", "vk::z_add", "vk::z_sub", "vk::z_mul", "vk::z_div", "vk::z_le", "vk::z_eq", "vk::z_posmul")
def k_z(self, st, fn, args, dt, at):
    e = self.e
    o = fn["def"][6:]
    a = num(e, st, args[0])
    if o == "of":
        return a
    b = num(e, st, args[1])
    if o == "add":
        return e.addr(st, a, b)
    if o == "sub":
        return e.subr(st, a, b)
    if o == "mul":
        return e.mulr(st, a, b)
    if o == "div":
        if st.ev3(le(1, b)) is not True and e.feasible(st, le(b, 0)):
            raise Unsup("specification division by a possibly non-positive value")
        return e.fdiv(st, a, b)
    if o == "le":
        return le(a, b)
    if o == "eq":
        return eq(a, b)
    if o == "posmul":
        p = e.mul(st, a, b)
        f = bor(lt(a, 0), lt(b, 0), le(0, p))
        st.assume(f)
        return UNIT


@reg("k_log")
@on("vk::and", "vk::or", "vk::implies", "vk::iff")
def k_log(self, st, fn, args, dt, at):
    a, b = args
    o = fn["def"][4:]
    return {"and": lambda: band(a, b), "or": lambda: bor(a, b), "implies": lambda: bor(bnot(a), b), "iff": lambda: biff(a, b)}[o]()


@reg("k_env")
@on("vk::set_env")
def k_env(self, st, fn, args, dt, at):
    env = dict(st.env)
    env[strof(self.e, st, args[0])] = args[1]
    st.env = env
    return UNIT


@reg("k_getenv")
@on("vk::get_env")
def k_getenv(self, st, fn, args, dt, at):
    return st.env.get(strof(self.e, st, args[0]), 0)


# ------------------------------------------------------------------ Vec
@reg("vec_new")
@on("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "alloc::vec::Vec::<T, A>::with_capacity_in",
    "<alloc::vec::Vec<T> as core::default::Default>::default", "maps::raw_map_new")
def vec_new(self, st, fn, args, dt, at):
    return VecV(())


def vecref(e, st, r):
    """the (base, path) of a Vec behind nested references"""
    v = e.read(st, r.base, r.path)
    while isinstance(v, Ref):
        r = v
        v = e.read(st, r.base, r.path)
    if not isinstance(v, (VecV, Agg)):
        raise Unsup("vector expected, got %r" % (v,))
    return r, v


@reg("vec_push")
@on("alloc::vec::Vec::<T, A>::push")
def vec_push(self, st, fn, args, dt, at):
    r, v = vecref(self.e, st, args[0])
    self.e.write(st, r.base, r.path, VecV(v.f + (args[1],)))
    return UNIT


@reg("vec_pop")
@on("alloc::vec::Vec::<T, A>::pop")
def vec_pop(self, st, fn, args, dt, at):
    r, v = vecref(self.e, st, args[0])
    if not v.f:
        return NONE
    self.e.write(st, r.base, r.path, VecV(v.f[:-1]))
    return some(v.f[-1])


def idx(e, st, i, n):
    """a concrete index, or PanicExc when out of bounds (i < n is decided first)"""
    if isinstance(i, int):
        if i >= n:
            raise PanicExc("index out of bounds")
        return i
    if not e.decide(st, lt(i, n)):
        raise PanicExc("index out of bounds")
    return e.conc(st, i)


@reg("vec_remove")
@on("alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove")
def vec_remove(self, st, fn, args, dt, at):
    r, v = vecref(self.e, st, args[0])
    i = idx(self.e, st, args[1], len(v.f))
    x = v.f[i]
    if fn["def"].endswith("swap_remove"):
        f = list(v.f)
        f[i] = f[-1]
        f.pop()
        self.e.write(st, r.base, r.path, VecV(tuple(f)))
    else:
        self.e.write(st, r.base, r.path, VecV(v.f[:i] + v.f[i + 1:]))
    return x


@reg("vec_one")
@on("~<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::(extend_one|extend_reserve|extend_one_unchecked)",
    "~alloc::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)")
def vec_one(self, st, fn, args, dt, at, m):
    if m.group(1).startswith("extend_one"):
        return self.vec_push(st, fn, args, dt, at)
    return UNIT


@reg("vec_insert")
@on("alloc::vec::Vec::<T, A>::insert")
def vec_insert(self, st, fn, args, dt, at):
    r, v = vecref(self.e, st, args[0])
    i = self.e.conc(st, args[1])
    if i > len(v.f):
        raise PanicExc("insertion index out of bounds")
    self.e.write(st, r.base, r.path, VecV(v.f[:i] + (args[2],) + v.f[i:]))
    return UNIT


@reg("vec_clear")
@on("alloc::vec::Vec::<T, A>::clear", "alloc::vec::Vec::<T, A>::truncate")
def vec_clear(self, st, fn, args, dt, at):
    r, v = vecref(self.e, st, args[0])
    n = 0 if len(args) == 1 else self.e.conc(st, args[1])
    self.e.write(st, r.base, r.path, VecV(v.f[:n]))
    return UNIT


@reg("vec_len")
@on("alloc::vec::Vec::<T, A>::len", "alloc::vec::Vec::<T, A>::capacity")
def vec_len(self, st, fn, args, dt, at):
    return len(vecref(self.e, st, args[0])[1].f)


@reg("vec_isempty")
@on("alloc::vec::Vec::<T, A>::is_empty")
def vec_isempty(self, st, fn, args, dt, at):
    return not vecref(self.e, st, args[0])[1].f


@reg("vec_deref")
@on("~<alloc::vec::Vec<T, A> as core::ops::deref::Deref(Mut)?>::deref(_mut)?", "alloc::vec::Vec::<T, A>::as_slice",
    "alloc::vec::Vec::<T, A>::as_mut_slice", "~<alloc::vec::Vec<T, A> as core::convert::As(Ref|Mut)<.*>>::as_(ref|mut)",
    "~<alloc::vec::Vec<T, A> as core::borrow::Borrow(Mut)?<.*>>::borrow(_mut)?")
def vec_deref(self, st, fn, args, dt, at, m=None):
    r, v = vecref(self.e, st, args[0])
    return Ref(r.base, r.path, (0, len(v.f)))


@reg("vec_clone")
@on("<alloc::vec::Vec<T, A> as core::clone::Clone>::clone", "<hashbrown::map::HashMap<K, V, S, A> as core::clone::Clone>::clone",
    "alloc::slice::<impl [T]>::to_vec")
def vec_clone(self, st, fn, args, dt, at):
    # every element type here is plain data: cloning is copying
    r, v = vecref(self.e, st, args[0])
    if fn["def"].endswith("to_vec"):
        return VecV(self.e.elems(st, args[0]))
    return v


def range_of(e, st, r, n, name):
    """concrete (start, end) of a range value against a length"""
    f = r.f if isinstance(r, Agg) else ()
    if name.endswith("RangeFull"):
        return 0, n
    if name.endswith("RangeFrom"):
        a, b = f[0], n
    elif name.endswith("RangeTo"):
        a, b = 0, f[0]
    elif name.endswith("RangeToInclusive"):
        a, b = 0, add(f[0], 1)
    elif name.endswith("RangeInclusive"):
        a, b = f[0], add(f[1], 1)
    else:
        a, b = f[0], f[1]
    b = e.conc(st, b)
    a = e.conc(st, a)
    if a > b or b > n:
        raise PanicExc("slice index out of range")
    return a, b


@reg("vec_index")
@on("~<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?",
    "~core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \\[T\\]>::index(_mut)?",
    "~core::array::<impl core::ops::index::Index(Mut)?<I> for \\[T; N\\]>::index(_mut)?")
def vec_index(self, st, fn, args, dt, at, m=None):
    e = self.e
    r = args[0]
    if r.meta is None:
        r, v = vecref(e, st, r)
        s0, n = 0, len(v.f)
    else:
        s0, n = r.meta
    i = args[1]
    if isinstance(i, (int, Lin)):
        return Ref(r.base, r.path + (s0 + idx(e, st, i, n),))
    it = e.tys[at[1]]
    a, b = range_of(e, st, i, n, it["n"])
    return Ref(r.base, r.path, (s0 + a, b - a))


@reg("sl_get")
@on("~core::slice::<impl \\[T\\]>::(get|get_mut)")
def sl_get(self, st, fn, args, dt, at, m):
    e = self.e
    r = args[0]
    s0, n = r.meta if r.meta is not None else (0, len(vecref(e, st, r)[1].f))
    i = args[1]
    if not isinstance(i, (int, Lin)):
        try:
            a, b = range_of(e, st, i, n, e.tys[at[1]]["n"])
        except PanicExc:
            return NONE
        return some(Ref(r.base, r.path, (s0 + a, b - a)))
    if not e.decide(st, lt(i, n)):
        return NONE
    return some(Ref(r.base, r.path + (s0 + e.conc(st, i),)))


@reg("sl_len")
@on("core::slice::<impl [T]>::len", "core::slice::<impl [T]>::is_empty")
def sl_len(self, st, fn, args, dt, at):
    n = args[0].meta[1] if args[0].meta is not None else len(self.e.elems(st, args[0]))
    return n == 0 if fn["def"].endswith("is_empty") else n


@reg("sl_last")
@on("~core::slice::<impl \\[T\\]>::(last|first|last_mut|first_mut)")
def sl_last(self, st, fn, args, dt, at, m):
    r = args[0]
    s0, n = r.meta
    if n == 0:
        return NONE
    return some(Ref(r.base, r.path + (s0 + (n - 1 if m.group(1).startswith("last") else 0),)))


@reg("sl_split")
@on("~core::slice::<impl \\[T\\]>::(split_at|split_at_mut|split_first|split_first_mut|split_last|split_last_mut)")
def sl_split(self, st, fn, args, dt, at, m):
    e = self.e
    r = args[0]
    s0, n = r.meta
    o = m.group(1)
    if o.startswith("split_at"):
        k = e.conc(st, args[1])
        if k > n:
            raise PanicExc("mid > len")
        return Agg(0, (Ref(r.base, r.path, (s0, k)), Ref(r.base, r.path, (s0 + k, n - k))))
    if n == 0:
        return NONE
    if o.startswith("split_first"):
        return some(Agg(0, (Ref(r.base, r.path + (s0,)), Ref(r.base, r.path, (s0 + 1, n - 1)))))
    return some(Agg(0, (Ref(r.base, r.path + (s0 + n - 1,)), Ref(r.base, r.path, (s0, n - 1)))))


@reg("sl_parts")
@on("~core::slice::<impl \\[T\\]>::(windows|chunks|chunks_exact|chunks_mut)")
def sl_parts(self, st, fn, args, dt, at, m):
    r = args[0]
    s0, n = r.meta
    k = self.e.conc(st, args[1])
    if k == 0:
        raise PanicExc("size is zero")
    o = m.group(1)
    if o == "windows":
        parts = [(i, k) for i in range(0, n - k + 1)]
    else:
        parts = [(i, min(k, n - i)) for i in range(0, n, k) if o != "chunks_exact" or n - i >= k]
    return VecV(tuple(Ref(r.base, r.path, (s0 + i, l)) for i, l in parts))


@reg("sl_copy")
@on("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def sl_copy(self, st, fn, args, dt, at):
    e = self.e
    r = args[0]
    src = e.elems(st, args[1])
    s0, n = r.meta
    if len(src) != n:
        raise PanicExc("copy_from_slice: length mismatch")
    v = e.read(st, r.base, r.path)
    if isinstance(v, Big):
        v = Agg(0, e.limbs(v))
    f = v.f[:s0] + tuple(src) + v.f[s0 + n:]
    e.write(st, r.base, r.path, VecV(f) if isinstance(v, VecV) else Agg(v.v, f))
    return UNIT


@reg("sl_swap")
@on("core::slice::<impl [T]>::swap")
def sl_swap(self, st, fn, args, dt, at):
    e = self.e
    r = args[0]
    s0, n = r.meta
    i, j = s0 + idx(e, st, args[1], n), s0 + idx(e, st, args[2], n)
    a, b = e.read(st, r.base, r.path + (i,)), e.read(st, r.base, r.path + (j,))
    e.write(st, r.base, r.path + (i,), b)
    e.write(st, r.base, r.path + (j,), a)
    return UNIT


@reg("sl_reverse")
@on("core::slice::<impl [T]>::reverse")
def sl_reverse(self, st, fn, args, dt, at):
    e = self.e
    r = args[0]
    s0, n = r.meta
    v = e.read(st, r.base, r.path)
    f = v.f[:s0] + tuple(reversed(v.f[s0:s0 + n])) + v.f[s0 + n:]
    e.write(st, r.base, r.path, VecV(f) if isinstance(v, VecV) else Agg(v.v, f))
    return UNIT


@reg("sl_iter")
@on("~core::slice::<impl \\[T\\]>::iter(_mut)?", "~<&'a (?:mut )?\\[T\\] as core::iter::traits::collect::IntoIterator>::into_iter",
    "~<&'a (?:mut )?alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
    "~core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a (?:mut )?\\[T\\]>::into_iter")
def sl_iter(self, st, fn, args, dt, at, m=None):
    r = args[0]
    if r.meta is None:
        r, v = vecref(self.e, st, r)
        r = Ref(r.base, r.path, (0, len(v.f)))
    return Opq("iter", (r, 0, r.meta[1]))


@reg("sl_next")
@on("~<core::slice::iter::Iter(?:Mut)?<'a, T> as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)")
def sl_next(self, st, fn, args, dt, at, m):
    e = self.e
    it = args[0]
    r, a, b = e.read(st, it.base, it.path).data
    if a >= b:
        return NONE
    if m.group(1) == "next":
        e.write(st, it.base, it.path, Opq("iter", (r, a + 1, b)))
        i = a
    else:
        e.write(st, it.base, it.path, Opq("iter", (r, a, b - 1)))
        i = b - 1
    return some(Ref(r.base, r.path + (r.meta[0] + i,)))


@reg("sl_hint")
@on("~<core::slice::iter::Iter(?:Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::size_hint",
    "~<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::size_hint")
def sl_hint(self, st, fn, args, dt, at):
    it = args[0]
    d = self.e.read(st, it.base, it.path)
    n = d.data[2] - d.data[1] if isinstance(d, Opq) else len(d.f)
    return Agg(0, (n, some(n)))


@reg("sl_rest")
@on("~core::slice::iter::Iter::<'a, T>::as_slice", "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked",
    "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked",
    "<core::slice::iter::Iter<'_, T> as core::clone::Clone>::clone", "<core::slice::iter::Iter<'a, T> as core::clone::Clone>::clone")
def sl_rest(self, st, fn, args, dt, at):
    d = args[0]
    d = self.e.read(st, d.base, d.path)
    if fn["def"].endswith("clone"):
        return d
    r, a, b = d.data
    if fn["def"].endswith("as_slice"):
        return Ref(r.base, r.path, (r.meta[0] + a, b - a))
    return Ref(r.base, r.path + (r.meta[0] + a + self.e.conc(st, args[1]),))


@reg("parts_hint")
@on("~<core::slice::iter::(?:Windows|Chunks|ChunksExact|ChunksMut)<.*> as core::iter::traits::iterator::Iterator>::(size_hint|count)",
    "~<hashbrown::map::(?:IntoIter|IntoKeys|IntoValues|Drain|Iter|IterMut|Keys|Values|ValuesMut)<.*> as core::iter::traits::iterator::Iterator>::(size_hint|count)",
    "~<alloc::vec::drain::Drain<.*> as core::iter::traits::iterator::Iterator>::(size_hint|count)",
    "~<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::(size_hint|count)")
def parts_hint(self, st, fn, args, dt, at, m):
    d = args[0]
    if isinstance(d, Ref):
        d = self.e.read(st, d.base, d.path)
    n = d.data[2] - d.data[1] if isinstance(d, Opq) else len(d.f)
    return n if m.group(1) == "count" else Agg(0, (n, some(n)))


@reg("vec_drain")
@on("alloc::vec::Vec::<T, A>::drain")
def vec_drain(self, st, fn, args, dt, at):
    # what is left out is removed at once: the borrow keeps anyone from looking before the iterator is gone
    e = self.e
    r, v = vecref(e, st, args[0])
    a, b = range_of(e, st, args[1], len(v.f), e.tys[at[1]]["n"])
    e.write(st, r.base, r.path, VecV(v.f[:a] + v.f[b:]))
    return VecV(v.f[a:b])


@reg("map_into")
@on("<hashbrown::map::HashMap<K, V, S, A> as core::iter::traits::collect::IntoIterator>::into_iter",
    "hashbrown::map::HashMap::<K, V, S, A>::into_keys", "hashbrown::map::HashMap::<K, V, S, A>::into_values",
    "hashbrown::map::HashMap::<K, V, S, A>::drain")
def map_into(self, st, fn, args, dt, at):
    d = fn["def"]
    v = args[0]
    if d.endswith("drain"):
        r, v = vecref(self.e, st, args[0])
        self.e.write(st, r.base, r.path, VecV(()))
    if d.endswith("into_keys"):
        return VecV(tuple(x.f[0] for x in v.f))
    if d.endswith("into_values"):
        return VecV(tuple(x.f[1] for x in v.f))
    return VecV(v.f)


@reg("sl_count")
@on("~<core::slice::iter::Iter(?:Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::count",
    "~<core::slice::iter::Iter(?:Mut)?<'., T> as core::iter::traits::exact_size::ExactSizeIterator>::len")
def sl_count(self, st, fn, args, dt, at):
    d = args[0]
    if isinstance(d, Ref):
        d = self.e.read(st, d.base, d.path)
    return d.data[2] - d.data[1]


@reg("vec_intoiter")
@on("<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
    "<[T; N] as core::iter::traits::collect::IntoIterator>::into_iter",
    "core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter",
    "<alloc::vec::Vec<T> as core::convert::From<[T; N]>>::from")
def vec_intoiter(self, st, fn, args, dt, at):
    return VecV(args[0].f)


@reg("vec_intonext")
@on("~<core::slice::iter::(?:Windows|Chunks|ChunksExact|ChunksMut)<'a, T> as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)",
    "~<hashbrown::map::(?:IntoIter|IntoKeys|IntoValues|Drain)<.*> as core::iter::traits::iterator::Iterator>::(next)",
    "~<alloc::vec::drain::Drain<'a, T, A> as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)",
    "~<alloc::vec::drain::Drain<'_, T, A> as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)",
    "~<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)",
    "~<core::array::iter::IntoIter<T, N> as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::(next|next_back)")
def vec_intonext(self, st, fn, args, dt, at, m):
    e = self.e
    it = args[0]
    v = e.read(st, it.base, it.path)
    if not v.f:
        return NONE
    if m.group(1) == "next":
        e.write(st, it.base, it.path, VecV(v.f[1:]))
        return some(v.f[0])
    e.write(st, it.base, it.path, VecV(v.f[:-1]))
    return some(v.f[-1])


@reg("vec_boxed")
@on("alloc::vec::Vec::<T, A>::into_boxed_slice")
def vec_boxed(self, st, fn, args, dt, at):
    v = args[0]
    return self.e.wrapptr(Ref(st.new_heap(v), (), (0, len(v.f))), dt)


@reg("vec_toarray")
@on("alloc::vec::<impl core::convert::TryFrom<alloc::vec::Vec<T, A>> for [T; N]>::try_from")
def vec_toarray(self, st, fn, args, dt, at):
    v = args[0]
    return ok(Agg(0, v.f)) if len(v.f) == fn["args"][-1]["c"] else err(v)


@reg("box_uninit")
@on("alloc::boxed::Box::<T>::new_uninit", "alloc::boxed::Box::<T>::new_uninit_in")
def box_uninit(self, st, fn, args, dt, at):
    b = st.new_heap(None)
    return self.e.wrapptr(Ref(b), dt)


@reg("box_new")
@on("alloc::boxed::Box::<T>::new", "alloc::boxed::Box::<T>::pin")
def box_new(self, st, fn, args, dt, at):
    return self.e.wrapptr(Ref(st.new_heap(args[0])), dt)


def inner_ref(v):
    while isinstance(v, Agg):
        v = v.f[0]
    return v


@reg("box_vec")
@on("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec")
def box_vec(self, st, fn, args, dt, at):
    e = self.e
    r = inner_ref(args[0])
    v = e.read(st, r.base, r.path)
    t = e.tys[fn["sig"][0]]["a"][0] if "impl [T]" not in fn["def"] else None
    while t is not None and e.tys[t]["k"] == "adt":
        # MaybeUninit / ManuallyDrop / MaybeDangling around the array
        td = e.tys[t]
        t = td["v"][0]["f"][1 if td.get("union") else 0][1]
        v = v.f[0]
    return VecV(v.f)


@reg("arrlen")
def arrlen(self, fn):
    for a in fn["args"]:
        if isinstance(a, dict) and "c" in a:
            return a["c"]
    return None


# ------------------------------------------------------------------ raw maps (Rust models in vk)
@reg("raw_map")
@on("~maps::raw_map_(len|key|val|val_mut|push|remove_at|occ|vac)")
def raw_map(self, st, fn, args, dt, at, m):
    e = self.e
    r, v = vecref(e, st, args[0])
    o = m.group(1)
    if o == "len":
        return len(v.f)
    if o == "push":
        e.write(st, r.base, r.path, VecV(v.f + (Agg(0, (args[1], args[2])),)))
        return UNIT
    if o == "vac":
        return Agg(0, (r, args[1]))
    i = e.conc(st, args[1])
    if o == "occ":
        return Agg(0, (r, i))
    if o == "remove_at":
        e.write(st, r.base, r.path, VecV(v.f[:i] + v.f[i + 1:]))
        return v.f[i]
    return Ref(r.base, r.path + (i, 0 if o == "key" else 1))


@reg("map_occ")
@on("~hashbrown::map::OccupiedEntry::<.*>::(get|get_mut|into_mut|insert|remove|remove_entry|key)")
def map_occ(self, st, fn, args, dt, at, m):
    e = self.e
    o = m.group(1)
    x = args[0]
    if isinstance(x, Ref):
        x = e.read(st, x.base, x.path)
    r, i = x.f
    v = e.read(st, r.base, r.path)
    if o in ("get", "get_mut", "into_mut"):
        return Ref(r.base, r.path + (i, 1))
    if o == "key":
        return Ref(r.base, r.path + (i, 0))
    if o == "insert":
        old = v.f[i].f[1]
        e.write(st, r.base, r.path + (i, 1), args[1])
        return old
    e.write(st, r.base, r.path, VecV(v.f[:i] + v.f[i + 1:]))
    return v.f[i].f[1] if o == "remove" else v.f[i]


@reg("map_vac")
@on("~hashbrown::map::VacantEntry::<.*>::(insert|into_key)")
def map_vac(self, st, fn, args, dt, at, m):
    e = self.e
    r, k = args[0].f
    if m.group(1) == "into_key":
        return k
    v = e.read(st, r.base, r.path)
    e.write(st, r.base, r.path, VecV(v.f + (Agg(0, (k, args[1])),)))
    return Ref(r.base, r.path + (len(v.f), 1))


@reg("map_default")
@on("<hashbrown::map::HashMap<K, V, S, A> as core::default::Default>::default", "hashbrown::map::HashMap::<K, V>::new",
    "hashbrown::map::HashMap::<K, V>::with_capacity", "~<std::collections::hash::map::HashMap<K, V, S(?:, A)?> as core::default::Default>::default",
    "std::collections::hash::map::HashMap::<K, V>::new", "std::collections::hash::map::HashMap::<K, V>::with_capacity")
def map_default(self, st, fn, args, dt, at, m=None):
    return VecV(())


@reg("raw_array")
@on("maps::raw_array")
def raw_array(self, st, fn, args, dt, at):
    return Agg(0, args[0].f)


@reg("map_len")
@on("hashbrown::map::HashMap::<K, V, S, A>::is_empty", "hashbrown::map::HashMap::<K, V, S, A>::len")
def map_len(self, st, fn, args, dt, at):
    r, v = vecref(self.e, st, args[0])
    return len(v.f) if fn["def"].endswith("len") else not v.f


@reg("map_clear")
@on("hashbrown::map::HashMap::<K, V, S, A>::clear")
def map_clear(self, st, fn, args, dt, at):
    r, v = vecref(self.e, st, args[0])
    self.e.write(st, r.base, r.path, VecV(()))
    return UNIT


@reg("map_iter")
@on("~hashbrown::map::HashMap::<K, V, S, A>::(iter|iter_mut|keys|values|values_mut)",
    "~<&'a hashbrown::map::HashMap<K, V, S, A> as core::iter::traits::collect::(IntoIterator)>::into_iter")
def map_iter(self, st, fn, args, dt, at, m):
    r, v = vecref(self.e, st, args[0])
    return Opq("mapiter", (r, 0, len(v.f), m.group(1)))


@reg("map_next")
@on("~<hashbrown::map::(Iter|IterMut|Keys|Values|ValuesMut)<'a, K, V> as core::iter::traits::iterator::Iterator>::next")
def map_next(self, st, fn, args, dt, at, m):
    e = self.e
    it = args[0]
    r, a, b, k = e.read(st, it.base, it.path).data
    if a >= b:
        return NONE
    e.write(st, it.base, it.path, Opq("mapiter", (r, a + 1, b, k)))
    K = Ref(r.base, r.path + (a, 0))
    V = Ref(r.base, r.path + (a, 1))
    return some(K if k == "keys" else V if k.startswith("values") else Agg(0, (K, V)))


# ------------------------------------------------------------------ memory, intrinsics
@reg("mem_drop")
@on("core::mem::drop", "core::mem::forget", "core::intrinsics::cold_path", "core::hint::assert_unchecked",
    "~.*::precondition_check", "core::sync::atomic::spin_loop_hint", "core::intrinsics::assume",
    "core::hint::cold_path", "core::intrinsics::assert_inhabited", "gstd::critical::set_hook", "~core::ub_checks::.*")
def mem_drop(self, st, fn, args, dt, at):
    if self.e.tys[dt]["k"] == "bool":
        return False
    return UNIT


@reg("mem_repl")
@on("core::mem::replace", "core::mem::swap")
def mem_repl(self, st, fn, args, dt, at):
    e = self.e
    r = args[0]
    v = e.read(st, r.base, r.path)
    if fn["def"].endswith("replace"):
        e.write(st, r.base, r.path, args[1])
        return v
    r2 = args[1]
    v2 = e.read(st, r2.base, r2.path)
    e.write(st, r.base, r.path, v2)
    e.write(st, r2.base, r2.path, v)
    return UNIT


@reg("ptr_rw")
@on("~core::ptr::(read|write)", "~core::intrinsics::(read_via_copy|write_via_move)")
def ptr_rw(self, st, fn, args, dt, at, m):
    r = args[0]
    if m.group(1).startswith("read"):
        return self.e.deref(st, r)
    self.e.write(st, r.base, r.path, args[1])
    return UNIT


@reg("clone_prim")
@on("~core::clone::impls::<impl core::clone::Clone for .*>::clone", "~<&T as core::clone::Clone>::clone",
    "<alloc::string::String as core::clone::Clone>::clone", "~core::array::<impl core::clone::Clone for \\[T; N\\]>::clone")
def clone_prim(self, st, fn, args, dt, at):
    return self.e.deref(st, args[0])


@reg("intr_eq")
@on("core::intrinsics::raw_eq", "core::intrinsics::compare_bytes")
def intr_eq(self, st, fn, args, dt, at):
    e = self.e
    if fn["def"].endswith("raw_eq"):
        a, b = (e.deref(st, r) for r in args)
        return rawcmp_eq(e, st, a, b)
    n = e.conc(st, args[2])

    def run(r):
        if r.meta is not None:
            return e.elems(st, r)[:n]
        if r.path and isinstance(r.path[-1], int):
            return e.read(st, r.base, r.path[:-1]).f[r.path[-1]:r.path[-1] + n]
        return e.read(st, r.base, r.path).f[:n]
    A, Bv = run(args[0]), run(args[1])
    for x, y in zip(A, Bv):
        if not e.decide(st, eq(x, y)):
            return -1 if e.decide(st, lt(x, y)) else 1
    return 0


def rawcmp_eq(e, st, a, b):
    if isinstance(a, Agg) or isinstance(a, VecV):
        if not isinstance(b, (Agg, VecV)):
            raise Unsup("raw comparison of %r and %r" % (a, b))
        if len(a.f) != len(b.f) or (isinstance(a, Agg) and a.v != b.v):
            return False
        return band(*[rawcmp_eq(e, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Big):
        return eq(a.x, b.x) if isinstance(b, Big) else False
    if isinstance(a, (bool, B)):
        return biff(a, b) if isinstance(b, (bool, B)) else False
    if isinstance(a, StrV):
        return isinstance(b, StrV) and a.s == b.s
    if isnum(a) and not isnum(b):
        raise Unsup("raw comparison of %r and %r" % (a, b))
    if isnum(a):
        return eq(a, b)
    raise Unsup("raw comparison of %r" % (a,))


@reg("sl_eq")
@on("~core::slice::cmp::<impl core::cmp::PartialEq<\\[U\\]> for \\[T\\]>::(eq|ne)",
    "~alloc::vec::partial_eq::<impl core::cmp::PartialEq<.*> for .*>::(eq|ne)")
def sl_eq(self, st, fn, args, dt, at, m):
    e = self.e
    a, b = args
    if a.meta is None:
        a = vecref(e, st, a)[0]
    if b.meta is None:
        b = vecref(e, st, b)[0]
    x, y = e.elems(st, a), e.elems(st, b)
    r = False if len(x) != len(y) else band(*[rawcmp_eq(e, st, p, q) for p, q in zip(x, y)])
    return r if m.group(1) == "eq" else bnot(r)


@reg("intr_bits")
@on("core::intrinsics::ctpop", "core::intrinsics::ctlz", "core::intrinsics::ctlz_nonzero", "core::intrinsics::cttz", "core::intrinsics::cttz_nonzero")
def intr_bits(self, st, fn, args, dt, at):
    e = self.e
    w, s = e.intty(fn["args"][0])
    x = args[0]
    d = fn["def"]
    if isinstance(x, int):
        x &= (1 << w) - 1
        if "ctpop" in d:
            return bin(x).count("1")
        if "ctlz" in d:
            return w - x.bit_length()
        return w if x == 0 else (x & -x).bit_length() - 1
    if "ctpop" in d:
        r = 0
        for i in range(w):
            r = add(r, e.bitseg(st, x, i, 1))
        return r
    if "ctlz" in d:
        lo, hi = 0, w
        while lo < hi:
            mid = (lo + hi) // 2
            if e.decide(st, le(x, (1 << mid) - 1)):
                hi = mid
            else:
                lo = mid + 1
        return w - lo
    for i in range(w):
        if not e.decide(st, eq(e.bitseg(st, x, i, 1), 0)):
            return i
    return w


@reg("intr_rot")
@on("~core::intrinsics::(rotate_left|rotate_right|bswap|bitreverse)")
def intr_rot(self, st, fn, args, dt, at, m):
    e = self.e
    w, s = e.intty(fn["args"][0])
    x = e.wrap(st, args[0], w, False)
    o = m.group(1)
    if o.startswith("rotate"):
        k = e.conc(st, args[1]) % w
        if o == "rotate_right":
            k = (w - k) % w
        hi = e.fdiv(st, x, 1 << (w - k))
        r = add(scale(sub(x, scale(hi, 1 << (w - k))), 1 << k), hi)
    elif o == "bswap":
        r = 0
        for i in range(w // 8):
            r = add(r, scale(e.bitseg(st, x, 8 * i, 8), 1 << (w - 8 - 8 * i)))
    else:
        r = 0
        for i in range(w):
            r = add(r, scale(e.bitseg(st, x, i, 1), 1 << (w - 1 - i)))
    return e.wrap(st, r, w, s)


@reg("intr_misc")
@on("core::intrinsics::is_val_statically_known")
def intr_misc(self, st, fn, args, dt, at):
    return False


@reg("intr_3way")
@on("core::intrinsics::three_way_compare")
def intr_3way(self, st, fn, args, dt, at):
    return OrdV(args[0], args[1])


@reg("intr_size")
@on("core::intrinsics::size_of", "core::mem::size_of", "core::intrinsics::size_of_val")
def intr_size(self, st, fn, args, dt, at):
    return self.e.size(fn["args"][0])


@reg("intr_minmax")
@on("~core::intrinsics::integer_(max|min)")
def intr_minmax(self, st, fn, args, dt, at, m):
    a, b = args
    c = self.e.decide(st, le(a, b))
    return (b if c else a) if m.group(1) == "max" else (a if c else b)


@reg("intr_arith")
@on("~core::intrinsics::(wrapping|unchecked|saturating|exact)_(add|sub|mul|div|rem|shl|shr)")
def intr_arith(self, st, fn, args, dt, at, m):
    e = self.e
    w, s = e.intty(fn["args"][0])
    o = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr"}[m.group(2)]
    if m.group(1) == "saturating":
        r = add(*args) if o == "Add" else sub(*args)
        lo, hi = e.rng(w, s)
        if not e.decide(st, le(r, hi)):
            return hi
        if not e.decide(st, le(lo, r)):
            return lo
        return r
    return e.binop(st, o, args[0], args[1], fn["args"][0])


@reg("intr_ovf")
@on("~core::intrinsics::(add|sub|mul)_with_overflow")
def intr_ovf(self, st, fn, args, dt, at, m):
    return self.e.cbinop(st, m.group(1).capitalize(), args[0], args[1], fn["args"][0])


@reg("any_name")
@on("core::any::type_name", "core::any::type_name_of_val")
def any_name(self, st, fn, args, dt, at):
    return Ref(("V", StrV("type"), None))


# ------------------------------------------------------------------ strings and formatting: contents are not tracked
@reg("str_new")
@on("alloc::string::String::new", "<alloc::string::String as core::default::Default>::default")
def str_new(self, st, fn, args, dt, at):
    return StrV("")


@reg("str_from")
@on("<alloc::string::String as core::convert::From<&str>>::from", "alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned",
    "<str as alloc::string::ToString>::to_string", "<str as alloc::string::SpecToString>::spec_to_string",
    "<T as alloc::string::ToString>::to_string", "alloc::string::ToString::to_string")
def str_from(self, st, fn, args, dt, at):
    v = args[0]
    v = self.e.read(st, v.base, v.path) if isinstance(v, Ref) else v
    if isinstance(v, Ref):
        v = self.e.read(st, v.base, v.path)
    return v if isinstance(v, StrV) else StrV("?")


@reg("str_any")
@on("alloc::fmt::format", "alloc::slice::<impl [T]>::join", "alloc::string::String::from_utf8_lossy",
    "alloc::str::<impl str>::replace", "alloc::str::join_generic_copy", "alloc::fmt::format::format_inner", nobody=False)
def str_any(self, st, fn, args, dt, at):
    return StrV("?")


@reg("must_use")
@on("core::hint::must_use", "core::hint::black_box", "core::convert::identity")
def must_use(self, st, fn, args, dt, at):
    return args[0]


@reg("sl_concat")
@on("alloc::slice::<impl [T]>::concat")
def sl_concat(self, st, fn, args, dt, at):
    e = self.e
    out = []
    for x in e.elems(st, args[0]):
        if isinstance(x, Ref):
            out.extend(e.elems(st, x))
        elif isinstance(x, (VecV, Agg)):
            out.extend(x.f)
        else:
            return VecV(())
    return VecV(tuple(out))


@reg("str_deref")
@on("<alloc::string::String as core::ops::deref::Deref>::deref", "alloc::string::String::as_str",
    "<alloc::string::String as core::convert::AsRef<str>>::as_ref", "core::str::<impl str>::trim",
    "<alloc::string::String as core::borrow::Borrow<str>>::borrow")
def str_deref(self, st, fn, args, dt, at):
    return args[0]


@reg("str_len")
@on("core::str::<impl str>::len", "alloc::string::String::len", "core::str::<impl str>::is_empty", "alloc::string::String::is_empty")
def str_len(self, st, fn, args, dt, at):
    v = D(self.e, st, args[0])
    if v.s == "?":
        raise Unsup("length of an untracked string")
    return not v.s if fn["def"].endswith("is_empty") else len(v.s)


@reg("str_index")
@on("~core::str::traits::<impl core::ops::index::Index<I> for str>::index")
def str_index(self, st, fn, args, dt, at):
    return args[0]


@reg("str_eq")
@on("~<alloc::string::String as core::cmp::PartialEq.*>::(eq|ne)", "~core::str::traits::<impl core::cmp::PartialEq for str>::(eq|ne)")
def str_eq(self, st, fn, args, dt, at, m):
    a, b = D(self.e, st, args[0]), D(self.e, st, args[1])
    while isinstance(a, Ref):
        a = self.e.read(st, a.base, a.path)
    while isinstance(b, Ref):
        b = self.e.read(st, b.base, b.path)
    if a.s == "?" or b.s == "?":
        raise Unsup("comparison of an untracked string")
    return (a.s == b.s) == (m.group(1) == "eq")


@reg("fmt_any")
@on("~core::fmt::.*", "~<.* as core::fmt::.*>::fmt")
def fmt_any(self, st, fn, args, dt, at):
    td = self.e.tys[dt]
    if td["k"] == "adt" and td["n"] == "core::result::Result":
        return ok(UNIT)
    return Opq("fmt")


# ------------------------------------------------------------------ async plumbing
@reg("pin_new")
@on("core::pin::Pin::<Ptr>::new_unchecked", "core::pin::Pin::<Ptr>::new")
def pin_new(self, st, fn, args, dt, at):
    return Agg(0, (args[0],))


@reg("pin_get")
@on("core::pin::Pin::<&'a mut T>::get_unchecked_mut", "core::pin::Pin::<&'a mut T>::get_mut", "core::pin::Pin::<Ptr>::as_mut",
    "core::pin::Pin::<&mut T>::get_unchecked_mut", "core::pin::Pin::<&'a T>::get_ref", "core::pin::Pin::<&'a mut T>::into_ref")
def pin_get(self, st, fn, args, dt, at):
    a = args[0]
    if isinstance(a, Ref):   # Pin::as_mut(&mut self)
        v = self.e.read(st, a.base, a.path)
        return v
    return a.f[0]


@reg("pin_deref")
@on("~<core::pin::Pin<Ptr> as core::ops::deref::Deref(?:Mut)?>::deref(?:_mut)?")
def pin_deref(self, st, fn, args, dt, at):
    return D(self.e, st, args[0]).f[0]


@reg("pin_map")
@on("core::pin::Pin::<Ptr>::set", "core::pin::Pin::<&'a mut T>::set")
def pin_set(self, st, fn, args, dt, at):
    r = args[0]   # &mut Pin<&mut T>
    r = (self.e.read(st, r.base, r.path) if isinstance(r, Ref) else r).f[0]
    self.e.write(st, r.base, r.path, args[1])
    return UNIT


@reg("waker")
@on("core::task::wake::Waker::noop", "core::task::wake::Context::<'a>::from_waker")
def waker(self, st, fn, args, dt, at):
    return Ref(("V", Opq("waker"), None)) if fn["def"].endswith("noop") else Opq("context")


@reg("hash_get")
@on("~core::cell::UnsafeCell::<T>::(get|get_mut|into_inner|raw_get)")
def cell_get(self, st, fn, args, dt, at, m):
    r = args[0]
    return Ref(r.base, r.path + (0,))


# ------------------------------------------------------------------ Gear
@reg("g_env")
@on("gcore::exec::block_height", "gcore::exec::block_timestamp", "gcore::exec::gas_available", "gcore::exec::program_id",
    "gcore::msg::source", "gcore::msg::value", "gcore::msg::id")
def g_env(self, st, fn, args, dt, at):
    k = fn["def"].split("::")[-1]
    v = st.env.get(k, 0)
    td = self.e.tys[dt]
    if td["k"] == "adt" and isnum(v):   # ActorId / MessageId with the value in byte 0
        return Agg(0, (Agg(0, (v,) + (0,) * 31),))
    return v


@reg("g_leave")
@on("gcore::exec::leave", "gstd::exec::leave", "gcore::exec::exit")
def g_leave(self, st, fn, args, dt, at):
    env = dict(st.env)
    env["left"] = 1
    st.env = env
    raise PanicExc("exec::leave")


@reg("g_notify")
@on("sails_rs::gstd::events::__notify_on")
def g_notify(self, st, fn, args, dt, at):
    env = dict(st.env)
    env["events"] = add(env.get("events", 0), 1)
    st.env = env
    return ok(UNIT)


# ------------------------------------------------------------------ messages (raw pieces of maps.rs)
def encode(e, st, t, v, out):
    """the SCALE encoding of a value as a list of typed leaves (comparable, not bytes)"""
    td = e.tys[t]
    k = td["k"]
    while isinstance(v, Ref):
        if v.meta is not None and k in ("ref", "ptr"):
            break
        v = e.read(st, v.base, v.path)
        if k in ("ref", "ptr"):
            t = td["e"]
            td = e.tys[t]
            k = td["k"]
    if isinstance(v, Ref):
        for x in e.elems(st, v):
            encode(e, st, e.tys[td["e"]]["e"], x, out)
        return
    if isinstance(v, StrV):
        out.append(v)
    elif isinstance(v, Big):
        out.append(v)
    elif isinstance(v, (bool, B)):
        out.append(v)
    elif isnum(v):
        w = td.get("w", 0)
        out.append(v if w == 8 else Agg(("int", w), (v,)))
    elif isinstance(v, VecV):
        out.append(Agg(("len",), (len(v.f),)))
        raise Unsup("encoding of a vector")
    elif isinstance(v, Agg):
        if k == "tuple":
            for x, tt in zip(v.f, td["f"]):
                encode(e, st, tt, x, out)
        elif k == "array":
            for x in v.f:
                encode(e, st, td["e"], x, out)
        elif k == "adt":
            if len(td["v"]) > 1:
                out.append(Agg(("variant",), (v.v,)))
            for x, f in zip(v.f, td["v"][v.v if len(td["v"]) > 1 else 0]["f"]):
                encode(e, st, f[1], x, out)
        else:
            raise Unsup("encoding of %s" % k)
    else:
        raise Unsup("encoding of %r" % (v,))


@reg("raw_encode")
@on("maps::raw_encode", "~<.* as parity_scale_codec::codec::Encode>::(encode)", "~(parity_scale_codec)::codec::Encode::encode")
def raw_encode(self, st, fn, args, dt, at, m=None):
    out = []
    t = fn["args"][0] if fn.get("args") and isinstance(fn["args"][0], int) else None
    e = self.e
    encode(e, st, at[0], args[0], out)
    return VecV(tuple(out))


def payload(e, st, a):
    """fields of a net::Answer"""
    return a.f[0], D(e, st, a.f[1]).s, D(e, st, a.f[2]).s, a.f[3]


@reg("raw_decode")
@on("maps::raw_decode")
def raw_decode(self, st, fn, args, dt, at):
    e = self.e
    kind, s, a, r = payload(e, st, args[0])
    kind = e.conc(st, kind)
    t = e.tys[dt]["a"][0]
    td = e.tys[t]
    n = td.get("n", "")
    if td["k"] == "tuple" and len(td["f"]) == 3:
        if kind != 0:
            return NONE
        return some(Agg(0, (StrV(s), StrV(a), r)))
    if n.endswith("string::String"):
        return some(StrV(s)) if kind in (0, 1) else NONE
    raise Unsup("decoding an answer as %s" % (td,))


@reg("raw_future")
@on("maps::raw_future")
def raw_future(self, st, fn, args, dt, at):
    return Agg(0, (args[0], args[1], UNIT))


@reg("raw_deposit")
@on("maps::raw_deposit")
def raw_deposit(self, st, fn, args, dt, at):
    return D(self.e, st, args[0]).f[1]


@reg("raw_error")
@on("maps::raw_error")
def raw_error(self, st, fn, args, dt, at):
    name = strof(self.e, st, args[0])
    for i, v in enumerate(self.e.tys[dt]["v"]):
        if v["n"] == name:
            return Agg(i, tuple(Opq("gstd error") for _ in v["f"]))
    raise Unsup("no error " + name)


@reg("raw_hook")
@on("~maps::raw_hook_(push|has|run)")
def raw_hook(self, st, fn, args, dt, at, m):
    e = self.e
    hooks = st.env.get("hooks", ())
    env = dict(st.env)
    o = m.group(1)
    if o == "push":
        env["hooks"] = hooks + ((args[0], args[1], args[2]),)
        st.env = env
        return UNIT
    for i, h in enumerate(hooks):
        if rawcmp_eq(e, st, h[0], args[0]) is True:
            if o == "has":
                return True
            env["hooks"] = hooks[:i] + hooks[i + 1:]
            st.env = env
            return E.Tail(h[2].i, [h[1]])
    if o == "has":
        return False
    raise Unsup("no hook")


@reg("g_debug")
@on("gcore::utils::ext::debug", "gcore::utils::ext::debug_str")
def g_debug(self, st, fn, args, dt, at):
    return ok(UNIT) if self.e.tys[dt]["k"] == "adt" else UNIT
