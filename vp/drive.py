"""Path exploration, proving, counterexamples."""
import json, os, random, subprocess, sys, tempfile, time
import z3
from sym import *
import engine
from engine import *


class Violation(Exception):
    def __init__(self, label, asg, where):
        self.label, self.asg, self.where = label, asg, where


class Drive(Engine):
    def __init__(self, data, opts=None, log=None):
        super().__init__(data, log, opts)
        o = self.opts
        self.max_paths = int(o.get("max_paths", 20000))
        self.max_steps = int(o.get("max_steps", 5000000))
        self.deadline = time.time() + float(o.get("time", 600))
        self.lin_ms = int(o.get("lin_ms", 3000))
        self.nl_s = float(o.get("nl_s", 30))
        self.use_nl = o.get("nl", True)
        self.checks = {}
        self.reached = {}
        self.unknown = []
        self.violation = None
        self.paths = 0
        self.lia_goal = Lia(self.lin_ms)
        self.trace_goals = o.get("trace")
        self.total_steps = 0
        self.reach_try = {}
        self.reach_pending = {}
        self.witness = {}
        self.inconclusive_goals = []

    # ------------------------------------------------------------ exploring
    def initial(self, name):
        st = State(self.ctx)
        for n, s in self.staticsd.items():
            try:
                st.statics[n] = self.decode(s["init"], s["t"], 0)
            except Unsup as e:
                st.statics[n] = Opq("static " + n + ": " + str(e))
        self.push(st, self.roots[name], [], 0, None, None)
        return st

    def run(self, name):
        work = [self.initial(name)]
        while work:
            st = work.pop()
            while True:
                if time.time() > self.deadline:
                    raise Inconclusive("time limit")
                if st.steps > self.max_steps:
                    raise Inconclusive("step limit at " + self.where(st))
                self.total_steps += 1
                try:
                    if self.step(st):
                        self.paths += 1
                        self.reached["<end>"] = self.reached.get("<end>", 0) + 1
                        break
                    continue
                except Fork as f:
                    st.rollback()
                    b = f.b
                    if self.concrete is not None:
                        raise Unsup("fork in concrete mode on %r" % (b,))
                    t = self.feasible(st, b)
                    e = self.feasible(st, bnot(b)) if t else True
                    if self.opts.get("forks"):
                        print("FORK %s/%s %r at %s" % (t, e, b, self.where(st)), flush=True)
                    if t and e:
                        if len(work) + self.paths > self.max_paths:
                            raise Inconclusive("path limit at " + self.where(st))
                        o = st.copy()
                        o.assume(bnot(b))
                        work.append(o)
                        st.assume(b)
                    elif t:
                        st.assume(b)
                    elif e:
                        st.assume(bnot(b))
                except AssumeFalse:
                    self.paths += 1
                    break
                except PanicExc as p:
                    st.rollback()
                    if self.caught(st, p):
                        continue
                    self.goal(st, False, "panic: %s at %s" % (p.msg, self.where(st)))
                    self.paths += 1
                    break
                except Unsup as u:
                    raise Unsup("%s | at %s" % (u, self.where(st)))
        return self

    def caught(self, st, p):
        if not st.catch:
            return False
        fid = st.catch[-1]
        st.catch = st.catch[:-1]
        env = dict(st.env)
        env["panic"] = p.msg
        st.env = env
        while st.stack[-1].fid != fid:
            fr = st.stack.pop()
            del st.mem[fr.fid]
        # return Err(Panicked) from vk::catch
        st.undo.clear()
        if self.ret(st, Agg(1, (Agg(0, ()),))):
            raise Unsup("catch at the root")
        return True

    # ------------------------------------------------------------ the kit
    def do_assume(self, st, b):
        r = st.ev3(b)
        if r is False:
            raise AssumeFalse()
        if r is None:
            if self.concrete is None and not self.feasible(st, b):
                raise AssumeFalse()
            st.assume(b)

    def do_check(self, st, b, label):
        self.goal(st, b, label)
        if b is False:
            raise AssumeFalse()
        st.assume(b)

    def do_reach(self, st, label):
        n = self.reached.get(label, 0)
        if n:
            return
        if self.concrete is not None:
            self.reached[label] = 1
            return
        # a satisfiable witness that the exact evaluation of the model confirms
        k = self.reach_try.get(label, 0)
        self.reach_try[label] = k + 1
        asg = self.model(st, [], quick=True) if k < 6 else None
        if asg is not None:
            self.reached[label] = 1
            self.witness[label] = self.inputs(asg)
        elif k < 24 or k % 7 == 0 and k < 400:
            self.reach_pending.setdefault(label, []).append(st.copy())

    def finish_reach(self):
        for label, l in self.reach_pending.items():
            # different paths first with little effort, then the first few with all of it
            for st in l[::-1] + l[:3]:
                if self.reached.get(label):
                    break
                asg = self.pinned(st, [], 3)
                if asg is None and st in l[:3]:
                    r, asg = self.nlsolve(st, [], min(10, self.nl_s))
                if asg is not None:
                    self.reached[label] = 1
                    self.witness[label] = self.inputs(asg)
        return [l for l in self.reach_try if not self.reached.get(l)]

    # ------------------------------------------------------------ proving
    def goal(self, st, b, label):
        c = self.checks.setdefault(label or "<lemma>", [0, 0, 0, 0, 0])
        c[0] += 1
        self.ctx.stats["goals"] += 1
        t0 = time.time()
        r = self.prove(st, b, label)
        dt = time.time() - t0
        self.ctx.stats["goal_t"] += dt
        if self.trace_goals and (dt > 0.2 or r != "triv" or self.trace_goals > 1):
            print("GOAL %-30s %-8s %.2fs %s" % (label, r, dt, self.where(st)), flush=True)
        if r == "triv":
            c[1] += 1
            self.ctx.stats["triv"] += 1
        elif r == "lin":
            c[2] += 1
            self.ctx.stats["lin"] += 1
        elif r == "nl":
            c[3] += 1
            self.ctx.stats["nl"] += 1
        else:
            c[4] += 1
            self.inconclusive_goals.append((label, self.where(st)))
            if self.opts.get("stop_unknown", True):
                raise Inconclusive("goal not decided: %s at %s" % (label, self.where(st)))

    def prove(self, st, b, label):
        if b is True or (b is not False and st.ev3(b) is True):
            return "triv"
        if self.concrete is not None:
            raise Violation(label, {}, self.where(st))
        nb = bnot(b)
        z = self.ctx.bz(nb)
        if b is not False and isinstance(b, B) and b.op == "and":
            # conjunct by conjunct
            res = "triv"
            for x in b.a:
                r = self.prove(st, x, label)
                if r == "unknown":
                    return r
                res = max(res, r, key=["triv", "lin", "nl"].index)
            return res
        self.lia_goal.s.set("timeout", self.lin_ms)
        r = self.lia_goal.check(st.facts, z)
        if r == z3.unsat:
            return "lin"
        # lemmas
        lem = self.lemmas(st, nb)
        if lem:
            r = self.lia_goal.check(st.facts, z3.And([z] + lem))
            if r == z3.unsat:
                return "lin"
        if label is not None:
            asg = self.model(st, [nb], quick=True)
            if asg is not None:
                raise Violation(label, asg, self.where(st))
        if not self.use_nl:
            return "unknown"
        r, asg = self.nlsolve(st, [nb], min(4, self.nl_s), lem)
        if r != "unsat" and asg is None and label is not None:
            asg = self.pinned(st, [nb], 12)
            if asg is None:
                r, asg = self.nlsolve(st, [nb], self.nl_s, lem)
        if r == "unsat":
            return "nl"
        if asg is not None and label is not None:
            raise Violation(label, asg, self.where(st))
        return "unknown"

    # ------------------------------------------------------------ models
    def freevars(self, st):
        return [v for v in st.vset if self.ctx.vars[v].ev is None]

    def valid(self, st, asg, extra):
        cache = {}
        try:
            for b in st.blist:
                if not self.ctx.evalb(b, asg, cache):
                    return False
            for b in extra:
                if not self.ctx.evalb(b, asg, cache):
                    return False
        except (KeyError, ZeroDivisionError):
            return False
        for vid in list(cache):
            v = self.ctx.vars[vid]
            if v.ev is None and v.lo is not None and not (v.lo <= cache[vid] <= v.hi):
                return False
        return True

    def model(self, st, extra, quick=False):
        """an assignment of the inputs satisfying the path and `extra`, exactly evaluated"""
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", self.lin_ms)
        s.add(st.facts)
        for b in extra:
            s.add(self.ctx.bz(b))
        free = self.freevars(st)
        if s.check() == z3.sat:
            m = s.model()
            asg = {v: m.eval(self.ctx.vars[v].z, model_completion=True).as_long() for v in free}
            if self.valid(st, asg, extra):
                return asg
        else:
            return None
        # pin soft choices one after the other
        for choice in range(3):
            s.push()
            for v in free:
                V = self.ctx.vars[v]
                cands = []
                if choice == 0:
                    cands = [V.lo, V.hi]
                elif choice == 1:
                    cands = [1, 0, 1000, 10 ** 24]
                else:
                    cands = [10 ** 24, 10 ** 12, 1]
                for c in cands:
                    if c is None or (V.lo is not None and c < V.lo) or (V.hi is not None and c > V.hi):
                        continue
                    s.push()
                    s.add(V.z == c)
                    if s.check() == z3.sat:
                        break
                    s.pop()
            if s.check() == z3.sat:
                m = s.model()
                asg = {v: m.eval(self.ctx.vars[v].z, model_completion=True).as_long() for v in free}
                if self.valid(st, asg, extra):
                    return asg
            # pops everything
            s = z3.SolverFor("QF_LIA")
            s.set("timeout", self.lin_ms)
            s.add(st.facts)
            for b in extra:
                s.add(self.ctx.bz(b))
            s.check()
        return None

    def pinned(self, st, extra, secs):
        """a model found by fixing factors one at a time, so that every product becomes linear; exactly evaluated"""
        ctx = self.ctx
        end = time.time() + secs
        base = list(st.facts) + [ctx.bz(b) for b in extra]
        monos = sorted(v for v in st.vset if ctx.vars[v].ev is not None and ctx.vars[v].ev[0] == "mono")
        free = self.freevars(st)
        isfree = set(free)
        rnd = random.Random(1)
        if len(free) <= 3:
            # few inputs: the path's own bounds on them are often tight
            iv = [st.interval(Lin(((v, 1),), 0)) for v in free]
            if all(lo is not None and hi is not None and lo <= hi for lo, hi in iv):
                for i in range(24):
                    asg = {v: (lo, hi, (lo + hi) // 2)[i] if i < 3 else rnd.randint(lo, hi) for v, (lo, hi) in zip(free, iv)}
                    if self.valid(st, asg, extra):
                        return asg
        att = 0
        while time.time() < end and att < 40:
            s = z3.SolverFor("QF_LIA")
            s.set("timeout", self.lin_ms)
            s.add(base)
            if s.check() != z3.sat:
                return None
            pins, todo = {}, monos
            while todo and time.time() < end:
                rest, more = [], False
                for m in todo:
                    M = ctx.vars[m]
                    x, y = M.deps
                    if x in pins and y in pins:
                        pins[m] = pins[x] * pins[y]
                        s.add(M.z == pins[m])
                        more = True
                    elif x in pins or y in pins:
                        c, o = (pins[x], y) if x in pins else (pins[y], x)
                        s.add(M.z == c * ctx.vars[o].z)
                        more = True
                    else:
                        rest.append(m)
                todo = rest
                if more and s.check() != z3.sat:
                    break
                if not todo:
                    break
                fs = sorted({d for m in todo for d in ctx.vars[m].deps})
                inp = [v for v in fs if v in isfree]
                v = (inp[0] if att == 0 else rnd.choice(inp)) if inp else fs[0]
                V = ctx.vars[v]
                m = s.model()
                cur = m.eval(V.z, model_completion=True).as_long()
                cands = []
                if v in isfree and att != 0:
                    cands = [V.lo, V.hi, 10 ** 24, 10 ** 12, 10 ** 6, 1, 2, 3, rnd.getrandbits(rnd.randrange(1, 130)) , rnd.getrandbits(rnd.randrange(1, 60))]
                    rnd.shuffle(cands)
                    cands = [c for c in cands if c is not None and (V.lo is None or c >= V.lo) and (V.hi is None or c <= V.hi)][:3]
                for c in cands + [cur]:
                    s.push()
                    s.add(V.z == c)
                    if s.check() == z3.sat:
                        pins[v] = c
                        break
                    s.pop()
                else:
                    break
            if not todo and s.check() == z3.sat:
                m = s.model()
                asg = {v: m.eval(ctx.vars[v].z, model_completion=True).as_long() for v in free}
                if self.valid(st, asg, extra):
                    return asg
            att += 1
            if not monos:
                return None
        return None

    # ------------------------------------------------------------ nonlinear back end
    def nlfacts(self, st):
        out = list(st.facts)
        for v in st.vset:
            V = self.ctx.vars[v]
            if V.nl is not None:
                out.append(V.nl)
        return out

    def nlsolve(self, st, extra, secs, lem=()):
        s = z3.Solver()
        s.add(self.nlfacts(st))
        for b in extra:
            s.add(self.ctx.bz(b))
        for l in lem:
            s.add(l)
        txt = "(set-logic QF_NIA)\n(set-option :produce-models true)\n" + s.to_smt2()
        free = self.freevars(st)
        names = [str(self.ctx.vars[v].z) for v in free]
        txt = txt.replace("(check-sat)", "(check-sat)\n(get-value (%s))\n" % " ".join(names)) if names else txt
        t0 = time.time()
        d = tempfile.mkdtemp(prefix="nl", dir=self.opts.get("tmp"))
        f = os.path.join(d, "q.smt2")
        open(f, "w").write(txt)
        if self.opts.get("dump"):
            self.dumpn = getattr(self, "dumpn", 0) + 1
            open("%s.%d.smt2" % (self.opts["dump"], self.dumpn), "w").write(txt)
        procs = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for c in (
            ["z3-new", "-T:%d" % max(1, int(secs)), f],
            ["cvc5", "--tlimit=%d" % int(secs * 1000), f],
        )]
        res, asg = "unknown", None
        live = list(procs)
        outs = {}
        import select
        bufs = {p: "" for p in procs}
        end = time.time() + secs + 5
        while live and time.time() < end:
            rs, _, _ = select.select([p.stdout for p in live], [], [], 0.5)
            for p in list(live):
                if p.stdout in rs:
                    c = os.read(p.stdout.fileno(), 1 << 16).decode()
                    if c:
                        bufs[p] += c
                        continue
                    live.remove(p)
                    first = bufs[p].strip().split("\n")[0] if bufs[p].strip() else ""
                    if first == "unsat":
                        res = "unsat"
                        live = []
                        break
                    if first == "sat":
                        a = self.parsevals(bufs[p], free)
                        if a is not None and self.valid(st, a, extra):
                            res, asg = "sat", a
                            live = []
                            break
        for p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        os.unlink(f)
        os.rmdir(d)
        self.ctx.stats["nlq"] = self.ctx.stats.get("nlq", 0) + 1
        self.ctx.stats["nlq_t"] = self.ctx.stats.get("nlq_t", 0) + time.time() - t0
        return res, asg

    def parsevals(self, txt, free):
        import re
        d = {}
        for m in re.finditer(r"\(\|?([^\s()|]+)\|?\s+(\(-\s*(\d+)\)|-?\d+)\)", txt):
            d[m.group(1)] = -int(m.group(3)) if m.group(3) else int(m.group(2))
        try:
            return {v: d[str(self.ctx.vars[v].z)] for v in free}
        except KeyError:
            return None

    def inputs(self, asg):
        out = {}
        for k, (vid, kind, _) in self.ctx.inputs.items():
            if k.endswith("~"):
                k = k.rstrip("~")
                if vid not in asg:
                    continue
            v = asg.get(vid, 0)
            V = self.ctx.vars[vid]
            if vid not in asg and V.lo is not None and V.lo > 0:
                v = V.lo
            out[k] = ("true" if v else "false") if kind == "bool" else str(v)
        return out

    # ------------------------------------------------------------ automatic lemmas
    def lemmas(self, st, nb):
        return []
