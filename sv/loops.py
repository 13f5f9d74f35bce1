"""Loop summaries: domains, recurrences, fused iteration over known containers."""
import ast

from .terms import *
from .interp import LoopCtx, locT, UNBOUND, equiv_safe, Frame


def loop_count(L):
    d = L.a[0]
    if d.op == "range":
        return d.a[0]
    if d.op in ("seq", "rev", "dict"):
        return LEN(d.a[0])
    if d.op == "table":
        return table_len(d.a[0])
    return mk("len", d)


def table_len(B):
    if B.op == "attr":
        return mk("attr", B.a[0], "_interactions_length")
    return mk("len", B)


def LEN(x):
    if x.op == "tuple":
        return num(len(x.a))
    if x.op == "str":
        return num(len(x.a[0]))
    if x.op in ("sorted", "keys", "items", "values", "copy"):
        return LEN(x.a[0])
    if x.op == "log":
        k, base, ops = x.a
        if k in ("set", "dict") and not (len(ops) == 0):
            return mk("len", x)
        return padd(ZERO if base is EMPTY else LEN(base), cnt_ops(ops))
    if x.op == "rangev":
        return psub(x.a[1], x.a[0])
    if x.op == "phi":
        return phi(x.a[0], LEN(x.a[1]), LEN(x.a[2]))
    from .terms import is_col
    if is_col(x) and x.a[0].op == "attr":
        return mk("attr", x.a[0].a[0], "_interactions_length")
    return mk("len", x)


def cnt_ops(ops):
    r = ZERO
    for o in ops:
        if o.op in ("app", "insert", "add"):
            r = padd(r, ONE)
        elif o.op == "ext":
            r = padd(r, LEN(o.a[0]))
        elif o.op == "each":
            r = padd(r, SUM(o.a[0], phi(o.a[1], cnt_ops(o.a[2]), ZERO)))
        elif o.op == "if":
            r = padd(r, phi(o.a[0], cnt_ops(o.a[1]), cnt_ops(o.a[2])))
        elif o.op == "rep":
            r = padd(r, pmul(num(len(o.a[0])), o.a[1]))
        elif o.op == "pop":
            r = psub(r, ONE)
        else:
            r = padd(r, mk("opq", "cnt", o))
    return r


def _split_sum(L, delta, one, opname):
    r = ZERO
    from .terms import _pdict, _pmk
    for m, c in _pdict(delta).items():
        ind, dep = [], []
        for x, e in m:
            (dep if depends(x, L) else ind).append((x, e))
        f = _pmk({tuple(ind): c})
        if not dep:
            r = padd(r, pmul(f, one))
        else:
            r = padd(r, pmul(f, mk(opname, L, _pmk({tuple(dep): 1}))))
    return r


def SUM(L, delta):
    return _split_sum(L, delta, loop_count(L), "sum")


def PSUM(L, delta):
    d = L.a[0]
    while d.op == "tw":
        d = d.a[0]
    one = mk("idx", L) if d.op != "rev" else mk("posn", L)
    return _split_sum(L, delta, one, "psum")


# mappings by the interface of the libraries and of the public operations
DICT_PARAMS = {"attributes", "reverse_options", "algorithm_options", "placeholder", "**kwargs"}
DICT_ATTRS = {"qubo", "linear", "quadratic", "adj", "data"}


def dictlike(t):
    if t.op == "p":
        return t.a[0] in DICT_PARAMS
    if t.op == "attr":
        return t.a[1] in DICT_ATTRS
    if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] == "adj":
        return True
    if t.op == "phi":
        return dictlike(t.a[1]) and dictlike(t.a[2])
    return False


class LoopMixin:
    def newL(self, dom):
        k = sum(1 for l in self.loops if l.a[0] is dom or (l.a[0].op == "tw" and l.a[0].a[0] is dom))
        return mk("L", dom, k)

    # -------------------------------------------------------- generic loop
    def run_loop(self, dom, mkstep, st, fr):
        L = self.newL(dom)
        pre = st
        oldr = self.raised
        nref0 = self.nref
        nret0 = len(fr.returns)

        def iterate(L, inner, quiet):
            guard, step = mkstep(L)
            s = pre.copy()
            s.reach = AND(pre.reach, guard)
            for loc, v in inner.items():
                s.m[loc] = v
            e0, v0 = s.reach, s.valid
            s0 = s.copy()
            self.loops.append(L)
            ctx = LoopCtx()
            fr.loopctx.append(ctx)
            if quiet:
                self.quiet += 1
            try:
                r = step(s) if s.reach is not FALSE else None
            finally:
                if quiet:
                    self.quiet -= 1
                fr.loopctx.pop()
                self.loops.pop()
            rets = fr.returns[nret0:]
            del fr.returns[nret0:]
            sts = ctx.breaks + ctx.continues + ([r] if r is not None else [])
            e = self.merge_states(sts, e0, v0)
            self.rest_raises(e, e0, self.raised)
            if e is not None:
                self.dyn_writes(L, e, s0)
            b = OR(*[self.rel(x.reach, e0) for x in ctx.breaks])
            rc = OR(*[self.rel(x[0].reach, e0) for x in rets])
            return guard, e, b, rc, rets, e0

        alive = {loc[1] for loc in pre.m if loc[0] == "V"} | {fr.fid}

        def relevant(loc):
            if loc[0] == "V":
                return loc[1] in alive
            o = self.rootof(loc[1])
            if o.op == "ref":
                return o.a[0] <= nref0
            return True

        inner = {}
        for _ in range(8):
            self.raised = FALSE
            guard, e, b, rc, rets, e0 = iterate(L, inner, True)
            if e is None:
                new = []
            else:
                base = pre.copy()
                base.m.update(inner)
                new = [loc for loc in e.m if loc not in inner and relevant(loc) and not (loc[0] != "V" and L in self.locfree(loc[1]))
                       and e.m[loc] is not self.read(base, loc)]
            if not new:
                break
            for loc in new:
                init = self.read(pre, loc)
                lt = locT(loc)
                mu = mk("mu", L, lt, init)
                k0 = kind(init) if loc[0] != "C" else None
                if loc[0] != "C" and k0 in ("num", "int"):
                    KIND_TERM[mu] = "num"
                if loc[0] == "C":
                    inner[loc] = mk("log", init.a[0], mu, ())
                    if init.a[0]:
                        KIND_TERM[mu] = init.a[0]
                else:
                    inner[loc] = mu
        exitc = OR(b, rc)
        if exitc is not FALSE:
            L2 = mk("L", mk("tw", dom, exitc if not has_op(exitc, "mu") else mk("opq", "exit", exitc)), L.a[1])
            inner = {loc: subst(v, {L: L2}) for loc, v in inner.items()}
            for loc, v in inner.items():
                if loc[0] != "C" and kind(self.read(pre, loc)) in ("num", "int"):
                    KIND_TERM[v] = "num"
            self.raised = FALSE
            L = L2
            guard, e, b, rc, rets, e0 = iterate(L, inner, True)
        if e is None and not rets:
            # body never completes an iteration: it raises or there is nothing
            self.raised = FALSE
            guard, e, b, rc, rets, e0 = iterate(L, inner, False)
            R = self.raised
            self.raised = OR(oldr, AND(pre.reach, anyiter(L, guard)) if R is not FALSE else FALSE)
            if R is not FALSE:
                pre.valid = AND(pre.valid, NOT(anyiter(L, guard)))
            return pre
        # classify recurrences
        inner2, plan = self.classify(L, inner, e, pre, guard)
        for _ in range(3):
            self.raised = FALSE
            guard, e, b, rc, rets, e0 = iterate(L, inner2, True)
            i3, plan = self.classify(L, inner, e, pre, guard, inner2)
            if i3 == inner2:
                break
            inner2 = i3
        self.raised = FALSE
        guard, e, b, rc, rets, e0 = iterate(L, inner2, False)
        i3, plan = self.classify(L, inner, e, pre, guard, inner2)
        R = self.raised
        # state after the loop
        out = pre.copy()
        if e is not None:
            for loc, v in e.m.items():
                if loc not in inner and loc not in pre.m and (loc[0] != "V") and not relevant(loc):
                    out.m[loc] = v      # objects created in the loop
        for loc, p in plan.items():
            init = self.read(pre, loc)
            if p[0] == "sum":
                out.m[loc] = padd(init, SUM(L, phi(guard, p[1], ZERO)))
            elif p[0] == "log":
                ops = p[1]
                out.m[loc] = mk("log", init.a[0] or p[2], init.a[1], self.norm_ops(init.a[2] + self.each(L, guard, ops)))
            elif p[0] == "same":
                out.m[loc] = init
            elif p[0] == "inv":
                # the same value in every iteration
                out.m[loc] = self.merge_val(loc, AND(nonempty_dom(L), guard) if not depends(guard, L) else anyiter(L, guard), p[1], init)
            else:
                lt = locT(loc)
                o = mk("out", L, lt, init)
                self.rec[(L, lt, init)] = (init, p[1], guard)
                if loc[0] == "C":
                    out.m[loc] = mk("log", init.a[0], o, ())
                else:
                    if kind(init) in ("num", "int"):
                        KIND_TERM[o] = "num"
                    out.m[loc] = o
        # validity
        rz = FALSE
        ev0 = set(conj(pre.valid))
        bad = [NOT(x) for x in conj(e.valid) if x not in ev0] if e is not None else []
        bad += [AND(self.rel(x[0].reach, e0), NOT(y)) for x in rets for y in conj(x[0].valid) if y not in ev0]
        if bad:
            rz = anyiter(L, AND(guard, OR(*bad)))
            out.valid = AND(pre.valid, NOT(rz))
        self.raised = OR(oldr, AND(pre.reach, rz) if R is not FALSE else FALSE)
        # returns inside the loop
        if rets:
            rcond = AND(guard, rc)
            g = anyiter(L, rcond)
            v = rets[-1][1]
            for s_, x, _n in reversed(rets[:-1]):
                v = phi(self.rel(s_.reach, e0), x, v)
            if L in free(v):
                v = mk("firstval", L, rcond, v)
            rs = out.copy()
            rs.reach = AND(pre.reach, g)
            fr.returns.append((rs, v, rets[0][2]))
            out.reach = AND(pre.reach, NOT(g))
        self.last_break = anyiter(L, AND(guard, b)) if b is not FALSE else FALSE
        return out

    def dyn_writes(self, L, e, s0):
        """writes to locations that depend on the iteration (an attribute of the element, a column named by the element) go to a trace"""
        for loc in [l for l in e.m if l[0] != "V" and (l[1].op != "ref" or l[1] in self.childof) and l[1].op != "touch" and L in self.locfree(l[1])]:
            v = e.m[loc]
            if v is self.read(s0, loc):
                continue
            if loc[0] == "C":
                base = self.content(loc[1], s0.m)
                if v.a[1] is base.a[1] and v.a[2][:len(base.a[2])] == base.a[2]:
                    t = mk("dynw", self.snap(self.pathof(loc[1]), e.m), self.snapt(v.a[2][len(base.a[2]):], e.m))
                else:
                    t = mk("dynw", self.snap(self.pathof(loc[1]), e.m), (mk("rewrite", self.snap(self.logval(v), e.m)),))
            else:
                t = mk("dyna", self.snap(self.pathof(loc[1]), e.m), loc[2], self.snap(v, e.m))
            del e.m[loc]
            self.trace("dyn", t, e)
            # later reads of the same container through any key
            if loc[0] == "C":
                own, key = self.childof[loc[1]][:2] if loc[1] in self.childof else loc[1].a[:2] if loc[1].op == "item" else (None, None)
                if own is not None and own.op == "touched":
                    own = self.owner.get(own)
                if own is not None and L not in self.locfree(own) and isinstance(key, T):
                    tl = ("C", mk("touch", own))
                    lg = self.content(tl[1], e.m)
                    e.m[tl] = mk("log", "list", lg.a[1], lg.a[2] + (mk("app", key),))

    def snapt(self, ops, m):
        r = self.snap(mk("log", None, EMPTY, ops), m)
        return r.a[2]

    def each(self, L, guard, ops):
        if not ops or guard is FALSE:
            return ()
        if guard is TRUE and len(ops) == 1 and ops[0].op == "app" and L.a[0].op == "seq" and ops[0].a[0] is mk("item", L.a[0].a[0], mk("idx", L)):
            return (mk("ext", L.a[0].a[0]),)
        if guard is TRUE and len(ops) == 1 and ops[0].op == "set" and L.a[0].op == "dict" and ops[0].a[0] is mk("key", L) and ops[0].a[1] is mk("item", L.a[0].a[0], mk("key", L)):
            return (mk("upd", L.a[0].a[0]),)
        if guard is TRUE and len(ops) == 1 and ops[0].op == "app" and L.a[0].op == "range" and isconst(ops[0].a[0]):
            return (mk("rep", (ops[0].a[0],), L.a[0].a[0]),)
        # merge a leading condition into the guard
        if len(ops) == 1 and ops[0].op == "if" and not ops[0].a[2]:
            return self.each(L, AND(guard, ops[0].a[0]), ops[0].a[1])
        if len(ops) == 1 and ops[0].op == "if" and not ops[0].a[1]:
            return self.each(L, AND(guard, NOT(ops[0].a[0])), ops[0].a[2])
        return (mk("each", L, guard, ops),)

    def classify(self, L, inner, e, pre, guard, cur=None):
        """inner: loc->hole ; returns loc->value at iteration start and the plan for each loc"""
        inner2, plan = {}, {}
        for loc, hole in inner.items():
            start = cur[loc] if cur is not None else hole
            stepv = self.read(e, loc) if e is not None else start
            init = self.read(pre, loc)
            if loc[0] == "C":
                mu = hole.a[1]
                h0 = start
                if stepv is start:
                    inner2[loc] = start
                    plan[loc] = ("same",)
                    continue
                pre_ops = start.a[2]
                if stepv.a[1] is start.a[1] and stepv.a[2][:len(pre_ops)] == pre_ops:
                    ops = stepv.a[2][len(pre_ops):]
                    if True:
                        inner2[loc] = hole
                        if not any(occurs(mu, o) for o in ops):
                            plan[loc] = ("log", ops, stepv.a[0])
                            continue
                inner2[loc] = hole
                plan[loc] = ("gen", stepv)
                continue
            mu = hole
            if stepv is start:
                inner2[loc] = start
                plan[loc] = ("same",)
                continue
            if stepv is not UNBOUND and (isnumkind(init) or kind(init) is None and init is not UNBOUND and stepv.op == "poly"):
                delta = psub(stepv, start)
                if (isnumkind(init) or isnumkind(delta)) and not occurs(mu, delta):
                    d = delta
                    dg = phi(guard, d, ZERO)
                    inner2[loc] = padd(init, PSUM(L, dg))
                    plan[loc] = ("sum", d)
                    continue
            if not occurs(mu, stepv) and (L not in free(stepv)) and not has_op(stepv, "mu"):
                inner2[loc] = hole
                plan[loc] = ("inv", stepv)
                continue
            inner2[loc] = hole
            plan[loc] = ("gen", stepv)
        return inner2, plan

    def _mu_only_in(self, o, mu):
        return False

    # -------------------------------------------------------- iteration over values
    def for_loop(self, it, st, fr, node, body, orelse=()):
        """body(st, value, position) -> st"""
        brk = [FALSE]

        def one(s, v, pos):
            ctx = LoopCtx()
            fr.loopctx.append(ctx)
            e0, v0 = s.reach, s.valid
            old, self.raised = self.raised, FALSE
            r = body(s, v, pos)
            R, self.raised = self.raised, OR(old, self.raised)
            fr.loopctx.pop()
            if self.in_run_loop(fr):
                # inside a summarised loop: hand breaks over to it
                fr.loopctx[-1].breaks.extend(ctx.breaks)
            else:
                held.extend(ctx.breaks)
            sts = ctx.continues + ([r] if r is not None else [])
            e = self.merge_states(sts, e0, v0)
            self.rest_raises(e, e0, R)
            return e
        held = []
        e0, v0 = st.reach, st.valid
        self.last_break = FALSE
        self.rl_stack.append([fr, 0])
        out = self.iterate(it, st, fr, node, one, ZERO)
        self.rl_stack.pop()
        lb = self.last_break
        self.last_break = FALSE
        if orelse:
            if out is not None and lb is not FALSE:
                b = out.copy()
                b.reach = AND(out.reach, lb)
                out.reach = AND(out.reach, NOT(lb))
                held.append(b)
            if out is not None:
                out = self.block(orelse, out, fr)
        if held:
            out = self.merge_states(held + ([out] if out is not None else []), e0, v0)
            if out is not None and equiv_safe(out.reach, e0):
                out.reach = e0
        return out

    def in_run_loop(self, fr):
        return bool(self.rl_stack) and self.rl_stack[-1][0] is fr and self.rl_stack[-1][1] > 0

    def do_loop(self, dom, mkstep, st, fr):
        self.rl_stack[-1][1] += 1
        try:
            return self.run_loop(dom, mkstep, st, fr)
        finally:
            self.rl_stack[-1][1] -= 1

    def iter_ops(self, ops, st, fr, node, body, pos):
        for o in ops:
            if st is None:
                return None
            if o.op in ("app", "add"):
                st = body(st, o.a[0], pos)
                pos = padd(pos, ONE)
            elif o.op == "ext":
                st = self.iterate(o.a[0], st, fr, node, body, pos)
                pos = padd(pos, LEN(o.a[0]))
            elif o.op == "each":
                L0, g, ops2 = o.a

                def mkstep(L, L0=L0, g=g, ops2=ops2, pos=pos):
                    sb = {L0: L}
                    g2 = subst(g, sb)
                    o2 = tuple(subst(x, sb) for x in ops2)
                    p2 = padd(pos, PSUM(L, phi(g2, cnt_ops(o2), ZERO)))
                    return g2, lambda s: self.iter_ops(o2, s, fr, node, body, p2)
                st = self.do_loop(L0.a[0], mkstep, st, fr)
                pos = padd(pos, SUM(L0, phi(g, cnt_ops(ops2), ZERO)))
            elif o.op == "if":
                c, A, B = o.a
                st = self.branch(c, st, lambda s: self.iter_ops(A, s, fr, node, body, pos), lambda s: self.iter_ops(B, s, fr, node, body, pos))
                pos = padd(pos, phi(c, cnt_ops(A), cnt_ops(B)))
            elif o.op == "rep":
                items, n = o.a
                st = self.do_loop(mk("range", n), lambda L: (TRUE, lambda s: self.iter_ops(tuple(mk("app", x) for x in items), s, fr, node, body, padd(pos, mk("idx", L)))), st, fr)
                pos = padd(pos, n)
            else:
                self.note("iteration over a container changed by " + o.op, node, fr)
                x = mk("opq", "iter", o)
                st = self.do_loop(mk("seq", x), lambda L: (TRUE, lambda s: body(s, mk("item", x, mk("idx", L)), mk("idx", L))), st, fr)
        return st

    def seq_loop(self, X, st, fr, node, body, pos, ident=None):
        """iterate over an abstract sequence/collection X; ident: object used for element identity"""
        c = is_col(X)
        if c is not None:
            return self.table_loop(X.a[0], TRUE, lambda L, s: mk("item", X, mk("idx", L)), st, fr, body, pos)
        ident = ident or X
        return self.do_loop(mk("seq", X), lambda L: (TRUE, lambda s: body(s, self.getitem(ident, mk("idx", L), s, fr, node), padd(pos, mk("idx", L)))), st, fr)

    def table_loop(self, B, pred, val, st, fr, body, pos):
        """loop over the rows of an interaction table, guarded by a predicate over ('colref', name)"""
        def mkstep(L):
            g = self.row_pred(pred, B, L)
            p = padd(pos, PSUM(L, phi(g, ONE, ZERO)))
            return g, lambda s: body(s, val(L, s), p)
        return self.do_loop(mk("table", B), mkstep, st, fr)

    def row_pred(self, pred, B, L):
        def f(t):
            if t.op == "colref":
                return mk("item", mk("item", B, S(t.a[0])), mk("idx", L))
            return None
        return cond(mapterm(pred, f))

    def iterate(self, it, st, fr, node, body, pos):
        if st is None:
            return None
        it = pairkey(it)
        if it.op == "ref" and it in self.objs:
            lg = self.content(it, st.m)
            k, base, ops = lg.a
            o = self.objs[it]
            if o["cls"] is None:
                if k == "dict":
                    return self.dict_iter(it, "keys", st, fr, node, body, pos)
                if k == "set" and base is EMPTY and any(x.op not in ("add", "app", "each", "ext", "if") for x in ops):
                    v = self.snap(it, st.m)
                    return self.seq_loop(v, st, fr, node, body, pos)
                if base is not EMPTY:
                    if kind(base) == "dict":
                        return self.dict_iter(it, "keys", st, fr, node, body, pos)
                    if o["deep"] and not ops:
                        return self.seq_loop(base, st, fr, node, body, pos, ident=it)
                    st = self.iterate(base, st, fr, node, body, pos)
                    pos = padd(pos, LEN(base))
                return self.iter_ops(ops, st, fr, node, body, pos)
        lg = st.m.get(("C", it))
        if lg is not None and lg.a[2] and it.op != "ref":
            ops = lg.a[2]
            if lg.a[0] == "dict" or kind(it) == "dict":
                return self.dict_iter(it, "keys", st, fr, node, body, pos)
            if all(o.op in ("app", "ext", "each", "add") for o in ops):
                if lg.a[1] is it:
                    st = self.seq_loop(it, st, fr, node, body, pos)
                elif lg.a[1] is not EMPTY:
                    st = self.iterate(lg.a[1], st, fr, node, body, pos)
                return self.iter_ops(ops, st, fr, node, body, padd(pos, LEN(lg.a[1]) if lg.a[1] is not EMPTY else ZERO))
            v = self.snap(it, st.m)
            return self.seq_loop(v, st, fr, node, body, pos)
        op = it.op
        if op == "tuple":
            for x in it.a:
                if st is None:
                    return None
                st = body(st, x, pos)
                pos = padd(pos, ONE)
            return st
        if op == "log":
            k, base, ops = it.a
            if k == "dict":
                return self.dict_iter(it, "keys", st, fr, node, body, pos)
            if base is not EMPTY:
                st = self.iterate(base, st, fr, node, body, pos)
                pos = padd(pos, LEN(base))
            return self.iter_ops(ops, st, fr, node, body, pos)
        if op == "phi":
            return self.branch(it.a[0], st, lambda s: self.iterate(it.a[1], s, fr, node, body, pos), lambda s: self.iterate(it.a[2], s, fr, node, body, pos))
        if op in ("items", "keys", "values"):
            return self.dict_iter(it.a[0], op, st, fr, node, body, pos)
        if op == "rangev":
            lo, hi, stp = it.a
            if stp.op == "num" and lo.op == "num" and hi.op == "num" and abs(hi.a[0] - lo.a[0]) <= 16 and stp.a[0] != 0:
                i = lo.a[0]
                while (i < hi.a[0]) if stp.a[0] > 0 else (i > hi.a[0]):
                    if st is None:
                        return None
                    st = body(st, num(i), pos)
                    pos = padd(pos, ONE)
                    i += stp.a[0]
                return st
            if stp is ONE:
                n = psub(hi, lo)
                return self.range_loop(n, lo, st, fr, node, body, pos)
            if stp.op == "num" and stp.a[0] == -1:
                n = psub(lo, hi)
                # downwards: the same values in reverse order
                return self.do_loop(mk("rrange", n), lambda L: (TRUE, lambda s: body(s, psub(lo, mk("idx", L)), padd(pos, mk("idx", L)))), st, fr)
            return self.do_loop(mk("ranges", lo, hi, stp), lambda L: (TRUE, lambda s: body(s, padd(lo, pmul(stp, mk("idx", L))), padd(pos, mk("idx", L)))), st, fr)
        if op == "enum":
            X, start = it.a
            return self.iterate(X, st, fr, node, lambda s, v, p: body(s, mk("tuple", padd(p, start), v), p), pos)
        if op == "mapv":
            f, X = it.a
            return self.iterate(X, st, fr, node, lambda s, v, p: body(s, self.call(f, [v], {}, s, fr, node), p), pos)
        if op == "starmapv":
            f, X = it.a

            def go(s, v, p):
                if v.op == "tuple":
                    return body(s, self.call(f, list(v.a), {}, s, fr, node), p)
                return body(s, mk("opq", "starmap", f, v), p)
            return self.iterate(X, st, fr, node, go, pos)
        if op == "filterv":
            f, X, neg = it.a

            def go(s, v, p):
                c = self.condv(v, s) if f is NONE else self.condv(self.call(f, [v], {}, s, fr, node), s)
                if neg is TRUE:
                    c = NOT(c)
                return self.branch(c, s, lambda x: body(x, v, mk("opq", "filterpos")), lambda x: x)
            return self.iterate(X, st, fr, node, go, pos)
        if op == "zipv":
            return self.zip_iter(it.a, st, fr, node, body, pos)
        if op == "rev":
            X = it.a[0]
            sx = self.snap(X, st.m)
            if sx.op == "log" and sx.a[1] is EMPTY and all(o.op == "app" for o in sx.a[2]):
                return self.iter_ops(tuple(reversed(sx.a[2])), st, fr, node, body, pos)
            if sx.op == "tuple":
                return self.iterate(mk("tuple", *reversed(sx.a)), st, fr, node, body, pos)
            return self.do_loop(mk("rev", sx), lambda L: (TRUE, lambda s: body(s, self.getitem(X if X.op != "ref" else sx, mk("idx", L), s, fr, node), padd(pos, mk("posn", L)))), st, fr)
        if op == "dfrows":
            df, how = it.a
            B, pred = df.a

            def val(L, s):
                row = mk("row", B, L)
                if how == "iterrows":
                    return mk("tuple", mk("idx", L), row)
                return row
            return self.table_loop(B, pred, val, st, fr, body, pos)
        if op == "proj":
            df, col = it.a
            B, pred = df.a
            return self.table_loop(B, pred, lambda L, s: mk("item", mk("item", B, S(col)), mk("idx", L)), st, fr, body, pos)
        if op == "dfindex":
            B, pred = it.a[0].a
            return self.table_loop(B, pred, lambda L, s: mk("idx", L), st, fr, body, pos)
        if op == "prodv":
            def nest(i, acc, s):
                if i == len(it.a):
                    return body(s, mk("tuple", *acc), mk("opq", "prodpos"))
                return self.iterate(it.a[i], s, fr, node, lambda s2, v, p: nest(i + 1, acc + [v], s2), ZERO)
            return nest(0, [], st)
        if op == "combv":
            X = self.snap(it.a[0], st.m)
            n = it.a[1].a[0] if it.a[1].op == "num" else None
            if n == 2:
                return self.do_loop(mk("comb", X, it.a[2]), lambda L: (TRUE, lambda s: body(s, mk("tuple", mk("combel", L, 0), mk("combel", L, 1)), mk("idx", L))), st, fr)
        if op == "copy":
            return self.iterate(it.a[0], st, fr, node, body, pos)
        if op == "str" and len(it.a[0]) <= 8:
            for ch in it.a[0]:
                if st is None:
                    return None
                st = body(st, S(ch), pos)
                pos = padd(pos, ONE)
            return st
        if kind(it) == "dict" or dictlike(it):
            return self.dict_iter(it, "keys", st, fr, node, body, pos)
        if is_array(it):
            return self.dict_iter(it, "keys", st, fr, node, body, pos)
        if op == "setop" and it.a[0] == "|":
            pass
        return self.seq_loop(it, st, fr, node, body, pos)

    def range_loop(self, n, lo, st, fr, node, body, pos):
        # the number of rows of a table: a loop over the table
        if n.op == "attr" and n.a[1] == "_interactions_length":
            B = self.read(st, ("A", n.a[0], "_interactions_array")) if n.a[0].op != "at" else mk("attr", n.a[0], "_interactions_array")
            if B.op == "attr" and B.a[0] is n.a[0]:
                return self.table_loop(B, TRUE, lambda L, s: padd(lo, mk("idx", L)), st, fr, body, pos)
        if n.op == "phi" and "len" in (n.a[1].op, n.a[2].op):
            return self.branch(n.a[0], st, lambda s: self.range_loop(n.a[1], lo, s, fr, node, body, pos), lambda s: self.range_loop(n.a[2], lo, s, fr, node, body, pos))
        if n.op == "len":
            X = n.a[0]
            dom = mk("dict" if kind(X) == "dict" or dictlike(X) else "seq", X)
            return self.do_loop(dom, lambda L: (TRUE, lambda s: body(s, padd(lo, mk("idx", L)), padd(pos, mk("idx", L)))), st, fr)
        return self.do_loop(mk("range", n), lambda L: (TRUE, lambda s: body(s, padd(lo, mk("idx", L)), padd(pos, mk("idx", L)))), st, fr)

    def zip_iter(self, xs, st, fr, node, body, pos):
        xs = [self.collect(x, "list", st, fr, node) if x.op == "values" else x for x in xs]
        sx = [self.snap(x, st.m) if x.op == "ref" else x for x in xs]
        # literal containers
        lits = []
        for x in sx:
            if x.op == "tuple":
                lits.append(list(x.a))
            elif x.op == "log" and x.a[1] is EMPTY and all(o.op == "app" for o in x.a[2]):
                lits.append([o.a[0] for o in x.a[2]])
            else:
                lits.append(None)
        if any(l is not None for l in lits):
            n = min(len(l) for l in lits if l is not None)
            for i in range(n):
                if st is None:
                    return None
                vs = [l[i] if l is not None else self.getitem(x, num(i), st, fr, node) for l, x in zip(lits, xs)]
                st = body(st, mk("tuple", *vs), num(i))
            return st
        cols = [is_col(x) for x in sx]
        elems = []
        B = None
        dom = None
        for x in sx:
            if is_col(x):
                B = x.a[0]
        if B is None and all(x.op in ("dfcol", "proj") for x in sx) and len({x.a[0] for x in sx}) == 1:
            df = sx[0].a[0]
            B0, pred = df.a
            return self.table_loop(B0, pred, lambda L, s: mk("tuple", *[mk("item", mk("item", B0, S(x.a[1])), mk("idx", L)) for x in sx]), st, fr, body, pos)

        def elem(x, X, L, s):
            i = mk("idx", L)
            if x.op == "rangev":
                return padd(x.a[0], pmul(x.a[2], i))
            if x.op == "count":
                return padd(x.a[0], i)
            if x.op == "enum":
                return mk("tuple", padd(x.a[1], i), elem(x.a[0], x.a[0], L, s))
            if x.op == "zipv":
                return mk("tuple", *[elem(y, y, L, s) for y in x.a])
            if x.op == "keys":
                return mk("kth", x.a[0], i)
            if x.op == "values":
                return mk("vth", x.a[0], i)
            if x.op == "items":
                return mk("tuple", mk("kth", x.a[0], i), mk("vth", x.a[0], i))
            return self.getitem(X, i, s, fr, node)
        if B is not None:
            return self.table_loop(B, TRUE, lambda L, s: mk("tuple", *[elem(x, X, L, s) for x, X in zip(sx, xs)]), st, fr, body, pos)
        seqs = [x for x in sx if x.op not in ("rangev", "count", "enum")]
        first = seqs[0] if seqs else None
        if first is None:
            r = [x for x in sx if x.op == "rangev"]
            dom = mk("range", psub(r[0].a[1], r[0].a[0])) if r else mk("seq", sx[0])
        else:
            # canonical: the zipped sequences as one domain
            dom = mk("seq", first) if len(seqs) == 1 else mk("zip", *sorted(seqs, key=lambda t: t.n))
        return self.do_loop(dom, lambda L: (TRUE, lambda s: body(s, mk("tuple", *[elem(x, X, L, s) for x, X in zip(sx, xs)]), padd(pos, mk("idx", L)))), st, fr)

    def dict_iter(self, D, how, st, fr, node, body, pos):
        if D.op == "phi":
            return self.branch(D.a[0], st, lambda s: self.dict_iter(D.a[1], how, s, fr, node, body, pos), lambda s: self.dict_iter(D.a[2], how, s, fr, node, body, pos))

        def give(s, k, v, p):
            if how == "items":
                return body(s, mk("tuple", k, v), p)
            if how == "keys":
                return body(s, k, p)
            return body(s, v, p)
        if D.op == "log":
            lg, ident = D, None
        elif D.op == "ref" or ("C", D) in st.m:
            lg, ident = self.content(D, st.m), D
        else:
            lg, ident = None, D
        if lg is not None and (lg.a[2] or lg.a[1] is EMPTY):
            k, base, ops = lg.a
            if base is EMPTY and self.fusible(ops):
                return self.dict_ops(ops, st, fr, node, give, pos)
            if base is not EMPTY and base is not D and self.fusible(ops) and False:
                pass
            v = self.logval(lg)
            v = self.snap(v, st.m)
            return self.do_loop(mk("dict", v), lambda L: (TRUE, lambda s: give(s, mk("key", L), self.getitem(ident if ident is not None else v, mk("key", L), s, fr, node), padd(pos, mk("idx", L)))), st, fr)
        X = ident
        if lg is not None:
            X = lg.a[1]
        return self.do_loop(mk("dict", X), lambda L: (TRUE, lambda s: give(s, mk("key", L), self.getitem(ident if ident is not None else X, mk("key", L), s, fr, node), padd(pos, mk("idx", L)))), st, fr)

    def fusible(self, ops):
        keys = []
        for o in ops:
            if o.op == "set" and isconst(o.a[0]):
                if o.a[0] in keys:
                    return False
                keys.append(o.a[0])
            elif o.op == "each" and len(ops) == 1 and len(o.a[2]) == 1 and o.a[2][0].op == "set":
                k = o.a[2][0].a[0]
                if not (k.op in ("key", "idx") and k.a[0] is o.a[0]):
                    return False
            elif o.op == "if" and self.fusible(o.a[1]) and self.fusible(o.a[2]):
                continue
            else:
                return False
        return True

    def dict_ops(self, ops, st, fr, node, give, pos):
        for o in ops:
            if st is None:
                return None
            if o.op == "set":
                st = give(st, o.a[0], o.a[1], pos)
                pos = padd(pos, ONE)
            elif o.op == "if":
                st = self.branch(o.a[0], st, lambda s: self.dict_ops(o.a[1], s, fr, node, give, pos), lambda s: self.dict_ops(o.a[2], s, fr, node, give, pos))
                pos = mk("opq", "pos")
            else:
                L0, g, ops2 = o.a

                def mkstep(L, L0=L0, g=g, ops2=ops2):
                    sb = {L0: L}
                    g2 = subst(g, sb)
                    o2 = tuple(subst(x, sb) for x in ops2)
                    return g2, lambda s: self.dict_ops(o2, s, fr, node, give, padd(pos, PSUM(L, phi(g2, ONE, ZERO))))
                st = self.do_loop(L0.a[0], mkstep, st, fr)
        return st

    # -------------------------------------------------------- while
    def while_loop(self, s, st, fr):
        # look for  while i < n: ... i += 1
        pre = st
        self.quiet += 1
        saved = self.raised
        found = None
        try:
            changed = {}
            for _ in range(5):
                x = pre.copy()
                x.m.update(changed)
                c = self.evc(s.test, x, fr)
                fr.loopctx.append(LoopCtx())
                self.loops.append(mk("L", mk("probe", s.lineno), 0))
                e0 = x.reach
                r = self.block(s.body, x, fr)
                ctx = fr.loopctx.pop()
                self.loops.pop()
                n0 = len(fr.returns)
                e = self.merge_states(ctx.continues + ctx.breaks + ([r] if r is not None else []), e0, pre.valid)
                if e is None:
                    break
                base = pre.copy()
                base.m.update(changed)
                new = [l for l in e.m if l not in changed and (l[0] != "V" or l in pre.m or l[1] == fr.fid) and l[0] != "C" and e.m[l] is not self.read(base, l)]
                if not new:
                    for l in changed:
                        mu = changed[l]
                        init = self.read(pre, l)
                        if l[0] == "V" and isnumkind(init) and psub(e.m[l], mu) is ONE:
                            cs = [y for y in conj(c)]
                            for y in cs:
                                t = y
                                p = None
                                if t.op == "lt0":
                                    p = t.a[0]
                                elif t.op == "not" and t.a[0].op == "lt0":
                                    p = psub(pneg(t.a[0].a[0]), ONE) if kind(t.a[0].a[0]) == "int" else None
                                if p is None:
                                    continue
                                hi = psub(mu, p)  # mu - hi < 0
                                if mu not in set(subterms(hi)) and not (set(changed.values()) & set(subterms(hi))):
                                    found = (l, init, hi, len(cs) == 1)
                            # while i != n
                    break
                for l in new:
                    mu = mk("mu0", s.lineno, locT(l))
                    k = kind(self.read(pre, l))
                    if k in ("num", "int"):
                        KIND_TERM[mu] = k
                    changed[l] = mu
        finally:
            self.quiet -= 1
            self.raised = saved
            nr = [r for r in fr.returns if any(isinstance(q, T) and q.op in ("mu0",) for q in subterms(r[0].reach))]
            for r in nr:
                fr.returns.remove(r)
        self.drop_probe_returns(fr, s)
        self.rl_stack.append([fr, 0])
        self.last_break = FALSE
        if found and found[3]:
            loc, init, hi, _ = found
            n = psub(hi, init)
            out = self.range_loop(n, init, st, fr, s, lambda x, v, p: self.block(s.body, x, fr), ZERO)
        else:
            def mkstep(L):
                def step(x):
                    c = self.evc(s.test, x, fr)
                    y = x
                    if c is not TRUE:
                        b = x.copy()
                        b.reach = AND(x.reach, NOT(c))
                        fr.loopctx[-1].breaks.append(b)
                        y.reach = AND(x.reach, c)
                    return self.block(s.body, y, fr)
                return TRUE, step
            out = self.do_loop(mk("while", self.site_ordinal("while", s)), mkstep, st, fr)
        self.rl_stack.pop()
        if s.orelse and out is not None:
            out = self.block(s.orelse, out, fr)
        return out

    def drop_probe_returns(self, fr, s):
        fr.returns[:] = [r for r in fr.returns if not self._in_probe(r, s)]

    def _in_probe(self, r, s):
        n = r[2]
        return any(n is x for x in ast.walk(s)) and getattr(self, "_probe", True)
