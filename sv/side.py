"""Canonical view of one summary: final values of the tracked locations, returned value, raise condition and traces."""
import ast

from .terms import *
from .interp import St, SELF, locT, UNBOUND
from .cmp import *

# attributes that hold caches and are rebuilt from the tracked ones before every use
IGNORE_ATTR = {"_interactions", "_previous_physical_model", "_info"}
# the state a user can observe through the public operations
KNOWN_ATTR = {
    "_mtype", "_variables", "_offset", "_deleted", "_fixed", "_constraints", "_default_keys", "_interactions_array", "_interactions_attrs", "_interactions_length",
    "_raw_interactions", "_label_to_index", "_index_to_label", "_variables_set", "_n", "_label", "_strength", "_exact", "_solver", "_token", "_endpoint", "_config_filename",
    "_variables_1", "_variables_2", "_config", "input_fn", "map_fn", "solve_fn", "unmap_fn", "output_fn", "initial_mtype", "initial_states",
    "_bqm_linear", "_bqm_adj", "_accept_randoms", "_accept_randoms_idx", "_region", "_token", "_credentials", "_constraint_class",
}


def sorted_list(t):
    if t.op == "phi":
        return sorted_list(t.a[1]) and sorted_list(t.a[2])
    return t.op == "sorted" and t.a[1] is NONE and t.a[2] is FALSE


def sort_key(x, L):
    """x grows with the position in a sorted list"""
    if x.op == "phi":
        return L not in free(x.a[0]) and sort_key(x.a[1], L) and sort_key(x.a[2], L)
    if x.op == "item" and x.a[1] is ZERO:
        x = x.a[0]
    if x.op == "phi":
        return L not in free(x.a[0]) and sort_key(x.a[1], L) and sort_key(x.a[2], L)
    return x.op == "item" and x.a[1] is mk("idx", L) and sorted_list(x.a[0])


def prefix_closed(stop, L):
    """once the condition holds at a position of a sorted list it holds at all smaller ones"""
    neg = stop.op == "not"
    c = stop.a[0] if neg else stop
    if c.op != "lt0":
        return False
    from .terms import _pdict
    hit = [(m, k) for m, k in _pdict(c.a[0]).items() if any(L in free(x) for x, _ in m)]
    if len(hit) != 1 or len(hit[0][0]) != 1 or hit[0][0][0][1] != 1 or not sort_key(hit[0][0][0][0], L):
        return False
    return (hit[0][1] < 0) == neg


def unreverse(t):
    """elements collected backwards and put in front of each other are the elements in order"""
    if "rev" not in ops_of(t):
        return t

    def each(o, meth):
        """forward version of one loop over a reversed list"""
        L, g, body = o.a
        d = L.a[0]
        stop = None
        if d.op == "tw":
            d, stop = d.a
        if d.op != "rev" or len(body) != 1 or body[0].op != meth or meth == "insert" and body[0].a[0] is not ZERO:
            return None
        L0, L1 = mk("L", d, L.a[1]), mk("L", mk("seq", d.a[0]), L.a[1])
        v = body[0].a[-1]
        if "posn" in ops_of(v) | ops_of(g):
            return None
        if stop is not None:
            if "opq" in ops_of(stop) or not sorted_list(d.a[0]) or not prefix_closed(stop, L0):
                return None
            g = AND(g, NOT(subst(stop, {L0: L})))
        return mk("each", L1, subst(g, {L: L1}), (mk("app", subst(v, {L: L1})),))

    def ops(os, meth):
        if len(os) == 1 and os[0].op == "each":
            e = each(os[0], meth)
            return (e,) if e is not None else None
        if len(os) == 1 and os[0].op == "if":
            c, x, y = os[0].a
            x = ops(x, meth) if x else ()
            y = ops(y, meth) if y else ()
            return (mk("if", c, x, y),) if x is not None and y is not None else None
        return None

    def f(x):
        if x.op == "log" and x.a[0] == "list" and x.a[1] is EMPTY:
            r = ops(x.a[2], "insert")
            if r is not None:
                return mk("log", "list", EMPTY, r)
        if x.op == "rev" and x.a[0].op == "log" and x.a[0].a[0] == "list" and x.a[0].a[1] is EMPTY:
            r = ops(x.a[0].a[2], "app")
            if r is not None:
                return mk("log", "list", EMPTY, r)
        return None
    for _ in range(3):
        r = mapterm(t, f, None, "rev")
        if r is t:
            break
        t = r
    return t


class TooDeep(Exception):
    pass


class Bisim:
    """Recurrences of both sides that are equal: the coarsest partition in which members of a class have equal loops, initial values, guards and steps,
    recurrences inside them being named by their class."""

    def __init__(self, sides, roots, seconds, asm=TRUE, attrs=None):
        self.attrs = attrs
        self.asm = AND(*[c for c in conj(asm) if not ops_of(c) & {"rec", "mu", "out", "L"}])
        self.sides = {s.tag: s for s in sides}
        self.cls = {}
        self.lone, self.merged = set(), {}
        self.seconds = seconds
        self.com, self.memo = None, {}
        self.roots = roots
        roots = roots[0] + roots[1]
        todo = [k for t in roots for k in self.recs_in(t)]
        while todo:
            k = todo.pop()
            if k in self.cls:
                continue
            self.cls[k] = 0
            d = self.sides[k.a[0]].recdef(k)
            if len(self.cls) > 400:
                raise TooDeep()
            todo += [x for t in d for x in self.recs_in(t)]
        self.refine()

    def common(self, f=None):
        """subterms without a fixed meaning that occur on both sides, in the current naming of the recurrences (and in the case f)"""
        if self.com is None or self.com[0] is not self.memo or f is not None:
            given = f is not None
            f = f or (lambda t: t)
            us = {"A": set(), "B": set()}
            for tag, ts in zip("AB", self.roots):
                for t in ts:
                    us[tag] |= unks(f(self.name(t)))
            for k in self.cls:
                for t in self.define(k):
                    us[k.a[0]] |= unks(f(t))
            r = frozenset(u for u in us["A"] & us["B"] if u.op not in ("opq", "ref", "missing", "probe", "rcls1"))
            if given:
                return r
            self.com = (self.memo, r)
        return self.com[1]

    @staticmethod
    def recs_in(t):
        if "rec" not in ops_of(t):
            return []
        return [x for x in subterms(t) if x.op == "rec"]

    def name(self, t):
        if "rec" not in ops_of(t):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = mapterm(t, lambda x: self.cname(x) if x.op == "rec" else None, None, "rec")
            if t.op in ("mu", "out") and t in KIND_TERM:
                KIND_TERM[r] = KIND_TERM[t]
        return r

    def define(self, k):
        return tuple(self.name(t) for t in self.sides[k.a[0]].recdef(k))

    def refine(self):
        nxt = 1
        order = sorted(self.cls, key=lambda k: (k.a[0], k.a[1]))
        while True:
            self.memo = {}
            c = Cmp(seconds=self.seconds, bisim=self)
            groups = {}
            for k in order:
                groups.setdefault(self.cls[k], []).append(k)
            new = dict(self.cls)
            changed = False
            for g, ks in groups.items():
                reps = [(ks[0], self.define(ks[0]), g)]
                for k in ks[1:]:
                    d = self.define(k)
                    for _, e, n in reps:
                        if all(x is y or c.eqv(x, y, self.asm).ok for x, y in zip(d, e)):
                            new[k] = n
                            break
                    else:
                        reps.append((k, d, nxt))
                        new[k] = nxt
                        nxt += 1
                        changed = True
            self.cls = new
            if not changed:
                break
        self.rep = {}
        for k in order:
            self.rep.setdefault(self.cls[k], k)
        self.pair()

    def pair(self):
        """recurrences of one side only are paired when their loops and initial values (or steps) agree, to compare their definitions"""
        order = sorted(self.cls, key=lambda k: (k.a[0], k.a[1]))
        sides = {}
        for k in order:
            sides.setdefault(self.cls[k], set()).add(k.a[0])
        self.lone = {c for c, t in sides.items() if len(t) == 1}
        self.merged = {}            # class -> (member of one side, member of the other)
        for crit in (1, 3, 1):
            again = True
            while again and self.lone:
                again = False
                self.memo = {}
                c = Cmp(seconds=self.seconds, bisim=self)
                A = [k for k in order if k.a[0] == "A" and self.cls[k] in self.lone and self.rep[self.cls[k]] is k]
                B = [k for k in order if k.a[0] == "B" and self.cls[k] in self.lone and self.rep[self.cls[k]] is k]
                hits = []
                for x in A:
                    for y in B:
                        d, e = self.define(x), self.define(y)
                        if crit == 3:
                            s = {self.cname(x): self.cname(y)}
                            d = tuple(subst(t, s) for t in d)
                        if c.eqv(d[0], e[0], self.asm).ok and (c.eqv(d[1], e[1], self.asm) if crit == 1 else both([c.eqv(d[2], e[2], self.asm), c.eqv(d[3], e[3], self.asm)])).ok:
                            hits.append((x, y))
                for x, y in hits:
                    if sum(h[0] is x for h in hits) == 1 and sum(h[1] is y for h in hits) == 1:
                        cx, cy = self.cls[x], self.cls[y]
                        for k in order:
                            if self.cls[k] == cx:
                                self.cls[k] = cy
                        self.lone -= {cx, cy}
                        self.merged[cy] = (x, y)
                        again = True
        self.memo = {}
        c = Cmp(seconds=self.seconds, bisim=self)
        status, uses = {}, {}
        for m, (x, y) in self.merged.items():
            d, e = self.define(x), self.define(y)
            what = locname(self.sides["A"].recof[x][1]) + " in the loop"
            status[m] = both([f(u, v, self.asm, what + w) for u, v, w, f in zip(
                d, e, (" (iteration)", " (initial value)", " (condition of the step)", " (step)"), (c.eqv, c.eqv, c.eqv, c.eqv))])
            uses[m] = {t.a[1] for z in d + e for t in subterms(z) if t.op == "rcls" and t.a[1] in self.merged}
        self.final = {}
        for m in self.merged:
            seen, todo = set(), [m]
            while todo:
                q = todo.pop()
                if q not in seen:
                    seen.add(q)
                    todo += uses[q]
            self.final[m] = both([status[q] for q in sorted(seen)])

    def cname(self, k):
        return mk("rcls1" if self.cls[k] in self.lone else "rcls", "rec", self.cls[k])

    def settle(self, r, *terms):
        """a result that relies on paired recurrences holds as far as their definitions are equal"""
        if not self.merged or r.k == NE_:
            return r
        used = {t.a[1] for z in terms if isinstance(z, T) for t in subterms(z) if t.op == "rcls" and t.a[1] in self.merged}
        return both([r] + [self.final[m] for m in sorted(used)])


def has_call(t, name):
    return "call" in ops_of(t) and any(x.op == "call" and x.a[0] == name for x in subterms(t))


def bound(t):
    """an unbound variable is not read: the other branch is its value"""
    if t.op == "phi":
        x, y = bound(t.a[1]), bound(t.a[2])
        if x.op in ("unbound", "none") or y.op in ("unbound", "none"):
            return y if x.op in ("unbound", "none") else x
    return t


def locname(lt):
    return f"variable {lt.a[1]}" if lt.op == "locV" else f"attribute {lt.a[1]}" if lt.op == "locA" else "container"


RENAMED = {"ref", "clo", "fn", "bm", "mu", "out", "partialf", "locC", "try"}


class Side:
    def __init__(self, summ, tag="A"):
        self.s = summ
        self.tag = tag
        self.recs, self.recof, self.defs = {}, {}, {}
        self.it = summ.interp
        self.m = summ.end.m if summ.end is not None else {}
        self.names = {}
        self.order = {}
        cnt = {}
        for e in summ.events:
            if e.kind == "new" and e.obj not in self.names:
                k = cnt.get(e.meth, 0)
                cnt[e.meth] = k + 1
                self.names[e.obj] = mk("obj", e.meth, k)
        # a try statement is named by the functions called in it
        self.trys, seen = {}, {}
        for T_, info in self.it.tryinfo.items():
            fs = [e.obj for e in info.events if e.kind == "call" and e.obj is not None]
            if not fs:
                fs = [S(e.meth) for e in info.events if e.kind == "api"] or [e.obj for e in info.events if e.kind == "ext" and e.obj is not None]
            key = tuple(dict.fromkeys(x if isinstance(x, T) else S(str(x)) for x in fs))
            n = seen[key] = seen.get(key, -1) + 1
            self.trys[T_] = mk("tryof", key, n)
        self.byname = {v: k for k, v in self.names.items()}
        self.tables = self.stable_tables()
        self.memo = {}
        self.size = 0

    # ------------------------------------------------------ interaction tables
    def stable_tables(self):
        """objects whose interaction table is changed by additions and logical removals only: a row found by its name keeps its
        body, keys and weight (names are unique, rule C11)"""
        bad, seen = set(), set()
        for e in self.s.events:
            if e.kind == "api" and e.obj is not None and "_interactions_array" in self.it.api_table().get(e.meth, ()):
                seen.add(e.obj)
                if e.meth not in ("LogicalModel.add_interaction", "LogicalModel.remove_interaction"):
                    bad.add(e.obj)
            elif e.kind in ("setattr", "setitem", "mut", "delattr") and e.obj is not None:
                o = e.obj
                if e.kind in ("setattr", "delattr") and e.key not in ("_interactions_array",):
                    continue
                while o.op in ("attr", "item", "at"):
                    if o.op == "attr" and o.a[1] == "_interactions_array":
                        bad.add(o.a[0])
                    o = o.a[0]
                bad.add(e.obj)
                if o.op in ("mu", "out") and o.a[1].op == "locA":
                    bad.add(o.a[1].a[0])
        return seen - bad

    def version(self, t):
        """the object whose interaction table the term is a version of"""
        if t.op == "attr" and t.a[1] == "_interactions_array":
            return t.a[0].a[0] if t.a[0].op == "at" else t.a[0]
        if t.op in ("mu", "out") and t.a[1].op == "locA" and t.a[1].a[1] == "_interactions_array":
            return t.a[1].a[0]
        return None

    def settle(self, t):
        if "index" not in ops_of(t):
            return t

        def f(x):
            if x.op == "item" and x.a[1].op == "index" and x.a[0].op == "item" and x.a[0].a[1].op == "str":
                V, col, key = x.a[0].a[0], x.a[0].a[1], x.a[1]
                names, s = key.a
                if names.op == "item" and names.a[0] is V and names.a[1] is S("name") and s.op == "item" and s.a[0].op == "item" and s.a[0].a[1] is S("name"):
                    V0 = s.a[0].a[0]
                    if V0 is V:
                        return mk("item", x.a[0], s.a[1])
                    o = self.version(V)
                    if o is not None and o is self.version(V0) and o in self.tables and col.a[0] not in ("removed", "dirty"):
                        return mk("item", mk("item", V0, col), s.a[1])
            return None
        return mapterm(t, f, None, "index")

    def api_only(self, t, obj, attr, depth=0, seen=frozenset()):
        """the attribute changed through the operations of the model only"""
        if depth > 12:
            return False
        if obj.op == "obj":
            c = self.it.ctor.get((self.byname.get(obj), attr))
            if c is not None and self.canon(c) is t:
                return True
        if t.op == "attr":
            return t.a[1] == attr and (t.a[0] is obj or t.a[0].op == "at" and t.a[0].a[0] is obj)
        if t.op == "phi":
            return self.api_only(t.a[1], obj, attr, depth + 1, seen) and self.api_only(t.a[2], obj, attr, depth + 1, seen)
        if t.op in ("mu", "out"):
            if t.a[1].op == "locA":
                return t.a[1].a[0] is obj and t.a[1].a[1] == attr
            if t.a[1].op == "rec":
                if t.a[1] in seen:
                    return True
                f = self.recdef(t.a[1])
                seen = seen | {t.a[1]}
                return self.api_only(f[1], obj, attr, depth + 1, seen) and self.api_only(f[3], obj, attr, depth + 1, seen)
        return False

    # ------------------------------------------------------ canonical terms
    def canon(self, t, stack=()):
        k = (t, stack)
        r = self.memo.get(k)
        if r is None:
            r = unreverse(self.snapall(t))
            if self.tables:
                r = self.settle(r)
            r = self.rename(r, stack)
            if has_call(r, "apache_beam.Filter"):
                r = mapterm(r, lambda x: mk("call", x.a[0], (predicate(x.a[1][0]),), x.a[2]) if x.op == "call" and x.a[0] == "apache_beam.Filter" and len(x.a[1]) == 1 else None, None, "call")
            self.memo[k] = r
        return r

    def key(self, t):
        """an access path as of the initial state"""
        r = unreverse(t)
        if self.tables:
            r = self.settle(r)
        return self.rename(r, ())

    def snapall(self, t):
        for _ in range(6):
            r = self.it.snap(t, self.m)
            if r is t:
                break
            t = r
        return t

    def rename(self, t, stack):
        ops = ops_of(t)
        if not ops & RENAMED:
            return t
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T):
                return x
            r = memo.get(x)
            if r is not None:
                return r
            if x.op in ("mu", "out"):
                r = self.fix(x, stack)
            elif x.op == "ref":
                r = self.names.get(x)
                if r is None:
                    o = self.it.objs.get(x)
                    r = mk("obj", o["cls"], -1) if o and o["cls"] else mk("opq", "ref")
            elif x.op in ("clo", "fn", "bm", "partialf"):
                r = self.callable(x, stack)
            elif x.op == "try":
                r = self.trys.get(x, x)
            elif not (ops_of(x) & RENAMED):
                r = x
            else:
                a = tuple(go(y) for y in x.a)
                r = x if a == x.a else rebuild(x, a)
            memo[x] = r
            return r
        return go(t)

    def callable(self, f, stack):
        g = f
        bound = 0
        if f.op == "partialf":
            bound = len(f.a[1])
            g = f.a[0]
        if g.op == "bm":
            bound += 1
            g = g.a[1]
        c = self.it.closures.get(g)
        if c is None:
            return f
        n = len(c[0].node.args.args) - bound
        from .interp import Frame
        fr = Frame(c[0], c[0].mod, c[0].cls)
        self.it.quiet += 1
        try:
            r = self.it.lam(f, n, St(dict(self.m), TRUE, TRUE), fr, c[0].node)
        finally:
            self.it.quiet -= 1
        if r is f or r.op in ("clo", "fn", "bm", "partialf"):
            return mk("opq", "callable")
        return self.rename(r, stack)

    def fix(self, x, stack):
        """a recurrence gets a name; its definition is compared by bisimulation (Bisim)"""
        ident = x.a
        L, lt, init = ident
        Lc = self.rename(L, stack)
        d = self.it.rec.get(ident)
        if d is None:
            ini = self.canon(init)
            if lt.op == "locA":
                return mk(x.op, Lc, mk("locA", self.rename(lt.a[0], stack), lt.a[1]), ini)
            return mk(x.op, Lc, mk("opq", "loc"), ini)
        k = self.recs.get(ident)
        if k is None:
            k = self.recs[ident] = mk("rec", self.tag, len(self.recs))
            self.recof[k] = ident
        t = mk(x.op, Lc, k, ZERO)
        kd = KIND_TERM.get(x)
        if kd:
            KIND_TERM[t] = kd
        return t

    def recdef(self, k):
        """(loop, initial value, guard of the step, step), canonical"""
        r = self.defs.get(k)
        if r is None:
            ident = self.recof[k]
            ini, step, guard = self.it.rec[ident]
            r = self.defs[k] = (self.rename(ident[0], ()), bound(self.canon(ini)), self.canon(guard), self.canon(step))
        return r

    # ------------------------------------------------------ projections
    def valid(self):
        return self.canon(self.s.end.valid) if self.s.end is not None else FALSE

    def ret(self):
        return self.canon(self.s.ret) if self.s.ret is not None else mk("never")

    def trace(self, ch, keep=None):
        lg = self.m.get(("C", mk("trace", ch)))
        ops = lg.a[2] if lg is not None else ()
        base = lg.a[1] if lg is not None else EMPTY
        t = self.canon(mk("log", "list", base, ops))
        if keep is not None:
            t = mk("log", "list", t.a[1], filt(t.a[2], keep))
        if ch == "dyn":
            t = mk("log", "list", t.a[1], commute(t.a[2]))
        return t

    def paths(self):
        """('A', obj, attr) -> value, ('I', base, key) -> value, ('C', obj) -> content"""
        out = {}
        for loc, v in self.m.items():
            if loc[0] == "A":
                if loc[1].op == "ref" and loc[1] not in self.names:
                    continue
                out[("A", self.key(loc[1]), loc[2])] = self.canon(v)
        for loc, v in self.m.items():
            if loc[0] != "C" or loc[1].op in ("trace", "touch") or not v.a[2] and v.a[1] is loc[1]:
                continue
            o = loc[1]
            if o.op == "ref":
                if o not in self.it.childof or not v.a[2]:
                    continue
                r = self.it.rootof(o)
                held = [l for l, w in self.m.items() if l[0] == "A" and w is r and l[1].op != "ref"]
                if not held:
                    continue
                o = subst(self.it.pathof(o), {r: mk("attr", held[0][1], held[0][2])})
            val = self.canon(self.it.logval(v))
            if o.op == "attr":
                k = ("A", self.key(o.a[0]), o.a[1])
                if k in out:        # the attribute was bound again: the object it held is compared for itself
                    k = ("C", self.key(o))
            elif o.op == "item":
                k = ("I", self.key(o.a[0]), self.key(o.a[1]))
            else:
                k = ("C", self.key(o))
            out[k] = val
        return out


def commute(ops):
    """writes of different attributes in one order"""
    out, run = [], []

    def flush():
        run.sort(key=lambda o: o.a[0].a[1])
        out.extend(run)
        run.clear()
    for o in ops:
        if o.op == "app" and o.a[0].op == "dyna" and o.a[0].a[1] not in [x.a[0].a[1] for x in run]:
            run.append(o)
            continue
        flush()
        if o.op == "each":
            o = mk("each", o.a[0], o.a[1], commute(o.a[2]))
        elif o.op == "if":
            o = mk("if", o.a[0], commute(o.a[1]), commute(o.a[2]))
        if o.op == "app" and o.a[0].op == "dyna":
            run.append(o)
        else:
            out.append(o)
    flush()
    return tuple(out)


def filt(ops, keep):
    out = []
    for o in ops:
        if o.op == "app":
            if keep(o.a[0]):
                out.append(o)
        elif o.op == "each":
            x = filt(o.a[2], keep)
            if x:
                out.append(mk("each", o.a[0], o.a[1], x))
        elif o.op == "if":
            x, y = filt(o.a[1], keep), filt(o.a[2], keep)
            if x or y:
                out.append(mk("if", o.a[0], x, y))
        else:
            out.append(o)
    return tuple(out)


def show_path(k):
    if k[0] == "A":
        return f"{short(k[1], 60)}.{k[2]}"
    if k[0] == "I":
        return f"{short(k[1], 60)}[{short(k[2], 40)}]"
    return short(k[1], 80)


def initial(k):
    if k[0] == "A":
        return mk("attr", k[1], k[2]) if k[1].op != "obj" else mk("unset", k[1], k[2])
    if k[0] == "I":
        return mk("item", k[1], k[2])
    return k[1]


def lookup(side, paths, k):
    """value of a path on a side that has no entry of its own for it"""
    if k[0] == "I":
        b = k[1]
        pk = ("A", b.a[0], b.a[1]) if b.op == "attr" else ("I", b.a[0], b.a[1]) if b.op == "item" else ("C", b)
        if pk in paths:
            v = paths[pk]
            r = side.it.item0(v, k[2], St({}, TRUE, TRUE))
            return r
    return initial(k)
