"""Comparison of two summaries: equal for all inputs, definitely different, or undecided.

Both sides are terms of the same normaliser.  Terms are compared structurally
after case splits on gating conditions; `different` is only concluded where
every operator around the mismatch has a fixed meaning here, otherwise the
answer is `undecided`.
"""
import itertools
import time

from .terms import *
from .interp import locT, SELF
from .loops import LEN
from .rx import one_line, text

EQ_, NE_, UNK_ = "eq", "ne", "unk"


class Res:
    __slots__ = ("k", "why")

    def __init__(self, k, why=""):
        self.k, self.why = k, why

    def __repr__(self):
        return f"{self.k}:{self.why}"

    @property
    def ok(self):
        return self.k == EQ_


OK = Res(EQ_)


def short(t, n=160):
    s = t if isinstance(t, str) else pretty(t) if isinstance(t, (T, tuple)) else str(t)
    return s if len(s) <= n else s[: n - 3] + "..."


def both(rs):
    u = None
    for r in rs:
        if r.k == NE_:
            return r
        if r.k == UNK_:
            u = u or r
    return u or OK


# operators whose meaning the comparison does not know: a mismatch under them is not evidence of a difference
UNKNOWN_OPS = {"opq", "partial", "lameff", "eff", "mutop", "probe", "mu0", "unset", "missing", "firstval", "callb", "rewrite", "star", "starmapv", "filterv",
               "classof", "dfloc", "kth", "vth", "popped", "rrange", "ranges", "methcaller", "fmt", "while", "index", "combel", "rcls1"}
UNKNOWN_CALLS = ("functools.", "itertools.", "operator.", "collections.", "prod", "next", "repeat", "re.", "string.", "types.", "getattr", "map", "filter", "numpy.where",
                 "time.time_ns", "numpy.array", "numpy.asarray", "numpy.sum", "numpy.add", "numpy.subtract", "numpy.multiply", "numpy.fromiter", "numpy.nditer", "invert")


# operators that a rewriting of the code commonly introduces: a mismatch of such a term with another one is not evidence either,
# a mismatch between their operands is
SOFT_OPS = {"sorted", "rev", "zip", "zipv", "mapv", "setop", "rep", "row", "lam", "slice", "slicek", "comb", "combv", "enum", "opgetter", "partialf", "prodv", "insert",
            "tcat", "dyna", "count", "dcall", "values", "items", "rxm"}
SOFT_CALLS = ("values", "join")
UNKNOWN_ALL = UNKNOWN_OPS | SOFT_OPS


_simple = {}


def simple(t):
    r = _simple.get(t)
    if r is None:
        r = not (ops_of(t) & UNKNOWN_ALL)
        if r:
            for x in subterms(t):
                if x.op == "call" and x.a[0].startswith(UNKNOWN_CALLS + SOFT_CALLS):
                    r = False
                    break
                if x.op == "ref" or x.op in ("mu", "out") and x.a[1].op == "locA" or x.op == "in" and x.a[1].op == "key":
                    r = False
                    break
        _simple[t] = r
    return r


_unks = {}


def is_unknown(x):
    return x.op in UNKNOWN_OPS or x.op == "call" and x.a[0].startswith(UNKNOWN_CALLS) or x.op == "ref" or x.op in ("mu", "out") and x.a[1].op == "locA"


def is_soft(x):
    return x.op in SOFT_OPS or x.op == "call" and x.a[0].startswith(SOFT_CALLS) or x.op == "in" and x.a[1].op == "key" or is_unknown(x)


def unks(t):
    """the outermost subterms without a fixed meaning"""
    r = _unks.get(t)
    if r is None:
        if simple(t):
            r = frozenset()
        elif is_soft(t):
            r = frozenset((t,))
        else:
            r = frozenset().union(*[unks(x) for x in parts(t.a)])
        _unks[t] = r
    return r


def parts(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from parts(x)


def unksof(ts):
    return frozenset().union(*[unks(t) for t in ts]) if ts else frozenset()


def unknown_of(t):
    bad = sorted(ops_of(t) & UNKNOWN_ALL)
    bad += sorted({x.a[0] for x in subterms(t) if x.op == "call" and x.a[0].startswith(UNKNOWN_CALLS + SOFT_CALLS)})
    return ", ".join(bad) or "reference"


def shape(t):
    """the operators of a term, without the names of attributes and the constants"""
    if isinstance(t, tuple):
        return tuple(shape(x) for x in t)
    if not isinstance(t, T):
        return t
    return (t.op,) if isconst(t) else ("attr", shape(t.a[0])) if t.op == "attr" else (t.op, *[shape(x) for x in t.a])


def searching(c):
    """the condition looks for one particular element"""
    return any(x.op == "eq" and not isconst(x.a[1]) for x in subterms(c))


BUILT = {"setop", "sorted", "rep", "call", "pipe", "log", "tuple"}


def bare(t):
    """a given value as it is: nothing was computed, so no other spelling of a computation"""
    return t.op in ("p", "self", "none", "num", "str") or t.op == "attr" and bare(t.a[0]) or t.op == "item" and bare(t.a[0]) and isconst(t.a[1])


def pure_add(ops):
    """operations that only add elements"""
    return all(o.op in ("app", "add", "ext") or o.op == "if" and pure_add(o.a[1]) and pure_add(o.a[2]) or o.op == "each" and pure_add(o.a[2]) for o in ops)


def under(f):
    """the case in which a comparison is made"""
    i = f.__code__.co_varnames.index("asm") - 1

    def g(self, *a, **k):
        old = self.cur
        self.cur = a[i] if i < len(a) else k.get("asm", TRUE)
        try:
            return f(self, *a, **k)
        finally:
            self.cur = old
    return g


class Budget(Exception):
    pass


class Cmp:
    def __init__(self, spec_params=None, seconds=60, opts=None, bisim=None):
        self.bisim = bisim
        self.cur = TRUE
        self.hyp = frozenset()
        self.pending = set()
        self.t0 = time.time()
        self.seconds = seconds
        self.memo = {}
        self.depth = 0
        self.nsplit = 0
        self.opts = opts or {}
        self.attrs = getattr(bisim, "attrs", None)

    # ---------------------------------------------------------- helpers
    def tick(self):
        if time.time() - self.t0 > self.seconds:
            raise Budget()

    def gone(self, name):
        """an attribute of the reference text that the code does not mention"""
        return self.attrs is not None and name.startswith("_") and name not in self.attrs

    def ne(self, a, b, what="", sub=False):
        msg = f"{what + ': ' if what else ''}code has {short(a)} where the specification has {short(b)}"
        if isinstance(a, T) and isinstance(b, T) and bare(a) and b.op in BUILT:
            return Res(NE_, msg)
        if not self.rel(a, b, sub):
            bad = [x for x in (a, b) if isinstance(x, T) and not simple(x)]
            return Res(UNK_, msg + f" (contains {unknown_of(bad[0])})")
        return Res(NE_, msg)

    def plain(self, us):
        """subterms without a fixed meaning that both sides use are the same unknown quantity"""
        if not us:
            return True
        if self.bisim is None:
            return False
        us = us - self.hyp
        if us <= self.bisim.common():
            return True
        if self.cur is TRUE:
            return False
        k = ("common", self.cur)
        r = self.memo.get(k)
        if r is None:
            f = lambda t: self.simp(t, self.cur)
            r = self.memo[k] = self.bisim.common(f)
        return us <= r

    def rel(self, a, b, sub=False):
        """a difference between a and b does not come from different spellings of an unknown quantity"""
        a = unksof([x for x in (a if isinstance(a, (list, tuple)) else [a]) if isinstance(x, T)])
        b = unksof([x for x in (b if isinstance(b, (list, tuple)) else [b]) if isinstance(x, T)])
        return (a == b or sub and (a <= b or b <= a)) and self.plain(a | b)

    def sat_(self, f):
        k = ("sat", f)
        r = self.memo.get(k)
        if r is None:
            self.tick()
            try:
                r = sat(f, limit=20000) is not None
            except TooBig:
                r = True
            self.memo[k] = r
        return r

    def closed(self, base):
        for d in DOMAINS:
            v = d(base)
            if v:
                return v
        return None

    def lits(self, asm):
        """substitution given by the literals of an assumption"""
        m = {}
        for c in conj(asm):
            if c.op == "not" and c.a[0].op not in ("and", "or"):
                x = c.a[0]
                m[x] = FALSE
                if x.op == "eq" and isconst(x.a[1]):
                    vals = self.closed(x.a[0])
                    if vals and x.a[1] in vals:
                        rest = [v for v in vals if v is not x.a[1] and m.get(mk("eq", x.a[0], v)) is not FALSE]
                        if len(rest) == 1:
                            m[mk("eq", x.a[0], rest[0])] = TRUE
                            m[x.a[0]] = rest[0]
            elif c.op not in ("and", "or", "not"):
                m[c] = TRUE
                if c.op == "eq" and isconst(c.a[1]):
                    m[c.a[0]] = c.a[1]
                    for v in self.closed(c.a[0]) or ():
                        if v is not c.a[1]:
                            m[mk("eq", c.a[0], v)] = FALSE
                if c.op == "isnone":
                    m[c.a[0]] = NONE
            elif c.op in ("or", "not"):
                m[c] = TRUE
                m[NOT(c)] = FALSE
        return m

    def simp(self, t, asm):
        if asm is TRUE:
            return t
        k = ("simp", t, asm)
        r = self.memo.get(k)
        if r is None:
            lm = self.memo.get(("lits", asm))
            if lm is None:
                lm = self.memo[("lits", asm)] = self.lits(asm)
            r = subst(t, lm) if lm else t
            # drop substitution of values that are themselves the subject of the assumption
            self.memo[k] = r
        return r

    def top_phi(self, t):
        if t.op == "phi":
            return t.a[0]
        if t.op == "poly":
            for m, c in t.a[0]:
                for x, e in m:
                    if x.op == "phi":
                        return x.a[0]
        if t.op == "strcat":
            for x in t.a:
                if x.op == "phi":
                    return x.a[0]
        return None

    def split(self, c, asm, f):
        """f(asm') in both cases of an atom of c"""
        self.nsplit += 1
        if self.nsplit > 4000:
            return Res(UNK_, "too many cases")
        ats = sorted(atoms(c), key=lambda t: t.n)
        if not ats:
            return f(asm)
        at = ats[0]
        out, free, soft = [], 0, not self.plain(unks(at))
        for lit in (at, NOT(at)):
            a2 = AND(asm, lit)
            if a2 is FALSE or not self.sat_(a2):
                continue
            r = f(a2)
            free += 1
            if r.k == NE_ and soft:
                # the case may not exist: the condition is one of the other side, written differently
                out.append(r)
                continue
            if r.k == NE_:
                return Res(NE_, r.why + (f"  [when {short(lit, 90)}]" if r.why.count("[when") < 4 else ""))
            out.append(r)
        if soft and free == 2:
            out = [Res(UNK_, r.why) if r.k == NE_ else r for r in out]
        return both(out)

    def gates(self, t):
        """atoms of the conditions in a term (or a sequence of operations)"""
        k = ("gates", t)
        r = self.memo.get(k)
        if r is None:
            r = set()
            for u in t if isinstance(t, tuple) else (t,):
                if isinstance(u, T) and ops_of(u) & {"phi", "if"}:
                    for x in subterms(u):
                        if x.op in ("phi", "if"):
                            r |= set(atoms(x.a[0]))
            self.memo[k] = r
        return r

    def unify(self, a, b, asm):
        """b with the atoms of its conditions written as the equal atoms of a"""
        k = ("unify", a, b, asm)
        r = self.memo.get(k)
        if r is not None:
            return r
        ga, gb = self.gates(a), self.gates(b)
        xa, xb = sorted(ga - gb, key=lambda t: t.n), sorted(gb - ga, key=lambda t: t.n)
        r = b
        if xa and xb and len(xa) * len(xb) <= 64:
            self.memo[k] = b
            sub = {}
            for y in xb:
                for x in xa:
                    if x.op == y.op and x not in sub.values() and self.eqatom(x, y, asm).ok:
                        sub[y] = x
                        break
            if sub:
                r = tuple(subst(o, sub) for o in b) if isinstance(b, tuple) else subst(b, sub)
        self.memo[k] = r
        return r

    # ---------------------------------------------------------- values
    @under
    def eqv(self, a, b, asm=TRUE, what=""):
        if a is b:
            return OK
        k = ("eqv", a, b, asm)
        r = self.memo.get(k)
        if r is None:
            self.depth += 1
            self.tick()
            if self.depth > 150:
                self.depth -= 1
                return Res(UNK_, "nesting too deep")
            try:
                r = self.eqv0(a, b, asm, what)
            finally:
                self.depth -= 1
            self.memo[k] = r
        return r

    def eqv0(self, a, b, asm, what):
        a2, b2 = self.simp(a, asm), self.simp(b, asm)
        if a2 is b2:
            return OK
        a, b = a2, b2
        # truth values
        ba = a.op == "bool" or a.op in BOOLOPS
        bb = b.op == "bool" or b.op in BOOLOPS
        if ba and bb or (ba and kind(b) == "bool") or (bb and kind(a) == "bool"):
            return self.eqbool(cond(a), cond(b), asm, what)
        c = self.top_phi(a) or self.top_phi(b)
        if c is not None:
            b2 = self.unify(a, b, asm)
            return self.split(c if b2 is b else self.top_phi(a) or self.top_phi(b2), asm, lambda x: self.eqv(a, b2, x, what)) if a is not b2 else OK
        if a.op == "poly" or b.op == "poly" or a.op == "sum" or b.op == "sum" or (a.op == "num" and isnumkind(b)) or (b.op == "num" and isnumkind(a)):
            return self.eqpoly(a, b, asm, what)
        if (a.op == "sorted") != (b.op == "sorted"):
            x, y = (a, b) if a.op == "sorted" else (b, a)
            if y.op not in ("phi", "setop") and kind(y) != "set" and self.eqbag(self.elements(x.a[0]), self.elements(y), asm, what).ok:
                return Res(NE_, f"{what}: {short(x)} instead of the order of {short(y)}" if x is a else f"{what}: {short(y)} is not sorted")
        if a.op == "log" or b.op == "log":
            return self.eqlog(a, b, asm, what)
        if a.op == b.op and a.op in ("str", "num", "bytes", "inf"):
            return self.ne(a, b, what)
        if a.op == b.op == "L":
            return self.eqdom(a.a[0], b.a[0], asm, what) if a.a[1] == b.a[1] else Res(UNK_, "nesting of loops")
        if a.op == b.op == "strcat":
            return self.eqstr(a, b, asm, what)
        if a.op == b.op == "setop" and a.a[0] == b.a[0]:
            r1 = both([self.eqset(a.a[1], b.a[1], asm, what), self.eqset(a.a[2], b.a[2], asm, what)])
            if r1.ok or a.a[0] == "-":
                return r1
            r2 = both([self.eqset(a.a[1], b.a[2], asm, what), self.eqset(a.a[2], b.a[1], asm, what)])
            return r2 if r2.ok else r1
        if a.op == b.op == "bag":
            return self.eqbag([((), o) for o in a.a], [((), o) for o in b.a], asm, what)
        if a.op == b.op == "pipe" and len(a.a) != len(b.a):
            return self.ne(a, b, what)
        if a.op in ("mu", "out") and a.op == b.op and a.a[1].op in ("rcls", "rcls1") and b.a[1].op in ("rcls", "rcls1"):
            return self.eqrec(a, b, asm, what)
        if (a.op in ("mu", "out")) != (b.op in ("mu", "out")):
            r = self.ne(a, b, what)
            return Res(UNK_, r.why)
        if a.op == b.op == "item" and self.fromend(a.a[1], b.a[1]):
            return Res(UNK_, f"{what}: {short(a)} / {short(b)}")
        if a.op == b.op == "rxm" and a.a[0] != b.a[0]:
            r = self.eqv(a.a[1], b.a[1], asm, what)
            return r if not r.ok else Res(UNK_ if one_line(a.a[0], b.a[0]) else NE_, f"{what}: accepts the strings of {text(a.a[0])} instead of {text(b.a[0])}")
        if a.op == b.op == "attr" and a.a[1] != b.a[1] and self.gone(b.a[1]):
            return Res(UNK_, f"{what}: attribute {b.a[1]} does not exist any more")
        if a.op == b.op and len(a.a) == len(b.a):
            if len(a.a) == 1 or a.op in ("tuple", "pipe", "api"):
                r = self.eqargs(a.a, b.a, asm, what)
                sole = True
            else:
                rs = [self.eqargs((x,), (y,), asm, what) for x, y in zip(a.a, b.a)]
                r = both(rs)
                sole = not any(q.k == UNK_ for q in rs)
            if r.k == NE_ and (is_unknown(a) or is_unknown(b) or not sole and not self.rel(a, b)):
                return Res(UNK_, r.why)
            return r
        return self.ne(a, b, what)

    def elements(self, t):
        return [(pre, mk("ext", o.a[0].a[0]) if o.op == "ext" and o.a[0].op == "sorted" else o) for pre, o in self.members(t)]

    def members(self, t):
        return self.flat(t.a if t.op == "bag" else (() if t.a[1] is EMPTY else (mk("ext", t.a[1]),)) + t.a[2] if t.op == "log" else (mk("ext", t),))

    def eqdom(self, a, b, asm, what):
        """iteration domains"""
        r = self.eqv(a, b, asm, what)
        if not r.ok and a.op == "tw" and b.op != "tw" and "sorted" not in ops_of(b) and self.eqv(a.a[0], b, asm, what).ok and not searching(a.a[1]):
            return Res(NE_, f"{what}: stops when {short(a.a[1])} instead of going through {short(b)}")
        if r.k == NE_ and a.op != b.op and not {a.op, b.op} & {"sorted"}:
            return Res(UNK_, r.why)
        return r

    def eqrec(self, a, b, asm, what):
        r = self.eqv(a.a[0], b.a[0], asm, what)
        if not r.ok:
            return r
        k1, k2 = a.a[1].a[1], b.a[1].a[1]
        if k1 == k2:
            return OK
        if (k1, k2) in self.pending or not hasattr(self.bisim, "rep"):
            return Res(UNK_, f"{what}: recurrences not known to be equal")
        self.pending.add((k1, k2))
        try:
            d, e = self.bisim.define(self.bisim.rep[k1]), self.bisim.define(self.bisim.rep[k2])
            rs = [self.eqv(x, y, self.bisim.asm, what + w) for x, y, w in zip(d, e, (" (loop)", " (initial value)", " (condition of the step)", " (step)"))]
        finally:
            self.pending.discard((k1, k2))
        r = both(rs)
        return r if not r.ok else Res(UNK_, f"{what}: recurrences not known to be equal")

    def eqset(self, a, b, asm, what):
        """the same elements"""
        r = self.eqv(a, b, asm, what)
        if r.ok:
            return r
        return self.eqbag(self.flat((mk("ext", a),), (), True), self.flat((mk("ext", b),), (), True), asm, what)

    @under
    def eqargs(self, xs, ys, asm, what):
        out = []
        for x, y in zip(xs, ys):
            if isinstance(x, T) and isinstance(y, T):
                r = self.eqv(x, y, asm, what)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    names = lambda z: {q[0] for q in z if isinstance(q, tuple) and q and isinstance(q[0], str)}
                    d = names(x) ^ names(y)
                    r = Res(NE_, f"{what}: different arguments {sorted(d) if d else ''} in {short(xs[0])}")
                    if not self.rel(list(parts(x)), list(parts(y)), True):
                        r = Res(UNK_, r.why)
                else:
                    r = self.eqargs(x, y, asm, what)
            else:
                r = OK if x == y else Res(NE_, f"{what}: {x} instead of {y}")
            if r.k == NE_:
                return r
            out.append(r)
        return both(out)

    def eqstr(self, a, b, asm, what):
        if len(a.a) == len(b.a):
            return both([self.eqv(x, y, asm, what) for x, y in zip(a.a, b.a)])
        return self.ne(a, b, what)

    # ---------------------------------------------------------- conditions
    @under
    def eqbool(self, a, b, asm, what):
        if a is b:
            return OK
        if not self.sat_(AND(asm, OR(AND(a, NOT(b)), AND(NOT(a), b)))):
            return OK
        # unify atoms that are equal by the finer comparison
        A, B = set(atoms(a)), set(atoms(b))
        sub, maybe, apart = {}, [], set()
        for y in sorted(B - A, key=lambda t: t.n):
            for x in sorted(A - B, key=lambda t: t.n):
                if x.op != y.op or x in sub.values():
                    continue
                q = self.eqatom(x, y, asm)
                if q.ok:
                    sub[y] = x
                    break
                if q.k == UNK_ and x.op in ("in", "truthy", "anyiter"):
                    maybe.append((x, y))
                if q.k == NE_ and shape(x) == shape(y):
                    apart |= {x, y}
        if sub:
            b2 = subst(b, sub)
            if a is b2 or not self.sat_(AND(asm, OR(AND(a, NOT(b2)), AND(NOT(a), b2)))):
                return OK
            b = b2
        try:
            w = sat(AND(asm, OR(AND(a, NOT(b)), AND(NOT(a), b))), limit=20000)
        except TooBig:
            return Res(UNK_, f"{what}: condition too large")
        if w is None:
            return OK
        rel = [x for x in w if x in set(atoms(a)) | set(atoms(b))]
        msg = "; ".join(("" if w[x] else "not ") + short(x, 90) for x in rel[:6])
        diff = set(atoms(a)) ^ set(atoms(b))
        xa, xb = [x for x in atoms(a) if x in diff], [x for x in atoms(b) if x in diff]
        bad = [] if (self.rel(xa, xb) if xa and xb else self.plain(unksof(xa + xb))) else [x for x in xa + xb if not simple(x) and x not in apart]
        if a.op == b.op == "not" and a.a[0].op == b.a[0].op == "truthy" or a.op == b.op == "truthy":
            x, y = (a, b) if a.op == "truthy" else (a.a[0], b.a[0])
            if x.a[0].op == y.a[0].op == "rxm":
                return self.eqv(x.a[0], y.a[0], asm, what)
        if a.op not in ("and", "or", "not") and b.op not in ("and", "or", "not") and a.op == b.op == "anyiter":
            r = self.eqatom(a, b, asm)
            if not r.ok:
                return r if r.k == NE_ else Res(UNK_, r.why)
        for x, y in maybe:
            if y not in sub and x not in sub.values():
                return Res(UNK_, f"{what}: conditions differ ({msg})")
        if bad and xa:
            return Res(UNK_, f"{what}: conditions differ ({msg}), involving {unknown_of(bad[0])}")
        return Res(NE_, f"{what}: condition differs when {msg}")

    def eqatom(self, x, y, asm):
        if x.op == y.op == "anyiter":
            L1, L2 = x.a[0], y.a[0]
            c2 = y.a[1]
            if L1 is not L2:
                if L1.a[0].op == "tw" and L2.a[0].op != "tw" and not searching(L1.a[0].a[1]) and L1.a[0].a[1] is TRUE and self.eqv(L1.a[0].a[0], L2.a[0], asm).ok:
                    return Res(NE_, f"only the first element of {short(L2)}")
                if not self.eqv(L1, L2, asm).ok:
                    return Res(UNK_, "different iterations")
                c2 = subst(c2, {L2: L1})
            return self.eqbool(x.a[1], c2, asm, "exists")
        if x.op == y.op and len(x.a) == len(y.a):
            return self.eqargs(x.a, y.a, asm, "")
        return Res(UNK_, "")

    # ---------------------------------------------------------- numbers
    def eqpoly(self, a, b, asm, what):
        d = psub(a, b)
        if d is ZERO:
            return OK
        if d.op == "num":
            return self.ne(a, b, what)
        from .terms import _pdict, _pmk
        A = {x for m in _pdict(a) for x, _ in m}
        B = {x for m in _pdict(b) for x, _ in m}
        sub = {}
        for y in sorted(B - A, key=lambda t: t.n):
            for x in sorted(A, key=lambda t: t.n):
                if x.op == y.op and x.op not in ("sum",) and self.eqv(x, y, asm, what).ok:
                    sub[y] = x
                    break
        if sub:
            b = subst(b, sub)
            d = psub(a, b)
            if d is ZERO:
                return OK
        # linear combination of sums over the same iteration
        groups, rest = {}, {}
        for m, c in _pdict(d).items():
            s = [(x, e) for x, e in m if x.op == "sum"]
            if len(s) == 1 and s[0][1] == 1:
                L, body = s[0][0].a
                other = _pmk({tuple((x, e) for x, e in m if x is not s[0][0]): c})
                for L0 in groups:
                    if L0 is L:
                        break
                    if self.eqv(L0, L, asm).ok:
                        body = subst(body, {L: L0})
                        L = L0
                        break
                groups[L] = padd(groups.get(L, ZERO), pmul(other, body))
            else:
                rest[m] = c
        rp = _pmk(rest)
        if rp is not ZERO:
            r = self.unroll(rp, groups, asm, what)
            return r or self.ne(a, b, what, sub=True)
        out = []
        groups = {L: x for L, x in groups.items() if x is not ZERO}
        odd = len(groups) > 1 and (len({L.a[0].op for L in groups}) > 1 or not self.plain(unksof(list(groups))))
        for L, body in groups.items():
            r = self.zero(body, asm, what)
            if r.k == NE_:
                if odd:
                    return Res(UNK_, r.why + " (different iterations)")
                return r
            out.append(r)
        return both(out)

    def unroll(self, rp, groups, asm, what):
        """a recurrence of one side against a sum of the other: the sum is the recurrence X -> X + term"""
        if not hasattr(self.bisim, "rep"):
            return None
        from .terms import _pdict
        for m, c in _pdict(rp).items():
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
                continue
            x = m[0][0]
            if x.op != "out" or x.a[1].op != "rcls1" or x.a[1].a[1] in self.pending:
                continue
            k = x.a[1].a[1]
            L, ini, guard, step = self.bisim.define(self.bisim.rep[k])
            for L2, body in groups.items():
                if body is ZERO or not (L is L2 or self.eqv(L, L2, asm).ok):
                    continue
                X = mk("mu", x.a[0], x.a[1], ZERO)
                t = padd(X, pmul(num(-c), subst(body, {L2: L}) if L is not L2 else body))
                old = self.hyp
                self.hyp = old | {x.a[1]}
                self.pending.add(k)
                try:
                    r = self.eqv(step, t, AND(asm, guard), what + " (step of the loop)") if c == 1 else self.eqv(t, step, AND(asm, guard), what + " (step of the loop)")
                finally:
                    self.hyp = old
                    self.pending.discard(k)
                if r.k == NE_:
                    return r
        return None

    @under
    def zero(self, p, asm, what):
        p = self.simp(p, asm)
        if p is ZERO:
            return OK
        c = self.top_phi(p)
        if c is not None:
            return self.split(c, asm, lambda x: self.zero(p, x, what))
        from .terms import _pdict
        ats = sorted({x for m in _pdict(p) for x, _ in m if x.op != "sum"}, key=lambda t: t.n)
        sub = {}
        for i, y in enumerate(ats):
            for x in ats[:i]:
                if x.op == y.op and x not in sub and self.eqv(x, y, asm, what).ok:
                    sub[y] = x
                    break
        if sub:
            return self.zero(subst(p, sub), asm, what)
        if any(x.op == "sum" for m in _pdict(p) for x, _ in m):
            return self.eqpoly(p, ZERO, asm, what)
        return self.ne(p, ZERO, what + " (difference of the summed terms)", sub=True)

    # ---------------------------------------------------------- containers
    def aslog(self, t):
        if t.op == "log":
            return t
        if t.op == "tuple":
            return mk("log", "list", EMPTY, tuple(mk("app", x) for x in t.a))
        return mk("log", kind(t), t, ())

    def eqlog(self, a, b, asm, what):
        A, B = self.aslog(a), self.aslog(b)
        ka, kb = A.a[0], B.a[0]
        kd = ka or kb
        if ka and kb and ka != kb:
            return self.ne(a, b, what)
        ba, bb, oa, ob = A.a[1], B.a[1], A.a[2], B.a[2]
        # list(X) as a value is X
        if ba is EMPTY and oa and oa[0].op in ("ext", "upd") and bb is not EMPTY:
            ba, oa = oa[0].a[0], oa[1:]
        elif bb is EMPTY and ob and ob[0].op in ("ext", "upd") and ba is not EMPTY:
            bb, ob = ob[0].a[0], ob[1:]
        if ba is not bb:
            if ba is EMPTY or bb is EMPTY:
                if kd == "set":
                    if ba is not EMPTY:
                        oa = (mk("ext", ba),) + oa
                    if bb is not EMPTY:
                        ob = (mk("ext", bb),) + ob
                else:
                    return self.ne(a, b, what)
            else:
                r = self.eqv(ba, bb, asm, what)
                if not r.ok:
                    return r
        if kd == "set" or self.commutes(oa) and self.commutes(ob):
            return self.eqbag(self.flat(oa, (), kd == "set"), self.flat(ob, (), kd == "set"), asm, what)
        return self.eqops(oa, ob, asm, what, kd)

    def commutes(self, ops):
        """only additions into accumulators: the order does not matter"""
        for o in ops:
            if o.op in ("acc0", "acc", "add", "ext") and o.op != "ext":
                continue
            if o.op == "each" and self.commutes(o.a[2]):
                continue
            if o.op == "if" and self.commutes(o.a[1]) and self.commutes(o.a[2]):
                continue
            return False
        return bool(ops)

    def flat(self, ops, pre=(), setlike=False):
        out = []
        for o in ops:
            if o.op == "each":
                out.extend(self.flat(o.a[2], pre + ((o.a[0], o.a[1]),), setlike))
            elif o.op == "if":
                out.extend(self.flat(o.a[1], pre + ((None, o.a[0]),), setlike))
                out.extend(self.flat(o.a[2], pre + ((None, NOT(o.a[0])),), setlike))
            elif o.op == "ext" and o.a[0].op == "log" and o.a[0].a[0] in ("list", "set", None) and pure_add(o.a[0].a[2]):
                if o.a[0].a[1] is not EMPTY:
                    out.append((pre, mk("ext", o.a[0].a[1])))
                out.extend(self.flat(o.a[0].a[2], pre, setlike))
            elif o.op == "ext" and o.a[0].op == "phi" and setlike:
                c, x, y = o.a[0].a
                out.extend(self.flat((mk("ext", x),), pre + ((None, c),), setlike))
                out.extend(self.flat((mk("ext", y),), pre + ((None, NOT(c)),), setlike))
            elif o.op == "ext" and o.a[0].op == "tuple":
                out.extend((pre, mk("add" if setlike else "app", x)) for x in o.a[0].a)
            elif o.op == "ext" and o.a[0].op == "setop" and o.a[0].a[0] == "|" and setlike:
                out.extend(self.flat((mk("ext", o.a[0].a[1]), mk("ext", o.a[0].a[2])), pre, setlike))
            elif o.op == "app" and setlike:
                out.append((pre, mk("add", o.a[0])))
            else:
                out.append((pre, o))
        return out

    def normpre(self, pre):
        """(loops, guard)"""
        return tuple(L for L, g in pre if L is not None), AND(*[g for L, g in pre])

    @under
    def eqbag(self, xs, ys, asm, what, tag=None):
        X = self.bagnorm(xs, asm)
        Y = self.bagnorm(ys, asm)
        left = list(Y)
        bad = []
        for x in X:
            hit = None
            for y in left:
                if self.bageq(x, y, asm).ok:
                    hit = y
                    break
            if hit is None:
                bad.append(x)
            else:
                left.remove(hit)
        if not bad and not left:
            return OK
        # a pair that differs in one place gives the better message
        if len(bad) == 1 and len(left) == 1:
            r = self.bageq(bad[0], left[0], asm, what)
            if r.k in (NE_, UNK_):
                return r
        ts = [o for _, _, o in bad + left] + [g for _, g, _ in bad + left] + [L for Ls, _, _ in bad + left for L in Ls]
        m = []
        if bad:
            m.append("code does " + "; ".join(self.showop(x) for x in bad[:3]))
        if left:
            m.append("specification does " + "; ".join(self.showop(x) for x in left[:3]))
        unk = [t for t in ts if not simple(t)]
        tx, ty = ([t for Ls, g, o in z for t in (o, g, *Ls)] for z in (bad, left))
        if unk and bad and not (self.rel(tx, ty) if left else self.plain(unksof(ts))):
            return Res(UNK_, f"{what}: " + " / ".join(m) + f" (contains {unknown_of(unk[0])})")
        if bad and left and any((o.op == "ext") for _, _, o in bad) != any((o.op == "ext") for _, _, o in left):
            return Res(UNK_, f"{what}: " + " / ".join(m))
        return Res(NE_, f"{what}: " + " / ".join(m))

    def showop(self, x):
        Ls, g, o = x
        return short(o, 140) + (f" if {short(g, 100)}" if g is not TRUE else "") + (f" for each of {short(mk('tuple', *[L.a[0] for L in Ls]), 80)}" if Ls else "")

    def bagnorm(self, xs, asm):
        out = []
        for pre, o in xs:
            Ls, g = self.normpre(pre)
            if g is FALSE:
                continue
            if not self.sat_(AND(asm, g)):
                continue
            # gated operands: split into cases
            ph = next((x for x in o.a if isinstance(x, T) and x.op == "phi"), None)
            if ph is not None:
                c = ph.a[0]
                o1 = mk(o.op, *[x.a[1] if x is ph else x for x in o.a])
                o2 = mk(o.op, *[x.a[2] if x is ph else x for x in o.a])
                base = tuple((L, TRUE) for L in Ls)
                out.extend(self.bagnorm([(base + ((None, AND(g, c)),), o1), (base + ((None, AND(g, NOT(c))),), o2)], asm))
                continue
            if o.op == "ext" and o.a[0].op == "setop" and o.a[0].a[0] == "|":
                base = tuple((L, TRUE) for L in Ls) + ((None, g),)
                out.extend(self.bagnorm([(base, mk("ext", o.a[0].a[1])), (base, mk("ext", o.a[0].a[2]))], asm))
                continue
            out.append((Ls, g, o))
        # merge equal operations under different conditions
        res = []
        for Ls, g, o in out:
            for i, (L2, g2, o2) in enumerate(res):
                if L2 == Ls and o2 is o and (o.op in ("add", "ext") or not self.sat_(AND(g, g2))):
                    res[i] = (Ls, OR(g, g2), o)
                    break
            else:
                res.append((Ls, g, o))
        return res

    @under
    def bageq(self, x, y, asm, what=""):
        (L1, g1, o1), (L2, g2, o2) = x, y
        if o1.op != o2.op:
            return self.ne(o1, o2, what)
        if len(L1) != len(L2):
            return Res(NE_ if self.rel(o1, o2) else UNK_, f"{what}: iterates over {len(L1)} domains instead of {len(L2)} for {short(o1)}")
        first = None
        for perm in itertools.permutations(range(len(L1))) if len(L1) <= 3 else [tuple(range(len(L1)))]:
            P = [L1[i] for i in perm]
            ok = True
            for p, q in zip(P, L2):
                if p is not q and not self.eqv(p.a[0], q.a[0], asm).ok:
                    ok = False
                    r = self.eqdom(p.a[0], q.a[0], asm, what + " (iteration domain)")
                    break
            if ok:
                # rename simultaneously through fresh names
                tmp = {p: mk("L", mk("tmpdom", i), 0) for i, p in enumerate(P)}
                back = {mk("L", mk("tmpdom", i), 0): q for i, q in enumerate(L2)}
                g, o = subst(subst(g1, tmp), back), subst(subst(o1, tmp), back)
                r = self.eqbool(g, g2, asm, what)
                if r.ok:
                    r = self.eqargs(o.a, o2.a, AND(asm, g2), what)
            if r.ok:
                return OK
            if first is None:
                first = r
        return first

    @under
    def eqops(self, xs, ys, asm, what, kd):
        """ordered sequences of operations"""
        self.tick()
        xs, ys = self.trim(xs, asm), self.trim(ys, asm)
        if kd == "dict":
            r = self.eqdict(xs, ys, asm, what)
            if r is not None:
                return r
        i = 0
        while True:
            if not xs and not ys:
                return OK
            if not xs or not ys:
                extra = (xs or ys)
                if all(o.op == "ext" and self.emptyv(o.a[0], asm) for o in extra):
                    return OK
                for o in extra:
                    if o.op == "if":
                        return self.split(o.a[0], asm, lambda a2: self.eqops(xs, ys, a2, what, kd))
                t = mk("log", kd, EMPTY, tuple(extra))
                if (xs or 'dynw' in ops_of(t)) and not self.plain(unks(t)):
                    return Res(UNK_, f"{what}: {'additional' if xs else 'missing'} {short(extra[0])}")
                return Res(NE_, f"{what}: {'additional' if xs else 'missing'} operation {short(extra[0])}")
            x, y = xs[0], ys[0]
            if x is y:
                xs, ys = xs[1:], ys[1:]
                continue
            if x.op == "if" or y.op == "if":
                ys = self.unify(xs, ys, asm)
                c = x.a[0] if x.op == "if" else ys[0].a[0]
                return self.split(c, asm, lambda a2: self.eqops(xs, ys, a2, what, kd))
            r = self.eqop(x, y, asm, what, kd)
            if not r.ok:
                return r
            xs, ys = xs[1:], ys[1:]

    def emptyv(self, t, asm):
        return not self.sat_(AND(asm, cond(t)))

    def trim(self, ops, asm):
        out = []
        for o in ops:
            o = self.simp(o, asm) if asm is not TRUE else o
            if o.op == "each":
                if o.a[1] is FALSE or not o.a[2] or not self.sat_(AND(asm, o.a[1])) or asm is not TRUE and not self.sat_(AND(asm, nonempty_dom(o.a[0]))):
                    continue
            if o.op == "if":
                c = o.a[0]
                if c is TRUE:
                    out.extend(self.trim(o.a[1], asm))
                    continue
                if c is FALSE:
                    out.extend(self.trim(o.a[2], asm))
                    continue
                if not o.a[1] and not o.a[2]:
                    continue
                if not self.sat_(AND(asm, c)):
                    out.extend(self.trim(o.a[2], asm))
                    continue
                if not self.sat_(AND(asm, NOT(c))):
                    out.extend(self.trim(o.a[1], asm))
                    continue
            out.append(o)
        return tuple(out)

    def eqop(self, x, y, asm, what, kd):
        if x.op == "each" and y.op == "each":
            (L1, g1, o1), (L2, g2, o2) = x.a, y.a
            if L1 is not L2:
                r = self.eqdom(L1.a[0], L2.a[0], asm, what + " (iteration domain)")
                if not r.ok:
                    return r
                g1 = subst(g1, {L1: L2})
                o1 = tuple(subst(o, {L1: L2}) for o in o1)
            r = self.eqbool(g1, g2, asm, what)
            if not r.ok:
                return r
            return self.eqops(o1, o2, AND(asm, g2), what, kd)
        if x.op != y.op and {x.op, y.op} & {"ext", "each", "upd", "rewrite", "mutop"}:
            return Res(UNK_, f"{what}: {short(x)} / {short(y)}")
        if x.op == y.op and len(x.a) == len(y.a):
            r = self.eqargs(x.a, y.a, asm, what)
            return Res(UNK_, r.why) if r.k == NE_ and x.op in ("set", "acc") and self.fromend(x.a[0], y.a[0]) else r
        return self.ne(x, y, what)

    @staticmethod
    def fromend(i, j):
        """a position counted from the end and one counted from the start"""
        return (i.op == "num") != (j.op == "num") and any(t.op == "num" and t.a[0] < 0 for t in (i, j))

    def eqdict(self, xs, ys, asm, what):
        """assignments under distinct constant keys commute"""
        def keys(ops):
            ks = []
            for o in ops:
                if o.op != "set" or not isconst(o.a[0]):
                    return None
                ks.append(o.a[0])
            return ks
        kx, ky = keys(xs), keys(ys)
        if kx is None or ky is None:
            return None
        dx, dy = {o.a[0]: o.a[1] for o in xs}, {o.a[0]: o.a[1] for o in ys}
        for k in dx:
            if k not in dy:
                return Res(NE_, f"{what}: additional key {short(k)}")
        for k in dy:
            if k not in dx:
                return Res(NE_, f"{what}: missing key {short(k)}")
        return both([self.eqv(dx[k], dy[k], asm, f"{what}[{short(k, 40)}]") for k in dx])
