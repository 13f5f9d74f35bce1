"""Hash-consed value terms, polynomial and boolean normal forms.

A term stands for the value an expression has for *every* run; two program
fragments that compute the same function get the same term wherever the
normaliser knows the idiom.  Nothing here executes code of the repository.
"""
from fractions import Fraction
import itertools

_tab = {}


class T:
    __slots__ = ("op", "a", "n", "_fv", "_ops")

    def __repr__(self):
        return pretty(self)


def mk(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_tab)
        t._fv = None
        t._ops = None
        _tab[key] = t
    return t


NONE = mk("none")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
EMPTY = mk("empty")
NAN = mk("nan")


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return mk("inf", x > 0)
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


def const(v):
    if v is None:
        return NONE
    if isinstance(v, (bool, int, float)):
        return num(v)
    if isinstance(v, str):
        return mk("str", v)
    if isinstance(v, bytes):
        return mk("bytes", v)
    return mk("opq", "const:" + repr(v))


def S(s):
    return mk("str", s)


ZERO = num(0)
ONE = num(1)


def isconst(t):
    return t.op in ("num", "str", "bool", "none", "bytes", "nan", "inf")


# ---------------------------------------------------------------- kinds
KIND_ATTR = {
    "_interactions_length": "int", "label": "str", "_label": "str", "_offset": "num", "_strength": "num", "_n": "int",
    "_mtype": "str", "_interactions_attrs": "list", "_default_keys": "list", "_variables": "dict", "_deleted": "dict",
    "_fixed": "dict", "_constraints": "dict", "_interactions_array": "dict", "_raw_interactions": "dict",
    "_label_to_index": "dict", "_index_to_label": "dict", "_variables_set": "set", "_variables_1": "set", "_variables_2": "set",
    "shape": "tuple", "num_variables": "int", "offset": "num", "status_code": "int", "_bqm_linear": "list", "_bqm_adj": "list",
    "_accept_randoms_idx": "int", "_endpoint": "str", "_token": "str", "_config_filename": "str", "bit_list": "list", "_exact": "bool",
}
KIND_COL = {
    "body": "int", "name": "str", "key_0": "str", "key_1": "str", "coefficient": "num", "scale": "num", "timestamp": "num",
    "dirty": "bool", "removed": "bool",
}
KIND_PARAM = {}
KIND_TERM = {}
KIND_CALL = {"len": "int", "int": "int", "float": "num", "str": "str", "repr": "str", "abs": "num", "math.exp": "num", "round": "num",
             "time.time": "num", "time.perf_counter": "num", "range": "list", "id": "int", "numpy.exp": "num", "sorted": "list",
             "json.dumps": "str", "os.path.expanduser": "str", "traceback.format_exc": "str", "type": "obj", "numpy.ones": "arr", "numpy.arange": "arr"}


def is_col(t):
    """item(<..>._interactions_array, 'name') -> column name"""
    if t.op == "item" and t.a[1].op == "str":
        b = t.a[0]
        if is_array(b):
            return t.a[1].a[0]
    return None


def is_array(b):
    while b.op in ("at",):
        b = b.a[0]
    if b.op == "attr" and b.a[1] == "_interactions_array":
        return True
    if b.op in ("mu", "out") and b.a[1].op == "locA" and b.a[1].a[1] == "_interactions_array":
        return True
    return False


def kind(t):
    k = KIND_TERM.get(t)
    if k:
        return k
    op = t.op
    if op in ("num", "inf", "nan"):
        return "int" if op == "num" and t.a[0].denominator == 1 else "num"
    if op == "poly":
        for m, c in t.a[0]:
            if c.denominator != 1 or any(e < 0 or kind(x) != "int" for x, e in m):
                return "num"
        return "int"
    if op in ("str", "strcat", "fmt"):
        return "str"
    if op in BOOLOPS or op == "bool":
        return "bool"
    if op == "attr":
        return KIND_ATTR.get(t.a[1])
    if op in ("mu", "out"):
        lk = t.a[1]
        if lk.op == "locA":
            return KIND_ATTR.get(lk.a[1])
        return KIND_TERM.get(t)
    if op == "p":
        return KIND_PARAM.get(t.a[0])
    if op == "item":
        b = t.a[0]
        if is_array(b):
            return "list"
        c = is_col(b)
        if c:
            return KIND_COL.get(c)
        if b.op == "attr" and b.a[1] == "_label_to_index":
            return "int"
        if b.op == "attr" and b.a[1] == "_index_to_label":
            return "str"
        if b.op == "attr" and b.a[1] in ("_bqm_linear",):
            return "num"
        return None
    if op == "elem" or op == "key":
        return None
    if op in ("idx", "psum", "sum", "len"):
        return "int" if op in ("idx", "len") else "num"
    if op == "call":
        return KIND_CALL.get(t.a[0])
    if op == "log":
        return t.a[0]
    if op in ("sorted", "cat", "proj"):
        return "list"
    if op == "tuple":
        return "tuple"
    if op == "phi":
        k1, k2 = kind(t.a[1]), kind(t.a[2])
        if k1 == k2:
            return k1
        if {k1, k2} <= {"int", "num"}:
            return "num"
        if k1 is None or k2 is None:
            return None
        return None
    if op == "resolve":
        return "num"
    return None


PAIR_KEYED = {"qubo", "quadratic"}


def pairkey(t):
    """a key of a mapping whose keys are pairs, as a pair"""
    if t.op == "key" and t.a[0].a[0].op == "dict":
        d = t.a[0].a[0].a[0]
        if d.op == "attr" and d.a[1] in PAIR_KEYED or d.op == "item" and d.a[0].op == "attr" and d.a[0].a[1] == "_raw_interactions" and d.a[1] is num(2) or \
                d.op == "log" and d.a[1] is EMPTY and d.a[2] and all(pairput(o) for o in d.a[2]):
            return mk("tuple", mk("item", t, ZERO), mk("item", t, ONE))
    return t


def pairput(o, g=()):
    if o.op in ("set", "acc", "acc0", "sd"):
        k = o.a[0]
        if k.op == "phi":
            return pairput(mk("set", k.a[1]), g + (k.a[0],)) and pairput(mk("set", k.a[2]), g + (NOT(k.a[0]),))
        if k.op == "item" and k.a[0].op == "item" and k.a[0].a[1] is S("key"):
            # the key of an interaction of two variables
            b = mk("item", mk("item", k.a[0].a[0], S("body")), k.a[1])
            try:
                return implies(AND(*g), OR(EQ(b, num(2)), NOT(EQ(b, ONE))))
            except TooBig:
                return False
        return k.op == "tuple" and len(k.a) == 2
    if o.op == "each":
        return all(pairput(x, g + tuple(conj(o.a[1]))) for x in o.a[2])
    if o.op == "if":
        return all(pairput(x, g + tuple(conj(o.a[0]))) for x in o.a[1]) and all(pairput(x, g + tuple(conj(NOT(o.a[0])))) for x in o.a[2])
    return False


def isnumkind(t):
    return kind(t) in ("num", "int")


# ---------------------------------------------------------------- polynomials
def _pdict(t):
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a[0])
    if t.op == "bool":
        return {(): Fraction(1)} if t.a[0] else {}
    return {((t, 1),): Fraction(1)}


def _pmk(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: tuple((x.n, e) for x, e in mc[0]))))


def _mmul(m1, m2):
    d = {}
    for x, e in m1 + m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: xe[0].n))


def padd(a, b, s=1):
    if NAN in (a, b):
        return NAN
    d = _pdict(a)
    for m, c in _pdict(b).items():
        d[m] = d.get(m, 0) + s * c
    return _pmk(d)


def psub(a, b):
    return padd(a, b, -1)


def pmul(a, b):
    if NAN in (a, b):
        return NAN
    A, B = _pdict(a), _pdict(b)
    if len(A) * len(B) > 400:
        return mk("opq", "bigpoly", a, b)
    d = {}
    for m1, c1 in A.items():
        for m2, c2 in B.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _pmk(d)


def pneg(a):
    return pmul(num(-1), a)


def pinv(b):
    d = _pdict(b)
    if not d:
        return mk("opq", "div0")
    if len(d) == 1:
        (m, c), = d.items()
        return _pmk({tuple((x, -e) for x, e in m): 1 / c})
    # normalise the leading coefficient
    lead = sorted(d.items(), key=lambda mc: tuple((x.n, e) for x, e in mc[0]))[-1][1]
    nb = _pmk({m: c / lead for m, c in d.items()})
    return pmul(num(1 / lead), mk("inv", nb))


def pdiv(a, b):
    return pmul(a, pinv(b))


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


# ---------------------------------------------------------------- booleans
BOOLOPS = {"and", "or", "not", "eq", "lt0", "lts", "in", "isnone", "isinst", "truthy", "anyiter", "exc", "eq0", "is", "callb"}


def NOT(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    return mk("not", c)


def _flat(op, xs):
    for x in xs:
        if x.op == op:
            yield from _flat(op, x.a)
        else:
            yield x


def AND(*xs):
    s = []
    seen = set()
    for x in _flat("and", xs):
        if x is TRUE or x in seen:
            continue
        if x is FALSE or NOT(x) in seen:
            return FALSE
        seen.add(x)
        s.append(x)
    if not s:
        return TRUE
    # unit propagation of literals into disjunctions
    out = []
    for x in s:
        if x.op == "or":
            ds = []
            sat = False
            for d in x.a:
                if d in seen:
                    sat = True
                    break
                if NOT(d) in seen:
                    continue
                if d.op == "and":
                    if any(NOT(e) in seen for e in d.a):
                        continue
                    d = AND(*[e for e in d.a if e not in seen])
                ds.append(d)
            if sat:
                continue
            y = OR(*ds)
            if y is FALSE:
                return FALSE
            if y is TRUE:
                continue
            if y is not x:
                return AND(*[y if z is x else z for z in s])
            out.append(y)
        elif x.op == "not" and x.a[0].op == "and":
            cs = x.a[0].a
            if any(NOT(e) in seen for e in cs):
                continue
            rest = [e for e in cs if e not in seen]
            if len(rest) != len(cs):
                y = NOT(AND(*rest))
                return AND(*[y if z is x else z for z in s])
            out.append(x)
        elif x.op == "not" and x.a[0].op == "or":
            return AND(*([NOT(e) for e in x.a[0].a] + [z for z in s if z is not x]))
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda t: t.n))


def conj(c):
    if c.op == "and":
        return list(c.a)
    if c is TRUE:
        return []
    return [c]


def OR(*xs):
    s = []
    seen = set()
    for x in _flat("or", xs):
        if x is FALSE or x in seen:
            continue
        if x is TRUE or NOT(x) in seen:
            return TRUE
        seen.add(x)
        s.append(x)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    # absorption
    cs = [set(conj(x)) for x in s]
    keep = []
    for i, x in enumerate(s):
        if any(j != i and cs[j] <= cs[i] and (cs[j] != cs[i] or j < i) for j in range(len(s))):
            continue
        keep.append(x)
    s = keep
    if len(s) == 1:
        return s[0]
    # factor common conjuncts
    common = set(conj(s[0]))
    for x in s[1:]:
        common &= set(conj(x))
    if common:
        rest = OR(*[AND(*[c for c in conj(x) if c not in common]) for x in s])
        return AND(rest, *sorted(common, key=lambda t: t.n))
    # a or (not a and b) -> a or b
    lits = {x for x in s if x.op != "and"}
    ns = []
    ch = False
    for x in s:
        if x.op == "and":
            c2 = [c for c in x.a if NOT(c) not in lits]
            if len(c2) != len(x.a):
                ch = True
                x = AND(*c2)
        ns.append(x)
    if ch:
        return OR(*ns)
    # (a and c) or (a' and not c and ..) : merge complementary pairs
    for i in range(len(s)):
        for j in range(i + 1, len(s)):
            a, b = set(conj(s[i])), set(conj(s[j]))
            da, db = a - b, b - a
            if len(da) == 1 and len(db) == 1 and NOT(next(iter(da))) is next(iter(db)):
                m = AND(*(a & b))
                return OR(m, *[s[k] for k in range(len(s)) if k not in (i, j)])
    return mk("or", *sorted(s, key=lambda t: t.n))


def _allint(p):
    return kind(p) == "int"


def lt0(p):
    """p < 0"""
    if p.op == "num":
        return TRUE if p.a[0] < 0 else FALSE
    d = _pdict(p)
    # length of a container
    if len(d) <= 2:
        ms = [m for m in d if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0].op == "len":
            x = ms[0][0][0].a[0]
            c, k = d[ms[0]], d.get((), Fraction(0))
            # c*len + k < 0
            if c < 0:
                thr = k / -c  # len > thr
                if 0 <= thr < 1:
                    return truthy(x)
                if thr < 0:
                    return TRUE
            else:
                thr = -k / c  # len < thr
                if 0 < thr <= 1:
                    return NOT(truthy(x))
                if thr <= 0:
                    return FALSE
    # number of iterations that satisfy a condition
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum":
            L, body = m[0][0].a
            if body.op == "phi" and {body.a[1], body.a[2]} == {ZERO, ONE}:
                if c < 0:
                    return anyiter(L, body.a[0] if body.a[1] is ONE else NOT(body.a[0]))
                return FALSE
    # scale to leading |coeff| 1
    lead = None
    for m, c in sorted(d.items(), key=lambda mc: tuple((x.n, e) for x, e in mc[0])):
        if m != ():
            lead = abs(c)
    p = _pmk({m: c / lead for m, c in d.items()})
    # canonical orientation for integers: p<0  <=> not(-p-1 < 0)
    if _allint(p):
        d = _pdict(p)
        top = sorted((m for m in d if m != ()), key=lambda m: tuple((x.n, e) for x, e in m))[-1]
        if d[top] < 0:
            return NOT(mk("lt0", psub(pneg(p), ONE)))
    return mk("lt0", p)


def eq0(p):
    if p.op == "num":
        return TRUE if p.a[0] == 0 else FALSE
    d = _pdict(p)
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len":
            return NOT(truthy(m[0][0].a[0]))
        p = _pmk({m: Fraction(1)})
    else:
        lead = [c for m, c in sorted(d.items(), key=lambda mc: tuple((x.n, e) for x, e in mc[0])) if m != ()][-1]
        p = _pmk({m: c / lead for m, c in d.items()})
        if set(m for m in d if m == ()) and len(d) == 2:
            # x - c : use eq(x, c) when x is an atom
            m = [m for m in d if m != ()][0]
            if len(m) == 1 and m[0][1] == 1:
                return mk("eq", m[0][0], num(-d[()] / d[m]))
    if p.op != "poly":
        return mk("eq", p, ZERO)
    return mk("eq0", p)


def LT(a, b):
    ka, kb = kind(a), kind(b)
    if a.op == "str" and b.op == "str":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if ka in ("str", "tuple", "list") or kb in ("str", "tuple", "list"):
        return mk("lts", a, b)
    return lt0(psub(a, b))


def EQ(a, b):
    if a is b:
        return TRUE
    if a is NONE:
        a, b = b, a
    if b is NONE:
        return ISNONE(a)
    if a.op == "phi" and (isconst(b) or b.op == "phi" or isconst(a.a[1]) or isconst(a.a[2])):
        return OR(AND(a.a[0], EQ(a.a[1], b)), AND(NOT(a.a[0]), EQ(a.a[2], b)))
    if b.op == "phi":
        return EQ(b, a)
    if a.op == "bool" and b.op != "bool":
        a, b = b, a
    if b.op == "bool":
        if a.op == "bool":
            return FALSE
        if kind(a) == "bool":
            return cond(a) if b is TRUE else NOT(cond(a))
        if a.op == "num":
            return TRUE if a.a[0] == int(b.a[0]) else FALSE
        return mk("eq", a, b)
    if kind(a) == "bool" and kind(b) == "bool":
        ca, cb = cond(a), cond(b)
        return OR(AND(ca, cb), AND(NOT(ca), NOT(cb)))
    if isconst(a) and isconst(b):
        return FALSE  # distinct interned constants
    if a.op == "tuple" and b.op == "tuple":
        if len(a.a) != len(b.a):
            return FALSE
        return AND(*[EQ(x, y) for x, y in zip(a.a, b.a)])
    if isnumkind(a) or isnumkind(b):
        if kind(a) in ("str", "tuple", "list", "dict") or kind(b) in ("str", "tuple", "list", "dict"):
            return FALSE
        return eq0(psub(a, b))
    for x, y in ((a, b), (b, a)):
        if y.op == "str" and y.a[0] == "" and kind(x) == "str":
            return NOT(truthy(x))
        if y.op == "log" and y.a[1] is EMPTY and not y.a[2]:
            if kind(x) == y.a[0]:
                return NOT(truthy(x))
    if isconst(a):
        a, b = b, a
    if not isconst(b) and a.n > b.n:
        a, b = b, a
    return mk("eq", a, b)


def matched(pattern, how):
    """the language of a compiled pattern"""
    if pattern.op == "call" and pattern.a[0] == "re.compile" and len(pattern.a[1]) == 1 and not pattern.a[2] and pattern.a[1][0].op == "str":
        from .rx import language
        return language(pattern.a[1][0].a[0], how)
    return None


def predicate(f):
    """a function whose result is only tested"""
    if f.op == "attr" and f.a[1] in ("match", "fullmatch", "search") and matched(f.a[0], f.a[1]) is not None:
        return mk("lam", 1, mk("truthy", mk("rxm", matched(f.a[0], f.a[1]), mk("lp", 0))))
    if f.op == "lam" and f.a[0] == 1 and not ops_of(f.a[1]) & {"lameff", "eff"}:
        return mk("lam", 1, cond(f.a[1]))
    return f


def ISNONE(a):
    if a.op == "rxm":
        return NOT(mk("truthy", a))
    if a is NONE:
        return TRUE
    if isconst(a) or a.op in ("poly", "tuple", "log", "ref", "lam", "fn", "cls", "strcat", "sorted", "len", "idx", "bm", "clo", "g"):
        return FALSE
    if a.op == "phi":
        return OR(AND(a.a[0], ISNONE(a.a[1])), AND(NOT(a.a[0]), ISNONE(a.a[2])))
    return mk("isnone", a)


def truthy(t):
    return cond(t)


def cond(t):
    op = t.op
    if op == "bool":
        return t
    if op == "num":
        return TRUE if t.a[0] else FALSE
    if op in ("str", "bytes"):
        return TRUE if t.a[0] else FALSE
    if op == "none":
        return FALSE
    if op in BOOLOPS:
        return t
    if op == "phi":
        c = t.a[0]
        return OR(AND(c, cond(t.a[1])), AND(NOT(c), cond(t.a[2])))
    if op == "len":
        return cond(t.a[0])
    if op == "poly":
        return NOT(eq0(t))
    if op == "tuple":
        return TRUE if t.a else FALSE
    if op in ("fn", "cls", "lam", "nan", "clo", "bm"):
        return TRUE
    if op == "log":
        return log_nonempty(t)
    if op == "sorted":
        return cond(t.a[0])
    if op == "strcat":
        if any(x.op == "str" and x.a[0] for x in t.a):
            return TRUE
    if op == "call" and t.a[0] in ("list", "tuple", "set", "bool", "sorted") and len(t.a[1]) == 1:
        return cond(t.a[1][0])
    if isnumkind(t):
        return NOT(eq0(t))
    return mk("truthy", t)


def log_nonempty(t):
    k, base, ops = t.a
    r = FALSE if base is EMPTY else cond(base)
    for o in ops:
        r = _op_nonempty(o, r, t)
    return r


def _op_nonempty(o, r, t):
    if o.op in ("app", "set", "add", "acc", "insert"):
        return TRUE
    if o.op == "ext":
        return OR(r, cond(o.a[0]))
    if o.op == "if":
        return OR(AND(o.a[0], _ops_nonempty(o.a[1], r, t)), AND(NOT(o.a[0]), _ops_nonempty(o.a[2], r, t)))
    if o.op == "each":
        body = _ops_nonempty(o.a[2], FALSE, t)
        return OR(r, anyiter(o.a[0], AND(o.a[1], body)))
    if o.op == "rep":
        return OR(r, LT(ZERO, o.a[1]))
    return mk("truthy", t)


def _ops_nonempty(ops, r, t):
    for o in ops:
        r = _op_nonempty(o, r, t)
    return r


def anyiter(L, c):
    if c is FALSE:
        return FALSE
    if c.op == "or":
        return OR(*[anyiter(L, x) for x in c.a])
    if c.op == "and":
        # pull out conjuncts independent of the loop
        ins, outs = [], []
        for x in c.a:
            (ins if depends(x, L) else outs).append(x)
        if outs and ins:
            return AND(anyiter(L, AND(*ins)), *outs)
        if outs and not ins:
            return AND(nonempty_dom(L), *outs)
    if c is TRUE or not depends(c, L):
        return AND(nonempty_dom(L), c)
    # membership:  any(x == e for e in X)  <=>  x in X
    if c.op == "eq":
        for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
            if y.op == "item" and y.a[1] is mk("idx", L) and not depends(x, L) and L.a[0].op == "seq" and L.a[0].a[0] is y.a[0]:
                return IN(x, y.a[0])
            if y.op == "item" and y.a[1] is mk("idx", L) and not depends(x, L) and L.a[0].op == "table" and y.a[0].op == "item" and y.a[0].a[0] is L.a[0].a[0] and y.a[0].a[1].op == "str":
                return IN(x, y.a[0])
            if y.op == "key" and y.a[0] is L and not depends(x, L):
                return IN(x, L.a[0].a[0])
    # any(x in Y for x in X)  <=>  bool(X & Y) ;  any(x not in Y for x in X)  <=>  bool(X - Y)
    m = c.a[0] if c.op == "not" else c
    if m.op == "in" and not depends(m.a[1], L) and L.a[0].op in ("seq", "dict") and kind(m.a[1]) in ("dict", "set"):
        if m.a[0] is mk("key", L) or L.a[0].op == "seq" and m.a[0] is mk("item", L.a[0].a[0], mk("idx", L)):
            x, y = L.a[0].a[0], m.a[1]
            if c is m and x.n > y.n:
                x, y = y, x
            t = mk("setop", "&" if c is m else "-", x, y)
            KIND_TERM.setdefault(t, "set")
            return cond(t)
    return mk("anyiter", L, c)


def nonempty_dom(L):
    d = L.a[0]
    if d.op in ("seq", "dict", "rev"):
        return cond(d.a[0])
    if d.op == "range":
        return LT(ZERO, d.a[0])
    if d.op == "table":
        return mk("truthy", L.a[0])
    return mk("truthy", d)


def IN(x, c):
    if x.op == "phi" and c.op != "tuple":
        return OR(AND(x.a[0], IN(x.a[1], c)), AND(NOT(x.a[0]), IN(x.a[2], c)))
    if c.op == "tuple":
        return OR(*[EQ(x, y) for y in c.a])
    if c.op == "log" and c.a[1] is EMPTY:
        r = []
        for o in c.a[2]:
            if o.op in ("app", "add"):
                r.append(EQ(x, o.a[0]))
            elif o.op == "set":
                r.append(EQ(x, o.a[0]))
            elif o.op == "ext":
                r.append(IN(x, o.a[0]))
            elif o.op == "each" and len(o.a[2]) == 1 and o.a[2][0].op in ("app", "add"):
                r.append(anyiter(o.a[0], AND(o.a[1], EQ(x, o.a[2][0].a[0]))))
            else:
                return mk("in", x, c)
        return OR(*r)
    if c.op == "call" and c.a[0] in ("list", "set", "tuple", "sorted") and len(c.a[1]) == 1:
        return IN(x, c.a[1][0])
    if c.op in ("sorted", "copy", "keys"):
        return IN(x, c.a[0])
    if c.op == "setop":
        if c.a[0] == "|":
            return OR(IN(x, c.a[1]), IN(x, c.a[2]))
        if c.a[0] == "&":
            return AND(IN(x, c.a[1]), IN(x, c.a[2]))
        if c.a[0] == "-":
            return AND(IN(x, c.a[1]), NOT(IN(x, c.a[2])))
    if c.op == "phi":
        return OR(AND(c.a[0], IN(x, c.a[1])), AND(NOT(c.a[0]), IN(x, c.a[2])))
    if c.op == "str" and x.op == "str":
        return TRUE if x.a[0] in c.a[0] else FALSE
    return mk("in", x, c)


def depends(t, L):
    """does the term mention (an element, index or state of) loop L?"""
    return L in free(t)


def free(t):
    """set of loops mentioned in a term (not through a binder of the same loop)"""
    if t._fv is not None:
        return t._fv
    r = set()
    if t.op == "L":
        r.add(t)
        r |= free(t.a[0])
    elif t.op in ("sum", "anyiter", "each", "firstval", "sumx"):
        L = t.a[0]
        for x in _subs_t(t.a[1:]):
            r |= free(x)
        r.discard(L)
        r |= free(L.a[0])
    elif t.op == "out":
        L = t.a[0]
        r |= free(L.a[0])
    else:
        for x in _subs_t(t.a):
            r |= free(x)
    t._fv = frozenset(r)
    return t._fv


def _subs_t(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _subs_t(x)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in _subs_t(t.a):
        yield from subterms(x, seen)


def ops_of(t):
    """set of operators occurring in a term"""
    r = t._ops
    if r is None:
        r = {t.op}
        for x in (_subs_t(t.a) if t.op != "locC" else ()):
            r |= ops_of(x)
        t._ops = r = frozenset(r)
    return r


def has_op(t, *ops):
    o = ops_of(t)
    return any(x in o for x in ops)


def occurs(x, t, memo=None):
    """x is a subterm of t"""
    if x is t:
        return True
    if x.op not in ops_of(t) or x.n > t.n:
        return False
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = memo[t] = any(occurs(x, y, memo) for y in _subs_t(t.a))
    return r


# ---------------------------------------------------------------- phi
def phi(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return phi(c.a[0], b, a)
    if a.op == "phi" and a.a[0] is c:
        a = a.a[1]
    if b.op == "phi" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == "bool" and b.op == "bool":
        return c if a is TRUE else NOT(c)
    isb = lambda t: t.op == "bool" or t.op in BOOLOPS
    if isb(a) and isb(b):
        return OR(AND(c, a), AND(NOT(c), b))
    if isnumkind(a) and isnumkind(b) and (a.op == "poly" or b.op == "poly"):
        A, B = _pdict(a), _pdict(b)
        common = {m: k for m, k in A.items() if B.get(m) == k}
        if common:
            ra = _pmk({m: k for m, k in A.items() if m not in common})
            rb = _pmk({m: k for m, k in B.items() if m not in common})
            return padd(_pmk(common), phi(c, ra, rb))
        # x vs x+..: atom inside poly handled by common above
    if a.op == "phi" and a.a[2] is b:  # phi(c, phi(d,x,y), y) = phi(c&d, x, y)
        return phi(AND(c, a.a[0]), a.a[1], b)
    if b.op == "phi" and b.a[1] is a:
        return phi(OR(c, b.a[0]), a, b.a[2])
    if b.op == "phi" and b.a[2] is a:
        return phi(AND(NOT(c), b.a[0]), b.a[1], a)
    if a.op == "phi" and a.a[1] is b:
        return phi(AND(c, NOT(a.a[0])), a.a[2], b)
    if c.op == "isnone":
        if subst(b, {c.a[0]: NONE}) is a:
            return b
    return mk("phi", c, a, b)


# ---------------------------------------------------------------- strings
def strcat(*parts):
    out = []
    for p in parts:
        if p.op == "strcat":
            ps = list(p.a)
        elif p.op == "call" and p.a[0] == "str" and len(p.a[1]) == 1:
            ps = [p.a[1][0]]
        else:
            ps = [p]
        for q in ps:
            if q.op == "str" and q.a[0] == "":
                continue
            if q.op == "str" and out and out[-1].op == "str":
                out[-1] = S(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return S("")
    if len(out) == 1 and kind(out[0]) == "str":
        return out[0]
    ph = next((q for q in out if q.op == "phi"), None)
    if ph is not None and len({q.a[0] for q in out if q.op == "phi"}) <= 3:
        c = ph.a[0]
        return phi(c, strcat(*[q.a[1] if q.op == "phi" and q.a[0] is c else q for q in out]), strcat(*[q.a[2] if q.op == "phi" and q.a[0] is c else q for q in out]))
    return mk("strcat", *out)


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(t, a):
    """re-normalise a node with new arguments"""
    op = t.op
    if op == "poly":
        r = ZERO
        for m, c in a[0]:
            x = num(c)
            for y, e in m:
                if e > 0:
                    x = pmul(x, ppow(y, e))
                else:
                    x = pmul(x, ppow(pinv(y), -e))
            r = padd(r, x)
        return r
    f = {"and": AND, "or": OR, "not": NOT, "lt0": lt0, "eq0": eq0, "eq": EQ, "isnone": ISNONE, "in": IN, "phi": phi,
         "truthy": cond, "strcat": strcat, "anyiter": anyiter, "inv": lambda x: pinv(x)}.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


def subst(t, m, memo=None):
    """m: dict term->term"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r

    def go(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    a = tuple(go(x) for x in t.a)
    r = t if a == t.a else rebuild(t, a)
    memo[t] = r
    return r


def mapterm(t, f, memo=None, only=None):
    """bottom-up rewriting: f(term) -> term or None; only: leave terms without this operator alone"""
    if only is not None and only not in ops_of(t):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r

    def go(x):
        if isinstance(x, T):
            return mapterm(x, f, memo, only)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    a = tuple(go(x) for x in t.a)
    r = t if a == t.a else rebuild(t, a)
    r2 = f(r)
    if r2 is not None:
        r = r2
    memo[t] = r
    return r


# ---------------------------------------------------------------- propositional decision
def atoms(f, acc=None):
    if acc is None:
        acc = []
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("and", "or", "not"):
            st.extend(x.a)
        elif x.op != "bool":
            acc.append(x)
    return acc


def assign(f, at, v, memo):
    r = memo.get(f)
    if r is not None:
        return r
    if f is at:
        r = TRUE if v else FALSE
    elif f.op == "and":
        r = AND(*[assign(x, at, v, memo) for x in f.a])
    elif f.op == "or":
        r = OR(*[assign(x, at, v, memo) for x in f.a])
    elif f.op == "not":
        r = NOT(assign(f.a[0], at, v, memo))
    else:
        r = f
    memo[f] = r
    return r


class TooBig(Exception):
    pass


def sat(f, extra=None, order=None, limit=200000):
    """a satisfying assignment of f (dict atom->bool) consistent with the theory axioms, or None"""
    ats = sorted(set(atoms(f)), key=lambda t: t.n)
    ax = AND(*axioms(ats))
    cnt = [0]

    def rec(g, asg):
        cnt[0] += 1
        if cnt[0] > limit:
            raise TooBig()
        if g is FALSE:
            return None
        if g is TRUE:
            return asg
        # unit literals first
        for c in conj(g):
            if c.op == "not" and c.a[0].op not in ("and", "or"):
                return rec(assign(g, c.a[0], False, {}), {**asg, c.a[0]: False})
            if c.op not in ("and", "or", "not"):
                return rec(assign(g, c, True, {}), {**asg, c: True})
        x = atoms(g)[0]
        for v in (True, False):
            r = rec(assign(g, x, v, {}), {**asg, x: v})
            if r is not None:
                return r
        return None
    return rec(AND(f, ax), {})


DOMAINS = []  # functions: term -> list of constant terms (closed domain) or None

DISJOINT = [
    {"pyqubo.Spin", "pyqubo.Binary"}, {"tuple", "list", "set", "dict", "pyqubo.Array", "str", "numbers.Number"},
]


def _basis(name):
    return name


def class_disjoint(a, b):
    groups = {
        "pyqubo.Spin": "var", "pyqubo.Binary": "var", "tuple": "tuple", "list": "list", "set": "set", "dict": "dict", "pyqubo.Array": "arr", "str": "str",
        "int": "n", "float": "n", "numbers.Number": "n", "bool": "n", "numpy.int64": "n", "numpy.int32": "n",
    }
    if {a, b} == {"pyqubo.Spin", "pyqubo.Binary"}:
        return True
    ga, gb = groups.get(a), groups.get(b)
    return ga is not None and gb is not None and ga != gb


def class_sub(a, b):
    return (a, b) in {("bool", "int"), ("int", "numbers.Number"), ("float", "numbers.Number"), ("bool", "numbers.Number")}


def _unit(p):
    """the x of x + k or k - x with an integer k"""
    d = _pdict(p)
    ms = [m for m in d if m != ()]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and abs(d[ms[0]]) == 1 and d.get((), Fraction(0)).denominator == 1:
        return ms[0][0][0]
    return None


def axioms(ats):
    by = {}
    for x in ats:
        if x.op in ("eq", "isnone", "truthy", "isinst"):
            by.setdefault(x.a[0], []).append(x)
    out = []
    for base, xs in by.items():
        eqs = [x for x in xs if x.op == "eq" and isconst(x.a[1])]
        for x, y in itertools.combinations(eqs, 2):
            out.append(NOT(mk("and", x, y)) if x.n < y.n else NOT(mk("and", y, x)))
        tr = [x for x in xs if x.op == "truthy"]
        nn = [x for x in xs if x.op == "isnone"]
        ii = [x for x in xs if x.op == "isinst"]
        for t_ in tr:
            for e in eqs:
                out.append(OR(NOT(e), t_ if cond(e.a[1]) is TRUE else NOT(t_)))
            for n_ in nn:
                out.append(OR(NOT(n_), NOT(t_)))
            for e in eqs:
                if e.a[1].op == "str" and e.a[1].a[0] == "":
                    for i_ in ii:
                        if i_.a[1] == "str":
                            out.append(OR(NOT(i_), t_, e))
                    if kind(base) == "str":
                        out.append(OR(t_, e))
        for n_ in nn:
            for e in eqs:
                out.append(OR(NOT(e), NOT(n_)))
            for i_ in ii:
                out.append(OR(NOT(i_), NOT(n_)))
        if kind(base) == "obj":
            for t_ in tr:
                for n_ in nn:
                    out.append(OR(t_, n_))
        for x, y in itertools.permutations(ii, 2):
            if class_sub(x.a[1], y.a[1]):
                out.append(OR(NOT(x), y))
            elif x.n < y.n and class_disjoint(x.a[1], y.a[1]):
                out.append(OR(NOT(x), NOT(y)))
        for dfn in DOMAINS:
            vals = dfn(base)
            if vals and len(eqs) > 0:
                have = [x.a[1] for x in eqs]
                if set(vals) <= set(have):
                    out.append(OR(*eqs))
                elif len(set(vals) - set(have)) == 0:
                    out.append(OR(*eqs))
    ins = [x for x in ats if x.op == "in"]
    for x in ins:
        # every column that is not a default one is listed in the attributes of its model
        e, o = x.a
        if o.op == "attr" and o.a[1] == "_interactions_array" and e.op == "item" and "attr" in ops_of(e.a[0]) and any(u.op == "attr" and u.a[1] == "_interactions_attrs" for u in subterms(e.a[0])):
            y = mk("in", e, mk("attr", o.a[0], "_interactions_attrs"))
            if y in ats:
                out += [OR(NOT(x), y), OR(NOT(y), x)]
        if e.op == "item" and e.a[0].op == "setop" and e.a[0].a[0] == "|" and o is e.a[0].a[1]:
            y = mk("in", e, e.a[0].a[2])
            if y in ats:
                out.append(OR(x, y))
    trs = {x.a[0]: x for x in ats if x.op == "truthy"}
    for x in ins:
        if x.a[1] in trs:
            out.append(OR(NOT(x), trs[x.a[1]]))
    lts = [x for x in ats if x.op == "lt0"]
    eq0s = {x.a[0]: x for x in ats if x.op == "eq0"}
    for x, y in itertools.combinations(lts, 2):
        d = padd(x.a[0], y.a[0])  # p + q
        if d.op == "num":
            # p<0 and q<0 with p+q = d
            if d.a[0] >= 0:
                out.append(OR(NOT(x), NOT(y)))
            if d.a[0] < 0:
                out.append(OR(x, y))
            if -2 < d.a[0] < 0 and d.a[0].denominator == 1:
                # over the integers only one of the two can hold
                i = _unit(x.a[0]), _unit(y.a[0])
                if i[0] is not None and i[0] is i[1]:
                    out.extend(OR(NOT(x), NOT(y), NOT(z)) for z in ats if z.op == "isinst" and z.a[0] is i[0] and z.a[1] == "int")
        d = psub(x.a[0], y.a[0])  # p - q = d : q<0 ...
        if d.op == "num":
            # p = q + d
            if d.a[0] <= 0:
                out.append(OR(NOT(y), x))  # q<0 -> p<0
            else:
                out.append(OR(NOT(x), y))
    for x in lts:
        p = x.a[0]
        e = eq0s.get(p)
        n = pneg(p)
        e = e or eq0s.get(n)
        if e is not None:
            out.append(OR(NOT(x), NOT(e)))
            other = [z for z in lts if z.a[0] is n]
            if other:
                out.append(OR(x, e, other[0]))
    # eq(x,c) with lt0 over the same single atom
    for e in ats:
        if e.op == "eq" and e.a[1].op == "num":
            for x in lts:
                if e.a[0] in {a for m, _ in _pdict(x.a[0]).items() for a, _ in m}:
                    v = subst(x.a[0], {e.a[0]: e.a[1]})
                    if v.op == "num":
                        out.append(OR(NOT(e), x if v.a[0] < 0 else NOT(x)))
    ls = [x for x in ats if x.op == "lts"]
    for x in ls:
        for y in ls:
            if x.n < y.n and x.a[0] is y.a[1] and x.a[1] is y.a[0]:
                out.append(OR(NOT(x), NOT(y)))
                e = [z for z in ats if z.op == "eq" and set(z.a) == set(x.a)]
                if e:
                    out.append(OR(x, y, e[0]))
        for e in ats:
            if e.op == "eq" and set(e.a) == set(x.a):
                out.append(OR(NOT(e), NOT(x)))
    an = [x for x in ats if x.op == "anyiter"]
    have = set(ats)
    for x in an:
        # the current iteration is one of those the quantifier ranges over
        if any(x.a[0] in free(y) for y in ats if y is not x) and any(y in have for y in atoms(x.a[1])):
            out.append(OR(NOT(x.a[1]), x))
    for x, y in itertools.permutations(an, 2):
        if x.a[0] is y.a[0]:
            try:
                if implies(x.a[1], y.a[1]):
                    out.append(OR(NOT(x), y))
            except TooBig:
                pass
    return out


def satisfiable(f):
    return sat(f) is not None


def implies(a, b, assume=TRUE):
    return sat(AND(assume, a, NOT(b))) is None


def equiv(a, b, assume=TRUE):
    if a is b:
        return True
    return implies(a, b, assume) and implies(b, a, assume)


# ---------------------------------------------------------------- printing
def pretty(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(pretty(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "..."
    p = lambda x: pretty(x, d + 1)
    op, a = t.op, t.a
    if op == "num":
        return str(a[0])
    if op in ("str", "bytes"):
        return repr(a[0])
    if op == "bool":
        return str(a[0])
    if op == "none":
        return "None"
    if op == "nan":
        return "NaN"
    if op == "p":
        return a[0]
    if op == "self":
        return "self"
    if op == "g":
        return a[0]
    if op in ("fn", "cls"):
        return a[0]
    if op == "attr":
        return f"{p(a[0])}.{a[1]}"
    if op == "item":
        return f"{p(a[0])}[{p(a[1])}]"
    if op == "at":
        return p(a[0]) + "'"
    if op == "poly":
        out = []
        for m, c in a[0]:
            s = "*".join(p(x) + (f"^{e}" if e != 1 else "") for x, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = f"{c}*{s}"
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if op == "and":
        return "(" + " and ".join(map(p, a)) + ")"
    if op == "or":
        return "(" + " or ".join(map(p, a)) + ")"
    if op == "not":
        return "not " + p(a[0])
    if op == "eq":
        return f"{p(a[0])} == {p(a[1])}"
    if op == "eq0":
        return f"{p(a[0])} == 0"
    if op == "lt0":
        return f"{p(a[0])} < 0"
    if op == "lts":
        return f"{p(a[0])} < {p(a[1])}"
    if op == "in":
        return f"{p(a[0])} in {p(a[1])}"
    if op == "isnone":
        return f"{p(a[0])} is None"
    if op == "isinst":
        return f"isinstance({p(a[0])}, {a[1]})"
    if op == "truthy":
        return f"bool({p(a[0])})"
    if op == "phi":
        return f"({p(a[1])} if {p(a[0])} else {p(a[2])})"
    if op == "call":
        return f"{a[0]}({', '.join([p(x) for x in a[1]] + [f'{k}={p(v)}' for k, v in a[2]])})"
    if op == "mcall":
        return f"{p(a[0])}.{a[1]}({', '.join([p(x) for x in a[2]] + [f'{k}={p(v)}' for k, v in a[3]])})"
    if op == "tuple":
        return "(" + ", ".join(map(p, a)) + ")"
    if op == "strcat":
        return "f" + "".join("{" + p(x) + "}" if x.op != "str" else x.a[0] for x in a)
    if op == "L":
        return f"for<{p(a[0])}>" + ("'" * a[1])
    if op == "idx":
        return "i"
    if op == "key":
        return "k<" + p(a[0].a[0]) + ">"
    return f"{op}({', '.join(p(x) for x in a)})"
