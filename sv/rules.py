"""Rules: the summary of a public operation must agree with its reference text."""
import copy
import os
import time

from .terms import *
from .load import Module, Func, AnalysisBroken
from .engine import Interp
from .side import *
from .cmp import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ob:
    """one obligation of a rule"""
    __slots__ = ("rule", "name", "res", "where", "finding")

    def __init__(self, rule, name, res, where=""):
        self.rule, self.name, self.res, self.where = rule, name, res, where
        self.finding = False        # the difference is exactly the one described by the reference text of a known finding

    @property
    def key(self):
        return f"{self.rule}/{self.name}"


class SpecMods:
    def __init__(self):
        self.mods = {}
        d = os.path.join(HERE, "spec")
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                self.mods[f[:-3]] = Module("spec." + f[:-3], p, "spec/" + f, open(p, encoding="utf-8").read())

    def func(self, mod, name, cls=None):
        m = self.mods[mod]
        d = m.defs.get(name)
        if "." in name:
            c, n = name.split(".")
            d = m.defs.get(c)
            if d is None or d[0] != "class" or n not in d[1].methods:
                raise AnalysisBroken(f"reference {mod}:{name} missing")
            f = d[1].methods[n]
            g = Func(m, f.node, cls)
            return g
        if d is None or d[0] != "func":
            raise AnalysisBroken(f"reference {mod}:{name} missing")
        return Func(m, d[1].node, cls)


IGNORED_EXT = ("warnings.", "print", "logging.", "pprint.", "sys.stdout", "sys.stderr")


def keep_ext(t):
    return not (t.op == "call" and t.a[0].startswith(IGNORED_EXT))


class Rule:
    def __init__(self, rid, target, spec=None, props=(), state=True, ret=True, raises=True, traces=("api", "call", "dispatch", "dyn", "pipe"), bags=(), types=None, kinds=None, inline=(), opaque=None,
                 defaults=True, ignore=(), only=None, args=None, seconds=40, constraint_cls=None, allow=(), curry=False, finding=None, custom=None, skip=(), keep=None, doc=""):
        self.skip, self.keep = set(skip), keep or {}
        self.finding, self.custom = finding, custom
        self.curry = curry
        self.allow = allow
        self.constraint_cls = constraint_cls
        self.rid, self.target, self.props = rid, target, tuple(props)
        self.spec = spec or target
        self.state, self.ret, self.raises, self.traces, self.bags = state, ret, raises, traces, set(bags)
        self.types, self.kinds, self.inline, self.opaque = types or {}, kinds or {}, inline, opaque
        self.defaults, self.ignore, self.only, self.args, self.seconds, self.doc = defaults, set(ignore), only, args, seconds, doc


def target_func(repo, target):
    if "." in target and ":" not in target:
        c, n = target.rsplit(".", 1)
        cls = repo.cls(c)
        return repo.method(c, n), cls
    mod, n = target.split(":")
    m = repo.mods.get(mod)
    if m is None:
        raise AnalysisBroken(f"module {mod} not found")
    d = m.defs.get(n)
    if d is not None and d[0] == "import":
        d = repo.resolve(d[1])
    if d is None or d[0] != "func":
        raise AnalysisBroken(f"function {target} not found")
    return d[1], None


def analyse(repo, rule, func, cls, inline):
    types = {}
    for k, v in rule.types.items():
        types[mk("p", k) if isinstance(k, str) else k] = v
    it = Interp(repo, cls=cls, types=types, kinds=rule.kinds, opaque=rule.opaque, inline=inline)
    if rule.constraint_cls:
        it.constraint_cls = rule.constraint_cls
    return it.run(func, rule.args, curry=rule.curry)


def param_names(func):
    a = func.node.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg is not None, a.kwarg is not None


def run_rule(repo, specs, rule, stats=None, inline=None):
    """-> list of obligations"""
    func, cls = target_func(repo, rule.target)
    sm, sn = rule.spec.split(":") if ":" in rule.spec else ("model", rule.spec)
    sf = specs.func(sm, sn, cls)
    if func.static:
        sf.static = True
    if func.clsm:
        sf.clsm = True
    obs, late = [], []
    where = f"{func.mod.rel}:{func.node.lineno} ({func.qual})"

    def ob(name, res):
        obs.append(Ob(rule.rid, name, res, where))

    try:
        inl = rule.inline if inline is None else inline
        cs = analyse(repo, rule, func, cls, inl)
        ss = analyse(repo, rule, sf, cls, inl)
        if stats is not None:
            stats["functions"] |= {f"{f.mod.rel}:{f.qual}" for f in cs.interp.visited}
            stats["events"] += len(cs.events)
        for f in ss.interp.visited:
            if not f.mod.name.startswith("spec.") and f.name not in ("__init__",) and f.qual not in rule_allow(rule):
                raise AnalysisBroken(f"reference {rule.spec} depends on {f.qual} of the repository")
        A, B = Side(cs, "A"), Side(ss, "B")
        PA, PB = A.paths(), B.paths()
        roots = [[X.valid(), X.ret(), *(P.values() if rule.state else []), *[X.trace(ch) for ch in rule.traces]] for X, P in ((A, PA), (B, PB))]
        bs = Bisim((A, B), roots, rule.seconds, B.valid(), repo.attr_names())
        nm = bs.name
        c = Cmp(seconds=rule.seconds, bisim=bs)
        # signature
        pa, pb = param_names(func), param_names(sf)
        if rule.defaults:
            r = OK
            miss = [x for x in pb[0] + pb[1] if x not in pa[0] + pa[1]]
            if miss:
                r = Res(UNK_, f"parameter {miss[0]} is not in the signature")
            else:
                for n in [n for n in pb[0] + pb[1] if n not in rule.skip]:
                    x, y = cs.interp.default_of(func, n), ss.interp.default_of(sf, n)
                    if (x is None) != (y is None):
                        r = Res(NE_, f"default of {n}: {x} instead of {y}")
                    elif x is not None:
                        r = c.eqv(A.canon(x), B.canon(y), TRUE, f"default of {n}")
                    if not r.ok:
                        break
            ob("defaults", r)
        asm = TRUE
        if rule.raises:
            va, vb = nm(A.valid()), nm(B.valid())
            r = bs.settle(c.eqbool(va, vb, TRUE, "normal termination"), va, vb)
            ob("raises", r)
        asm = nm(B.valid())

        def eqa(x, y, what):
            r = c.eqv(x, y, TRUE, what)
            if r.k != EQ_ and asm is not TRUE and asm is not FALSE:
                r = c.eqv(x, y, asm, what)
            return bs.settle(r, x, y)
        live = set()
        if rule.ret:
            x, y = nm(A.ret()), nm(B.ret())
            ob("returns", eqa(x, y, "returned value"))
            live |= objs_in(x) | objs_in(y)
        if rule.state:
            P, Q = PA, same_keys(PA, PB, c, nm)
            keys = sorted(set(P) | set(Q), key=lambda k: (k[0], str(k[2]) if len(k) > 2 else "", k[1].n))
            changed = True
            while changed:
                changed = False
                for k in keys:
                    if k[1].op != "obj" or k[1] in live:
                        for side in (P, Q):
                            if k in side:
                                n = objs_in(side[k]) - live
                                if n:
                                    live |= n
                                    changed = True
            for k in keys:
                if k[0] == "A" and (k[2] in IGNORE_ATTR or k[2] not in KNOWN_ATTR and (k[1] is SELF or k[1].op == "obj") or k[2] in rule.ignore):
                    continue
                if k[1].op == "obj" and k[1] not in live or note_path(k):
                    continue
                if rule.only is not None and not rule.only(k):
                    continue
                x = P[k] if k in P else lookup(A, P, k)
                y = Q[k] if k in Q else lookup(B, Q, k)
                if k[0] == "A" and (A.api_only(x, k[1], k[2]) and B.api_only(y, k[1], k[2])) and (k[1] is not SELF or (x is initial(k)) == (y is initial(k))):
                    continue        # covered by the trace of the operations
                r = eqa(nm(x), nm(y), show_path(k))
                if not r.ok and (covered(k, P, Q) if k[0] != "A" else replaced(k, P, Q) or c.gone(k[2])):
                    r = Res(UNK_, r.why)
                ob("state " + show_path(k), r)
                if k[0] == "I" and "touched" in ops_of(k[1]):
                    late.append(obs[-1])
        for ch in rule.traces:
            kf = rule.keep.get(ch, keep_ext if ch == "ext" else None)
            x, y = nm(A.trace(ch, kf)), nm(B.trace(ch, kf))
            if not x.a[2] and not y.a[2] and x.a[1] is EMPTY and y.a[1] is EMPTY:
                continue
            if ch in rule.bags and x.a[1] is y.a[1]:
                r = c.eqbag(c.flat(x.a[2]), c.flat(y.a[2]), TRUE, "calls")
                if not r.ok and asm is not TRUE:
                    r = c.eqbag(c.flat(x.a[2]), c.flat(y.a[2]), asm, "calls")
                r = bs.settle(r, x, y)
            else:
                r = eqa(x, y, {"api": "operations performed", "call": "calls of given functions", "dispatch": "calls", "dyn": "writes", "pipe": "stages of the pipeline"}.get(ch, ch))
            ob("trace " + ch, r)
            if ch == "dyn" and not r.ok:
                # the paths after writes under computed keys are only comparable when those writes are
                for o in late:
                    if o.res.k == NE_:
                        o.res = Res(UNK_, o.res.why)
        # a write that is missing, with everything else as it should be, was not put in another form
        odd = [o for o in obs if not o.res.ok]
        if len(odd) == 1 and odd[0].name == "trace dyn" and odd[0].res.k == UNK_ and ": missing " in odd[0].res.why:
            odd[0].res = Res(NE_, odd[0].res.why)
    except TooBig:
        ob("analysis", Res(UNK_, "condition too large"))
    except Budget:
        ob("analysis", Res(UNK_, "time budget"))
    except TooDeep:
        ob("analysis", Res(UNK_, "recurrence too deep"))
    except RecursionError:
        ob("analysis", Res(UNK_, "recursion"))
    return obs


def same_keys(P, Q, c, nm):
    """paths of the second side written as the equal paths of the first"""
    out = {}
    for k, v in Q.items():
        if k not in P and k[0] in ("I", "C"):
            for h in P:
                if h not in Q and h[0] == k[0] and all(c.eqv(nm(x), nm(y)).ok for x, y in zip(h[1:], k[1:])):
                    k = h
                    break
        out[k] = v
    return out


def note_path(k):
    """free-form remarks attached to a sampleset are not part of any result"""
    b = k[1]
    if k[0] == "A" and k[2] == "info":
        return True
    while b.op in ("attr", "item", "at"):
        if b.op == "attr" and b.a[1] == "info":
            return True
        b = b.a[0]
    return False


def covered(k, P, Q):
    """an ancestor of the path was replaced on one side only"""
    for side, other in ((P, Q), (Q, P)):
        b = k[1]
        while b.op in ("attr", "item"):
            pk = ("A", b.a[0], b.a[1]) if b.op == "attr" else ("I", b.a[0], b.a[1])
            if pk in side and pk not in other:
                return True
            b = b.a[0]
    if k[0] == "I":
        b = untouched(k[1])
        if b.op == "attr":
            x, y = (sum(k[2] in puts(v) for h, v in p.items() if h[0] == "A" and h[2] == b.a[1]) for p in (P, Q))
            return x != y
    return False


def untouched(t):
    while t.op in ("touched", "log"):
        t = t.a[0] if t.op == "touched" else t.a[1]
    return t


def puts(t):
    """constant keys under which a container is put"""
    if t is not None and t.op == "phi":
        return puts(t.a[1]) | puts(t.a[2])
    if t is None or t.op != "log":
        return set()
    return {o.a[0] for u in t.a[2] for o in subterms(u) if o.op == "set" and isconst(o.a[0])}


def replaced(k, P, Q):
    """a part of the container is replaced on one side and changed in place on the other"""
    x, y = puts(P.get(k)), puts(Q.get(k))
    one = x ^ y
    return bool(one) and any(h[0] == "I" and h[2] in one and untouched(h[1]).op == "attr" and untouched(h[1]).a[1] == k[2] for h in set(P) | set(Q))


def rule_allow(rule):
    return getattr(rule, "allow", ())


def objs_in(t):
    if "obj" not in ops_of(t):
        return set()
    return {x for x in subterms(t) if x.op == "obj"}


def run_rule_safe(repo, specs, rule, stats=None, prop=None):
    """one rule, with the differences that a known finding describes marked; an unexpected construct gives no verdict"""
    try:
        if rule.custom is not None:
            return rule.custom(repo, rule, stats)
        obs = run_rule(repo, specs, rule, stats)
        if rule.finding and any(o.res.k == NE_ for o in obs):
            alt = copy.copy(rule)
            alt.spec, alt.finding = rule.finding, None
            other = {o.name: o.res for o in run_rule(repo, specs, alt)}
            for o in obs:
                r = other.get(o.name)
                if o.res.k == NE_ and r is not None:
                    o.finding = r.ok
                    if r.k == UNK_:
                        o.res = Res(UNK_, r.why)
        return obs
    except Exception as e:          # no verdict from a construct the analysis does not handle
        return [Ob(rule.rid, "analysis", Res(UNK_, f"{type(e).__name__}: {e}"), rule.target)]
