"""Effect rules: conditions on what a function may read or change and in which order, decided from the events of its summary."""
import ast

from .terms import *
from .cmp import Res, NE_, OK, UNK_, is_unknown, short, both
from .interp import SELF
from .side import KNOWN_ATTR, IGNORE_ATTR
from .load import AnalysisBroken


def summary(repo, rule, stats):
    from .rules import analyse, target_func
    func, cls = target_func(repo, rule.target)
    s = analyse(repo, rule, func, cls, rule.inline)
    if stats is not None:
        stats["functions"] |= {f"{f.mod.rel}:{f.qual}" for f in s.interp.visited}
        stats["events"] += len(s.events)
    return func, s


def line(e):
    return f"{e.loc[0]}:{e.loc[1]} ({e.loc[2]})"


def feasible(c):
    try:
        return sat(c, limit=20000) is not None
    except TooBig:
        return None


def reads(attr):
    """the operation consults an attribute of the model, directly or in a function it calls"""
    def rule(repo, rule, stats):
        from .rules import Ob
        func, s = summary(repo, rule, stats)
        hit = any(isinstance(n, ast.Attribute) and n.attr in (attr, "get" + attr) for f in s.interp.visited for n in ast.walk(f.node))
        o = Ob(rule.rid, func.qual, OK if hit else Res(NE_, f"{func.qual} never consults {attr}"), f"{func.mod.rel}:{func.node.lineno} ({func.qual})")
        o.finding = not hit
        return [o]
    return rule


# ------------------------------------------------------------------ a rejected operation changes nothing
def changed(it, v, init, depth=0, seen=frozenset()):
    """condition under which a value differs from the initial one; None if not known"""
    if v is init:
        return FALSE
    if depth > 40:
        return None
    if v.op == "phi":
        a, b = changed(it, v.a[1], init, depth + 1, seen), changed(it, v.a[2], init, depth + 1, seen)
        if a is None or b is None:
            return None
        return OR(AND(v.a[0], a), AND(NOT(v.a[0]), b))
    if v.op == "log":
        a = changed(it, v.a[1], init, depth + 1, seen)
        b = ops_changed(v.a[2])
        return OR(a, b) if a is not None and b is not None else None
    if v.op in ("partial", "opq", "unset"):
        return None
    if v.op in ("mu", "out") and v.a in it.rec and v.a not in seen:
        L = v.a[0]
        ini, step, guard = it.rec[v.a]
        X = mk("mu", *v.a)
        a, b = changed(it, ini, init, depth + 1, seen | {v.a}), changed(it, step, X, depth + 1, seen | {v.a})
        if a is None or b is None:
            return None
        b = AND(guard, b)
        if v.op == "out":
            return OR(a, anyiter(L, b)) if b is not FALSE else a
        return OR(a, subst(b, {L: mk("L", mk("tmpdom", "earlier", L.a[0]), L.a[1])}))
    return TRUE


def known(t):
    """no operator without a fixed meaning, recurrences apart"""
    return not any(is_unknown(x) and x.op not in ("mu", "out") for x in subterms(t))


def ops_changed(ops):
    out = []
    for o in ops:
        if o.op == "if":
            out += [AND(o.a[0], ops_changed(o.a[1])), AND(NOT(o.a[0]), ops_changed(o.a[2]))]
        elif o.op == "each":
            if ops_changed(o.a[2]) is not FALSE:
                out.append(anyiter(o.a[0], o.a[1]))
        else:
            out.append(TRUE)
    return OR(*out)


def rooted(t):
    """attribute of the receiver that a term is a part of"""
    while t.op in ("item", "attr", "at"):
        if t.op == "attr" and t.a[0] is SELF:
            return t.a[1]
        t = t.a[0]
    return None


def of_self(t):
    """the receiver or a part of it"""
    while t.op in ("item", "attr", "at", "mu", "out", "L", "idx", "with"):
        t = t.a[0] if isinstance(t.a[0], T) else SELF
    return t is SELF or t.op == "obj"


def atomic(repo, rule, stats):
    """at every raise the receiver is as it was at the start"""
    from .rules import Ob
    func, s = summary(repo, rule, stats)
    it = s.interp
    obs = []
    for e in s.events:
        if e.kind != "raise" or any(c[0] == "handler" for c in e.ctx):
            continue
        res = []
        for loc, v in e.m.items():
            if loc[0] == "A" and loc[1] is SELF and loc[2] in KNOWN_ATTR and loc[2] not in IGNORE_ATTR and not (func.name == "__init__"):
                what, init = f"self.{loc[2]}", mk("attr", SELF, loc[2])
            elif loc[0] == "C" and loc[1].op != "trace" and rooted(loc[1]) in KNOWN_ATTR and rooted(loc[1]) not in IGNORE_ATTR:
                what, init = short(loc[1], 60), loc[1]
            else:
                continue
            c = changed(it, v, init)
            if c is None:
                res.append(Res(UNK_, f"{what}: value at the raise is not known"))
                continue
            if c is FALSE:
                continue
            f = feasible(AND(e.guard, e.valid, c))
            if f is None or f and not (known(c) and known(e.guard)):
                res.append(Res(UNK_, f"{what}: condition not decided"))
            elif f:
                res.append(Res(NE_, f"{what} has already been changed when the operation raises at {line(e)} under {short(e.guard, 200)}"))
        obs.append(Ob(rule.rid, f"raise {len(obs)}", both(res), line(e)))
    if not obs:
        obs.append(Ob(rule.rid, "no raise", OK, f"{func.mod.rel}:{func.node.lineno} ({func.qual})"))
    return obs


# ------------------------------------------------------------------ requests are rejected before any work
WORK = {"ext", "api", "mcall", "call"}
NOWORK = ("print", "logging.", "warnings.", "isinstance", "len", "TypeError", "ValueError", "time.", "os.path.")


def depends_on_work(c):
    return any(x.op in ("call", "mcall", "api", "callv", "with") for x in subterms(c))


def gated(repo, rule, stats):
    """a raise that depends on the arguments only is not preceded by any work"""
    from .rules import Ob
    func, s = summary(repo, rule, stats)
    obs = []
    for e in s.events:
        if e.kind != "raise":
            continue
        if depends_on_work(e.guard):
            continue
        r = OK
        for w in s.events:
            if w.seq >= e.seq or w.kind not in WORK:
                continue
            name = w.meth if w.kind in ("api", "mcall") else str(w.obj.a[0]) if w.obj is not None and w.obj.op in ("g", "ext") else short(w.obj, 60)
            if w.kind == "ext" and (name.startswith(NOWORK) or name.split(".")[-1].endswith(("Error", "Exception"))):
                continue
            if w.kind == "mcall" and name in ("keys", "items", "values", "get", "format", "join", "lower", "upper"):
                continue
            c = s.interp.rel(e.guard, w.guard)
            if not any(x.op == "p" for x in subterms(c)):
                continue        # not a check of the arguments
            f = feasible(AND(w.guard, e.guard))
            if f:
                r = Res(NE_, f"{w.kind} {name} at {line(w)} happens before the request is rejected at {line(e)} under {short(e.guard, 200)}")
                break
        obs.append(Ob(rule.rid, f"raise {len(obs)}", r, line(e)))
    if not obs:
        obs.append(Ob(rule.rid, "no raise", Res(UNK_, "no check on the arguments"), f"{func.mod.rel}:{func.node.lineno} ({func.qual})"))
    return obs


# ------------------------------------------------------------------ a failed conversion restores the model
RESTORED = ("_offset", "_interactions_array", "_interactions_attrs", "_interactions_length")


def restores(repo, rule, stats):
    """constraints merged into the model for the conversion do not stay when it fails"""
    from .rules import Ob
    func, s = summary(repo, rule, stats)
    obs = []
    for e in s.events:
        if e.kind != "api" or e.obj is not SELF or e.meth != "LogicalModel.merge":
            continue
        r = OK
        trys = [t for t in e.trys if t.handlers]
        if not e.trys:
            r = Res(NE_, f"the model is changed at {line(e)} and an error in the rest of the conversion leaves it changed")
        elif not trys:
            r = Res(UNK_, "restored in a finally clause")
        else:
            T_ = trys[0].T
            raises = [x for x in s.events if x.kind == "raise" and ("handler", T_) in x.ctx]
            if not raises:
                r = Res(UNK_, "handler does not raise again")
            for x in raises:
                for a in RESTORED:
                    v = x.m.get(("A", SELF, a))
                    if v is None or v is mk("attr", SELF, a):
                        continue
                    v = s.interp.snap(v, x.m)
                    if v.op == "partial":
                        r = Res(NE_, f"self.{a} is not restored by the handler at {line(x)}")
                        break
                    if v is not mk("attr", SELF, a):
                        r = both([r, Res(UNK_, f"self.{a} restored from {short(v, 80)}")])
        obs.append(Ob(rule.rid, f"merge {len(obs)}", r, line(e)))
    if not obs:
        obs.append(Ob(rule.rid, "no merge", OK, f"{func.mod.rel}:{func.node.lineno} ({func.qual})"))
    return obs


# ------------------------------------------------------------------ the token stays secret
def secret(t):
    """the token itself, or text made of it (the result of a request made with it is not)"""
    if not isinstance(t, T):
        return isinstance(t, tuple) and any(secret(x) for x in t)
    if t.op in ("call", "mcall", "callv") and any(n in str(t.a[0]) + str(t.a[1] if len(t.a) > 1 else "") for n in ("requests", "urllib", "post")):
        return False
    if t.op == "attr" and t.a[1] == "_token" or t.op == "item" and t.a[1] is S("token"):
        return True
    return any(secret(x) for x in t.a)


def token(repo, rule, stats):
    """the token is not printed, logged, written or put in a message"""
    from .rules import Ob
    func, s = summary(repo, rule, stats)
    obs = []
    for e in s.events:
        if e.kind == "ext" and e.obj is not None:
            name = str(e.obj.a[0]) if e.obj.op in ("g", "ext") else short(e.obj, 60)
            bad = name.startswith(("print", "logging.", "warnings.", "sys.", "pprint", "traceback", "open", "os.")) and any(isinstance(a, T) and secret(e.snap(a)) for a in e.args or ())
            if name.startswith(("print", "logging.", "warnings.")) or bad:
                obs.append(Ob(rule.rid, f"output {len(obs)}", Res(NE_, f"the token is given to {name} at {line(e)}") if bad else OK, line(e)))
        elif e.kind == "raise" and isinstance(e.val, T):
            obs.append(Ob(rule.rid, f"output {len(obs)}", Res(NE_, f"the token is part of the exception raised at {line(e)}") if secret(e.snap(e.val)) else OK, line(e)))
    return obs or [Ob(rule.rid, "no output", OK, f"{func.mod.rel}:{func.node.lineno} ({func.qual})")]


# ------------------------------------------------------------------ state cells and stage labels of the pipelines
def cells(repo, rule, stats):
    """every state parameter of a stateful stage has a cell of its own"""
    from .rules import Ob, target_func
    func, cls = target_func(repo, rule.target)
    where = f"{func.mod.rel}:{func.node.lineno} ({func.qual})"
    if stats is not None:
        stats["functions"].add(f"{func.mod.rel}:{func.qual}")
    a = func.node.args
    pos = a.posonlyargs + a.args
    dfl = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    obs, names, specs = [], {}, {}
    for p, d in dfl:
        if not (isinstance(d, ast.Call) and ast.unparse(d.func).endswith("StateParam") and len(d.args) == 1):
            continue
        spec = d.args[0]
        key = ast.unparse(spec)
        if isinstance(spec, ast.Name):
            spec = next((x.attrs[spec.id] for x in repo.mro(func.cls) if spec.id in x.attrs), None) or (func.mod.defs.get(spec.id, (None, None))[1])
        r = OK
        if not isinstance(spec, ast.Call):
            r = Res(UNK_, f"state of {p.arg} is {key}")
        else:
            nm = next((k.value for k in spec.keywords if k.arg == "name"), spec.args[0] if spec.args else None)
            nm = nm.value if isinstance(nm, ast.Constant) else ast.unparse(nm) if nm is not None else None
            if key in specs or nm in names:
                r = Res(NE_, f"{p.arg} shares its state cell {key} (name {nm!r}) with {specs.get(key) or names.get(nm)}")
            specs[key] = names[nm] = p.arg
        obs.append(Ob(rule.rid, f"cell of {p.arg}", r, where))
    return obs or [Ob(rule.rid, "cells", Res(UNK_, "no state parameters"), where)]


def labels(repo, rule, stats):
    """stages of one pipeline have different labels (the runner rejects duplicates)"""
    from .rules import Ob, target_func
    base, _ = target_func(repo, "AbstractAlgorithm._create_pipeline")
    obs = []

    def of(f):
        return [(n.left.value, f"{f.mod.rel}:{n.lineno}") for n in ast.walk(f.node)
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.RShift) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)]
    for c in ("Attenuation", "Delta", "Incremental", "Partial", "Window"):
        f, _ = target_func(repo, c + ".create_pipeline")
        seen, r = {}, OK
        # the two branches of a condition never build both stages
        excl = set()
        for g in (base, f):
            for n in ast.walk(g.node):
                if isinstance(n, (ast.If, ast.IfExp)):
                    parts = [n.body, n.orelse] if isinstance(n, ast.If) else [[n.body], [n.orelse]]
                    lb = [{m.lineno for st in p for m in ast.walk(st) if isinstance(m, ast.BinOp)} for p in parts]
                    excl |= {(x, y) for x in lb[0] for y in lb[1]} | {(y, x) for x in lb[0] for y in lb[1]}
        for lab, w in of(base) + of(f):
            if lab in seen and (int(seen[lab].rsplit(":", 1)[1]), int(w.rsplit(":", 1)[1])) not in excl:
                r = Res(NE_, f"label {lab!r} is used at {seen[lab]} and at {w}")
            seen.setdefault(lab, w)
        obs.append(Ob(rule.rid, c, r, f"{f.mod.rel}:{f.node.lineno} ({f.qual})"))
    return obs


# ------------------------------------------------------------------ the arguments stay as they are
def argument(t, names):
    """the argument that a term is, or is a part of"""
    while True:
        if t.op == "p":
            return t.a[0] if t.a[0] in names else None
        if t.op in ("item", "attr", "at", "touched", "get") and isinstance(t.a[0], T):
            t = t.a[0]
        elif t.op in ("k", "v", "el") and isinstance(t.a[0], T):
            t = t.a[0]
        else:
            return None


def param_names_of(func, but=()):
    a = func.node.args
    ns = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if not func.static and ns:
        ns = ns[1:]
    return [n for n in ns if n not in but]


def unchanged(repo, rule, stats):
    """no argument, nor any part of one, is written"""
    from .rules import Ob
    func, s = summary(repo, rule, stats)
    names = param_names_of(func, rule.skip)
    bad = {n: OK for n in names}
    for e in s.events:
        if e.obj is None or not isinstance(e.obj, T):
            continue
        if e.kind in ("setattr", "setitem", "mut", "delattr"):
            what = {"setattr": f"attribute {e.key} is set", "delattr": f"attribute {e.key} is deleted", "setitem": "an entry is set", "mut": f"{e.meth} is called"}[e.kind]
        elif e.kind == "api" and s.interp.api_table().get(e.meth):
            what = f"{e.meth} is called"
        else:
            continue
        n = argument(e.obj, names)
        if n is None or not bad[n].ok or e.kind in ("setattr", "delattr") and e.key in IGNORE_ATTR:
            continue
        f = feasible(AND(e.guard, e.valid))
        if f is None:
            bad[n] = Res(UNK_, "condition too large")
        elif f:
            bad[n] = Res(NE_, f"argument {n} is changed at {line(e)}: {what} on {short(e.obj, 80)}" + (f" when {short(e.guard, 160)}" if e.guard is not TRUE else ""))
    return [Ob(rule.rid, f"argument {n}", r, f"{func.mod.rel}:{func.node.lineno} ({func.qual})") for n, r in bad.items()] or [
        Ob(rule.rid, "no argument", OK, f"{func.mod.rel}:{func.node.lineno} ({func.qual})")]


# ------------------------------------------------------------------ stored containers belong to the object
def aliases(it, v, names, m, depth, cond_=TRUE, seen=frozenset()):
    """[(condition, argument, term)]: the value is a container of an argument, or (depth > 1) holds one"""
    if v in seen or len(seen) > 60:
        return []
    seen = seen | {v}
    if v.op == "phi":
        return aliases(it, v.a[1], names, m, depth, AND(cond_, v.a[0]), seen) + aliases(it, v.a[2], names, m, depth, AND(cond_, NOT(v.a[0])), seen)
    if v.op in ("mu", "out") and v.a in it.rec:
        ini, step, guard = it.rec[v.a]
        return aliases(it, ini, names, m, depth, cond_, seen) + aliases(it, step, names, m, depth, cond_, seen)
    n = argument(v, names)
    if n is not None:
        return [(cond_, n, v)]
    if v.op == "ref" or v.op == "log":
        o = it.objs.get(v, {})
        if depth < 2 or o.get("deep"):
            return []
        lg = it.content(v, m) if v.op == "ref" else v
        return alias_ops(it, lg, names, m, depth, cond_, seen)
    return []


def alias_ops(it, lg, names, m, depth, cond_, seen):
    out = []
    b = lg.a[1]
    if isinstance(b, T) and b is not EMPTY:
        n = argument(b, names)
        out += [(cond_, n, b)] if n is not None else []

    def go(ops, c):
        for o in ops:
            if o.op == "if":
                go(o.a[1], AND(c, o.a[0]))
                go(o.a[2], AND(c, NOT(o.a[0])))
            elif o.op == "each":
                go(o.a[2], AND(c, o.a[1]))
            elif o.op in ("set", "app", "add"):
                out.extend(aliases(it, o.a[-1], names, m, depth - 1, c, seen))
            elif o.op == "ext":
                n = argument(o.a[0], names)
                if n is not None:
                    out.append((c, n, o.a[0]))
    go(lg.a[2], cond_)
    return out


def owned(attrs):
    """attribute -> depth: the stored container (and at depth 2 the containers in it) is not one that the caller or the other model holds"""
    def f(repo, rule, stats):
        from .rules import Ob
        func, s = summary(repo, rule, stats)
        it = s.interp
        names = param_names_of(func, rule.skip)
        where = f"{func.mod.rel}:{func.node.lineno} ({func.qual})"
        obs = []
        m, valid = (s.end.m, s.end.valid) if s.end is not None else ({}, FALSE)
        for a, depth in attrs.items():
            r = OK
            hits = []
            v = m.get(("A", SELF, a))
            if v is not None:
                hits += aliases(it, v, names, m, depth)
            lg = m.get(("C", mk("attr", SELF, a)))
            if lg is not None and depth > 1:
                hits += alias_ops(it, lg, names, m, depth, TRUE, frozenset())
            for c, n, t in hits:
                f_ = feasible(AND(valid, c))
                if f_ is None:
                    r = both([r, Res(UNK_, "condition too large")])
                elif f_:
                    r = Res(NE_, f"self.{a} keeps {short(t, 80)}, a container of argument {n}, without copying it" + (f" when {short(c, 200)}" if c is not TRUE else ""))
                    break
            obs.append(Ob(rule.rid, a, r, where))
        return obs
    return f
