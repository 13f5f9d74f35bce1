"""Variants of a function: faults (mutants) and rewritings that keep its behaviour. Used by the sensitivity sweep only, never by a verdict."""
import ast
import copy

CMP = {ast.Lt: (ast.LtE, ast.Gt), ast.LtE: (ast.Lt,), ast.Gt: (ast.GtE, ast.Lt), ast.GtE: (ast.Gt,), ast.Eq: (ast.NotEq,), ast.NotEq: (ast.Eq,), ast.In: (ast.NotIn,),
       ast.NotIn: (ast.In,), ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,)}
BIN = {ast.Add: (ast.Sub,), ast.Sub: (ast.Add,), ast.Mult: (ast.Add,), ast.Div: (ast.Mult,), ast.Pow: (ast.Mult,), ast.FloorDiv: (ast.Div,), ast.Mod: (ast.Mult,)}
NOISE = ("print", "warnings.warn", "logging", "TypeError", "ValueError", "super")


def noisy(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(NOISE)


def functions(tree):
    """(qualified name, node) of every function, methods by Class.method"""
    out = []

    def go(body, pre):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                out.append((pre + s.name, s))
            elif isinstance(s, ast.ClassDef):
                go(s.body, pre + s.name + ".")
    go(tree.body, "")
    return out


def walk(f):
    """nodes of the body of a function, without messages and docstrings"""
    def go(n):
        yield n
        for name, v in ast.iter_fields(n):
            if name in ("annotation", "returns", "decorator_list"):
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST) and not noisy(x) and not isinstance(x, (ast.Raise, ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)) \
                        and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                    yield from go(x)
    for s in f.body:
        if not noisy(s) and not isinstance(s, ast.Raise) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            yield from go(s)
    for d in f.args.defaults + [d for d in f.args.kw_defaults if d is not None]:
        yield from go(d)


def bodies(f):
    """lists of statements"""
    for n in ast.walk(f):
        for a in ("body", "orelse", "finalbody"):
            b = getattr(n, a, None)
            if isinstance(b, list) and b:
                yield b


def names(n, ctx=ast.Load):
    bound = set()
    for x in ast.walk(n):
        if isinstance(x, ast.comprehension):
            bound |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        elif isinstance(x, ast.Lambda):
            bound |= {a.arg for a in x.args.args}
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)} - bound


def local_names(f):
    out = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    for a in (f.args.vararg, f.args.kwarg):
        if a is not None:
            out.add(a.arg)
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, ast.FunctionDef) and x is not f:
            out.add(x.name)
    return out


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


# ------------------------------------------------------------------ faults
def faults(f):
    """[(kind, line, apply)] where apply edits the given copy of f in place; nodes are addressed by their position in walk()"""
    out = []
    nodes = list(walk(f))
    for i, n in enumerate(nodes):
        ln = getattr(n, "lineno", f.lineno)

        def at(fn, i=i):
            return lambda g: fn(list(walk(g))[i])
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), ()):
                out.append(("cmp", ln, at(lambda m, op=op: m.ops.__setitem__(0, op()))))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            if isinstance(n, ast.BinOp) and (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.op, (ast.RShift, ast.BitOr))):
                continue
            for op in BIN.get(type(n.op), ()):
                out.append(("arith", ln, at(lambda m, op=op: setattr(m, "op", op()))))
        elif isinstance(n, ast.BoolOp):
            out.append(("boolop", ln, at(lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))))
            for k in range(len(n.values)):
                out.append(("dropop", ln, at(lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else m.values.__setitem__(k, copy.deepcopy(m.values[1 - k])))))
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                out.append(("not", ln, at(lambda m: (setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))))
            elif isinstance(n.op, ast.USub):
                out.append(("neg", ln, at(lambda m: setattr(m, "op", ast.UAdd()))))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append(("bool", ln, at(lambda m: setattr(m, "value", not m.value))))
            elif isinstance(n.value, (int, float)):
                out.append(("const", ln, at(lambda m: setattr(m, "value", m.value + 1))))
            elif isinstance(n.value, str):
                out.append(("str", ln, at(lambda m: setattr(m, "value", m.value + "_x"))))
            elif n.value is None:
                out.append(("none", ln, at(lambda m: setattr(m, "value", 0))))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append(("negate", ln, at(lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))))
            if not isinstance(n, ast.While):
                out.append(("always", ln, at(lambda m: setattr(m, "test", ast.Constant(True)))))
                out.append(("never", ln, at(lambda m: setattr(m, "test", ast.Constant(False)))))
        elif isinstance(n, ast.Continue):
            pass
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and ast.dump(n.args[0]) != ast.dump(n.args[1]):
                out.append(("swapargs", ln, at(lambda m: m.args.reverse())))
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    out.append(("dropkw", ln, at(lambda m, k=k: m.keywords.pop(k))))
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "any", "all", "sorted", "list", "set", "abs", "int"):
                alt = {"min": "max", "max": "min", "any": "all", "all": "any", "sorted": "list", "abs": "float", "int": "float"}.get(n.func.id)
                if alt:
                    out.append(("fn", ln, at(lambda m, alt=alt: setattr(m.func, "id", alt))))
            if isinstance(n.func, ast.Name) and n.func.id == "range":
                out.append(("range", ln, at(lambda m: m.args.__setitem__(-1, ast.BinOp(m.args[-1], ast.Sub(), ast.Constant(1))))))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy") or isinstance(n.func, ast.Attribute) and ast.unparse(n.func) in ("copy.copy", "copy.deepcopy"):
                out.append(("nocopy", ln, at(nocopy)))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append(("slice", ln, at(lambda m: setattr(m.slice, "lower", ast.BinOp(m.slice.lower or ast.Constant(0), ast.Add(), ast.Constant(1))))))
        elif isinstance(n, ast.comprehension) and n.ifs:
            out.append(("nofilter", ln, at(lambda m: m.ifs.pop())))
        elif isinstance(n, ast.DictComp) or isinstance(n, ast.Dict) and len(n.keys) > 1:
            if isinstance(n, ast.Dict):
                out.append(("dictkey", ln, at(lambda m: (m.keys.pop(), m.values.pop()))))
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load) and n.attr.startswith("_variables_"):
            out.append(("sibling", ln, at(lambda m: setattr(m, "attr", "_variables_2" if m.attr.endswith("1") else "_variables_1"))))
    # statements
    for bi, b in enumerate(bodies(f)):
        for k, s in enumerate(b):
            if is_doc(s) or noisy(s) or isinstance(s, ast.Pass):
                continue

            def ed(fn, bi=bi):
                return lambda g: fn(list(bodies(g))[bi])
            out.append(("delete", s.lineno, ed(lambda c, k=k: c.__setitem__(k, ast.Pass()))))
            if k + 1 < len(b) and not isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)) and not is_doc(b[k + 1]):
                out.append(("swap", s.lineno, ed(lambda c, k=k: c.__setitem__(slice(k, k + 2), [c[k + 1], c[k]]))))
            if isinstance(s, ast.Continue):
                out.append(("break", s.lineno, ed(lambda c, k=k: c.__setitem__(k, ast.Break()))))
            if isinstance(s, ast.Break):
                out.append(("continue", s.lineno, ed(lambda c, k=k: c.__setitem__(k, ast.Continue()))))
            if isinstance(s, (ast.For,)) and not any(isinstance(x, ast.Return) for x in s.body):
                out.append(("loopbreak", s.lineno, ed(lambda c, k=k: c[k].body.append(ast.Break()))))
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute):
                pass
    # names
    loc = sorted(local_names(f) - {"self"})
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc:
            j = loc.index(n.id)
            for other in {loc[(j + 1) % len(loc)], loc[(j + len(loc) // 2) % len(loc)]} - {n.id}:
                out.append(("name", n.lineno, lambda g, i=i, other=other: setattr(list(walk(g))[i], "id", other)))
    return out


def nocopy(m):
    """copy.copy(x) and x.copy() without the copy"""
    a = m.args[0] if m.args else m.func.value
    m.func, m.args, m.keywords = ast.Name("_same", ast.Load()), [a], []


# ------------------------------------------------------------------ rewritings that keep the behaviour
def pure(n):
    """no call, no subscript that could raise earlier: may be moved"""
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr, ast.Subscript, ast.Starred, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(n))


def leaves(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def has(n, *kinds):
    st = [n] if not isinstance(n, list) else list(n)
    while st:
        x = st.pop()
        if isinstance(x, kinds):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


def rewrites(f, cls=None):
    """[(kind, line, apply)]; apply(g, siblings) edits a copy of f and may add functions to the list of statements that holds it"""
    out = []
    loc = local_names(f)
    method = cls is not None and f.args.args and f.args.args[0].arg in ("self", "cls") and not any(ast.unparse(d) == "staticmethod" for d in f.decorator_list)
    allbodies = list(bodies(f))
    for bi, b in enumerate(allbodies):
        infun = b is f.body

        def ed(fn, bi=bi):
            return lambda g, sib: fn(list(bodies(g))[bi], sib)
        for k, s in enumerate(b):
            if is_doc(s):
                continue
            ln = s.lineno
            if isinstance(s, ast.If):
                if s.orelse:
                    out.append(("swapbranches", ln, ed(lambda c, sib, k=k: swapif(c[k]))))
                    if leaves(s.body) and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and False):
                        out.append(("flatten", ln, ed(lambda c, sib, k=k: flatten(c, k))))
                elif leaves(s.body) and k + 1 < len(b):
                    out.append(("elseafter", ln, ed(lambda c, sib, k=k: elseafter(c, k))))
                if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                    out.append(("nestif", ln, ed(lambda c, sib, k=k: nestif(c[k]))))
                if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and not s.orelse:
                    out.append(("splitor", ln, ed(lambda c, sib, k=k: splitor(c, k)) if leaves(s.body) else None))
                out.append(("hoisttest", ln, ed(lambda c, sib, k=k: hoisttest(c, k))))
                if len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in s.body + s.orelse) \
                        and s.body[0].targets[0].id == s.orelse[0].targets[0].id:
                    out.append(("ternary", ln, ed(lambda c, sib, k=k: ternary(c, k))))
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant):
                out.append(("namereturn", ln, ed(lambda c, sib, k=k: namereturn(c, k))))
            if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and not isinstance(s.value, (ast.List, ast.ListComp)):
                out.append(("unaug", ln, ed(lambda c, sib, k=k: unaug(c, k))))
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                out.append(("unlistcomp", ln, ed(lambda c, sib, k=k: unlistcomp(c, k))))
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.DictComp) and len(s.value.generators) == 1:
                out.append(("undictcomp", ln, ed(lambda c, sib, k=k: undictcomp(c, k))))
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                out.append(("unternary", ln, ed(lambda c, sib, k=k: unternary(c, k))))
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple):
                pass
            if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)) \
                    and not has(s.value, ast.Yield, ast.YieldFrom) and "super()" not in ast.unparse(s.value):
                ps = sorted(names(s.value) & loc - {"self"})
                if method and f.args.args[0].arg == "self":
                    out.append(("extractexpr", ln, ed(lambda c, sib, k=k, ps=ps: extractexpr(c, k, sib, ps))))
                out.append(("innerexpr", ln, ed(lambda c, sib, k=k, ps=ps: innerexpr(c, k, ps))))
            if isinstance(s, ast.For) and not s.orelse:
                if ast.unparse(s.iter).endswith(".items()") and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name) \
                        and pure(s.iter.func.value):
                    out.append(("itemsbykey", ln, ed(lambda c, sib, k=k: itemsbykey(c[k]))))
                if isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "enumerate" and isinstance(s.target, ast.Tuple) and isinstance(s.iter.args[0], ast.Name) and len(s.iter.args) == 1:
                    out.append(("unenumerate", ln, ed(lambda c, sib, k=k: unenumerate(c[k]))))
                if isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "range" and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and not has(s.body, ast.Continue):
                    out.append(("whileloop", ln, ed(lambda c, sib, k=k: whileloop(c, k))))
                if len(s.body) > 1 or not isinstance(s.body[0], ast.If):
                    out.append(("listloop", ln, ed(lambda c, sib, k=k: setattr(c[k], "iter", ast.Call(ast.Name("list", ast.Load()), [c[k].iter], [])))))
                if not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                    out.append(("guardcontinue", ln, ed(lambda c, sib, k=k: guardcontinue(c[k]))))
                if len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) \
                        and s.body[0].value.func.attr == "append" and isinstance(s.body[0].value.func.value, ast.Name):
                    out.append(("extendcomp", ln, ed(lambda c, sib, k=k: extendcomp(c, k))))
            if isinstance(s, (ast.If, ast.For)) and method and f.args.args[0].arg == "self" and not has(s.body, ast.Return, ast.Yield, ast.Break, ast.Continue, ast.YieldFrom):
                w = set().union(*[names(x, ast.Store) for x in s.body]) if s.body else set()
                if not w:
                    ps = sorted(set().union(*[names(x) for x in s.body]) & loc - {"self"})
                    out.append(("extractblock", ln, ed(lambda c, sib, k=k, ps=ps: extractblock(c[k], sib, ps))))
            # neighbours that do not touch each other
            if k + 1 < len(b) and movable(s) and movable(b[k + 1]):
                n1, n2 = b[k], b[k + 1]
                w1, w2 = targets(n1), targets(n2)
                if not (w1 & (reads_of(n2) | w2)) and not (w2 & reads_of(n1)):
                    out.append(("reorder", ln, ed(lambda c, sib, k=k: c.__setitem__(slice(k, k + 2), [c[k + 1], c[k]]))))
            # nothing done
            if infun:
                out.append(("noop", ln, ed(lambda c, sib, k=k: c.insert(k, ast.parse("_unused = None").body[0]))))
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return, ast.AugAssign)) and s.value is not None:
                a = first_sub(s)
                if a:
                    out.append(("hoist", ln, ed(lambda c, sib, k=k: hoist(c, k))))
    # expressions
    for i, n in enumerate(ast.walk(f)):
        def at(fn, i=i):
            return lambda g, sib: fn(list(ast.walk(g))[i])
        ln = getattr(n, "lineno", f.lineno)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq)):
                out.append(("mirror", ln, at(mirror)))
            out.append(("negneg", ln, at(negneg)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and False:
            pass
        elif isinstance(n, ast.JoinedStr) and not has(n, ast.FormattedValue) is None:
            pass
    # names and signature-preserving wrapping
    loc = loc - {x.name for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
    for v in sorted(loc - {a.arg for a in f.args.args + f.args.kwonlyargs} - ({f.args.vararg.arg} if f.args.vararg else set()) - ({f.args.kwarg.arg} if f.args.kwarg else set())):
        out.append(("rename", f.lineno, lambda g, sib, v=v: rename(g, v, v + "_renamed")))
    if method and not f.name.startswith("__") and f.args.vararg is None and not f.decorator_list and not has(f.body, ast.Yield, ast.YieldFrom) and "super()" not in ast.unparse(f):
        out.append(("wrap", f.lineno, lambda g, sib: wrap(g, sib)))
    # containers under a second name
    if method and not f.name.startswith("__"):
        attrs = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load)}
        stored = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and not isinstance(x.ctx, ast.Load)}
        calls = {x.func.attr for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self"}
        if not calls:
            for a in sorted(attrs - stored):
                out.append(("alias", f.lineno, lambda g, sib, a=a: alias(g, a)))
    return [o for o in out if o[2] is not None]


def targets(s):
    out = set()
    for t in s.targets:
        out.add(ast.unparse(t))
    return out


def movable(s):
    return isinstance(s, ast.Assign) and all(isinstance(t, (ast.Name, ast.Attribute)) for t in s.targets) and pure(s.value)


def reads_of(s):
    return {ast.unparse(x) for x in ast.walk(s.value) if isinstance(x, (ast.Name, ast.Attribute))}


def neg(t):
    return t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)


def swapif(s):
    s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body


def flatten(c, k):
    rest = c[k].orelse
    c[k].orelse = []
    c[k + 1:k + 1] = rest


def elseafter(c, k):
    c[k].orelse = c[k + 1:]
    del c[k + 1:]


def nestif(s):
    vs = s.test.values
    s.test, s.body = vs[0], [ast.If(vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]), s.body, [])]


def splitor(c, k):
    s = c[k]
    c[k:k + 1] = [ast.If(v, copy.deepcopy(s.body), []) for v in s.test.values]


def hoisttest(c, k):
    c.insert(k, ast.Assign([ast.Name("_cond", ast.Store())], c[k].test, lineno=1))
    c[k + 1].test = ast.Name("_cond", ast.Load())


def ternary(c, k):
    s = c[k]
    c[k] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value), lineno=1)


def unternary(c, k):
    s = c[k]
    c[k] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body, lineno=1)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse, lineno=1)])


def namereturn(c, k):
    v = c[k].value
    c[k:k + 1] = [ast.Assign([ast.Name("_result", ast.Store())], v, lineno=1), ast.Return(ast.Name("_result", ast.Load()))]


def unaug(c, k):
    s = c[k]
    t = copy.deepcopy(s.target)
    t.ctx = ast.Load()
    c[k] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value), lineno=1)


def unlistcomp(c, k):
    s = c[k]
    t, g = s.targets[0].id, s.value.generators[0]
    body = ast.Expr(ast.Call(ast.Attribute(ast.Name("_acc", ast.Load()), "append", ast.Load()), [s.value.elt], []))
    for x in reversed(g.ifs):
        body = ast.If(x, [body], [])
    c[k:k + 1] = [ast.Assign([ast.Name("_acc", ast.Store())], ast.List([], ast.Load()), lineno=1), ast.For(g.target, g.iter, [body], [], lineno=1),
                  ast.Assign([ast.Name(t, ast.Store())], ast.Name("_acc", ast.Load()), lineno=1)]


def undictcomp(c, k):
    s = c[k]
    t, g = s.targets[0].id, s.value.generators[0]
    body = ast.Assign([ast.Subscript(ast.Name("_acc", ast.Load()), s.value.key, ast.Store())], s.value.value, lineno=1)
    for x in reversed(g.ifs):
        body = ast.If(x, [body], [])
    c[k:k + 1] = [ast.Assign([ast.Name("_acc", ast.Store())], ast.Dict([], []), lineno=1), ast.For(g.target, g.iter, [body], [], lineno=1),
                  ast.Assign([ast.Name(t, ast.Store())], ast.Name("_acc", ast.Load()), lineno=1)]


def mkfunc(name, params, body):
    return ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[],
                           lineno=1, type_params=[])


def extractexpr(c, k, sib, ps):
    s = c[k]
    sib.append(mkfunc("_extracted", ["self"] + ps, [ast.Return(s.value)]))
    s.value = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_extracted", ast.Load()), [ast.Name(p, ast.Load()) for p in ps], [])


def innerexpr(c, k, ps):
    s = c[k]
    c.insert(k, mkfunc("_inner", ps, [ast.Return(s.value)]))
    s.value = ast.Call(ast.Name("_inner", ast.Load()), [ast.Name(p, ast.Load()) for p in ps], [])


def extractblock(s, sib, ps):
    sib.append(mkfunc("_extracted", ["self"] + ps, s.body))
    s.body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_extracted", ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))]


def itemsbykey(s):
    d = s.iter.func.value
    key = s.target.elts[0].id
    s.body.insert(0, ast.Assign([s.target.elts[1]], ast.Subscript(copy.deepcopy(d), ast.Name(key, ast.Load()), ast.Load()), lineno=1))
    s.target = ast.Name(key, ast.Store())
    s.iter = d


def unenumerate(s):
    i, x = s.target.elts
    seq = s.iter.args[0]
    s.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(seq), ast.Name(i.id, ast.Load()), ast.Load()), lineno=1))
    s.target = i
    s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [seq], [])], [])


def whileloop(c, k):
    s = c[k]
    i = s.target.id
    c[k:k + 1] = [ast.Assign([ast.Name("_cnt", ast.Store())], ast.Constant(0), lineno=1),
                  ast.While(ast.Compare(ast.Name("_cnt", ast.Load()), [ast.Lt()], [s.iter.args[0]]),
                            [ast.Assign([ast.Name(i, ast.Store())], ast.Name("_cnt", ast.Load()), lineno=1)] + s.body
                            + [ast.AugAssign(ast.Name("_cnt", ast.Store()), ast.Add(), ast.Constant(1))], [])]


def guardcontinue(s):
    i = s.body[0]
    s.body = [ast.If(neg(i.test), [ast.Continue()], [])] + i.body


def extendcomp(c, k):
    s = c[k]
    e = s.body[0].value
    c[k] = ast.Expr(ast.Call(ast.Attribute(e.func.value, "extend", ast.Load()), [ast.ListComp(e.args[0], [ast.comprehension(s.target, s.iter, [], 0)])], []))


def first_sub(s):
    """first argument of the call the statement evaluates, when it is evaluated first"""
    v = s.value
    if isinstance(v, ast.Call) and v.args and not isinstance(v.args[0], (ast.Constant, ast.Name, ast.Starred, ast.GeneratorExp)) and pure(v.func) and "super()" not in ast.unparse(v):
        return v
    return None


def hoist(c, k):
    v = first_sub(c[k])
    c.insert(k, ast.Assign([ast.Name("_arg", ast.Store())], v.args[0], lineno=1))
    v.args[0] = ast.Name("_arg", ast.Load())


def mirror(n):
    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    n.left, n.comparators[0], n.ops[0] = n.comparators[0], n.left, sw[type(n.ops[0])]()


def negneg(n):
    inner = ast.Compare(n.left, [CMPNEG[type(n.ops[0])]()], n.comparators)
    n.left, n.ops, n.comparators = ast.UnaryOp(ast.Not(), inner), [ast.Is()], [ast.Constant(True)]


CMPNEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
          ast.IsNot: ast.Is}


def rename(g, v, w):
    for x in ast.walk(g):
        if isinstance(x, ast.Name) and x.id == v:
            x.id = w
        elif isinstance(x, ast.ExceptHandler) and x.name == v:
            x.name = w


def wrap(g, sib):
    h = copy.deepcopy(g)
    h.name = "_impl"
    h.args.defaults, h.args.kw_defaults = [], [None] * len(h.args.kw_defaults)
    sib.append(h)
    a = g.args
    g.body = [ast.Return(ast.Call(ast.Attribute(ast.Name(a.args[0].arg, ast.Load()), "_impl", ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]],
                                  [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else [])))]


def alias(g, a):
    for x in ast.walk(g):
        for name, v in ast.iter_fields(x):
            if isinstance(v, ast.Attribute) and v.attr == a and isinstance(v.value, ast.Name) and v.value.id == "self":
                setattr(x, name, ast.Name("_alias", v.ctx))
            elif isinstance(v, list):
                for i, y in enumerate(v):
                    if isinstance(y, ast.Attribute) and y.attr == a and isinstance(y.value, ast.Name) and y.value.id == "self":
                        v[i] = ast.Name("_alias", y.ctx)
    k = 1 if is_doc(g.body[0]) else 0
    g.body.insert(k, ast.Assign([ast.Name("_alias", ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load()), lineno=1))


# ------------------------------------------------------------------ variants of a module
def holder(tree, qual):
    """(list of statements holding the function, index, class or None)"""
    parts = qual.split(".")
    body, cls = tree.body, None
    for p in parts[:-1]:
        cls = next(s for s in body if isinstance(s, ast.ClassDef) and s.name == p)
        body = cls.body
    for i, s in enumerate(body):
        if isinstance(s, ast.FunctionDef) and s.name == parts[-1]:
            return body, i, cls
    raise KeyError(qual)


def variants(src, qual, what):
    """[(kind, line, source of the module)] for one function; what: 'fault' or 'same'"""
    tree = ast.parse(src)
    body, i, cls = holder(tree, qual)
    f = body[i]
    out = []
    base = ast.unparse(tree)
    for v in faults(f) if what == "fault" else rewrites(f, cls):
        t = copy.deepcopy(tree)
        b, j, c = holder(t, qual)
        try:
            if what == "fault":
                v[2](b[j])
            else:
                v[2](b[j], b)
            ast.fix_missing_locations(t)
            s = ast.unparse(t)
            ast.parse(s)
        except (SyntaxError, KeyError, AttributeError, IndexError, TypeError, ValueError):
            continue
        if s != base:
            out.append((v[0], v[1], s))
    return out
