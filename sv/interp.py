"""Gated value-flow and effect analysis over the syntax tree.

Every function is summarised once, for all inputs: branches are joined with
gating terms (phi), loops are summarised by their domain and the recurrence of
the locations they change, and calls of functions of the repository are
inlined (except a small set of API operations that have rules of their own).
No path is enumerated and nothing is executed.
"""
import ast

from .terms import *
from .load import AnalysisBroken, Func, Class, Module

UNBOUND = mk("unbound")
SELF = mk("self")


class Ev:
    __slots__ = ("kind", "obj", "key", "val", "args", "kw", "guard", "valid", "loops", "trys", "seq", "loc", "m", "aug", "meth", "ctx", "interp")

    def __repr__(self):
        bits = [self.kind]
        for n in ("obj", "meth", "key", "val", "args", "kw"):
            v = getattr(self, n, None)
            if v not in (None, (), {}):
                bits.append(f"{n}={v!r}")
        return " ".join(bits) + f" guard={self.guard} loops={len(self.loops)} @{self.loc[0]}:{self.loc[1]}"

    @property
    def where(self):
        return f"{self.loc[0]}:{self.loc[1]} ({self.loc[2]})"

    def snap(self, t):
        """value of a term at the time of the event"""
        return self.interp.snap(t, self.m)


class St:
    __slots__ = ("m", "reach", "valid", "dead")

    def __init__(self, m, reach, valid):
        self.m, self.reach, self.valid, self.dead = m, reach, valid, False

    def copy(self):
        return St(dict(self.m), self.reach, self.valid)


class Frame:
    _n = 0

    def __init__(self, func, mod, cls, parent=None):
        Frame._n += 1
        self.fid = Frame._n
        self.func, self.mod, self.cls, self.parent = func, mod, cls, parent
        self.returns = []
        self.loopctx = []
        self.yobj = None
        self.nonlocals = set()
        self.globals = set()
        self.selfT = None


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


class TryInfo:
    def __init__(self, T, node):
        self.T, self.node, self.handlers, self.events = T, node, [], []


# operations of the repository that are summarised by their own rules; value: attributes of the receiver they may change
ARR = ("_interactions_array", "_interactions_attrs", "_interactions_length")
API = {
    "LogicalModel.add_interaction": ARR, "LogicalModel.update_interaction": ARR, "LogicalModel.remove_interaction": ("_interactions_array",),
    "LogicalModel.merge": ARR + ("_variables", "_constraints", "_offset", "_deleted", "_fixed"),
    "LogicalModel.append": ("_variables",), "LogicalModel.variables": ("_variables",),
    "LogicalModel.to_ising": ARR + ("_mtype", "_variables", "_offset"), "LogicalModel.to_qubo": ARR + ("_mtype", "_variables", "_offset"),
    "LogicalModel.delete_variable": ARR + ("_deleted",), "LogicalModel.fix_variable": ARR + ("_fixed", "_offset"),
    "LogicalModel.add_constraint": ("_constraints",), "LogicalModel.remove_constraint": ("_constraints",),
    "LogicalModel.offset": ("_offset",), "LogicalModel.from_pyqubo": ARR + ("_offset",), "LogicalModel.to_physical": ARR,
    "PhysicalModel.to_bqm": (), "PhysicalModel.to_polynomial": (),
    "Functions._flatten": (), "Functions.elementwise_add": (), "Functions.elementwise_sub": (), "Functions.elementwise_max": (), "Functions.elementwise_min": (),
    "AbstractAlgorithm._create_pipeline": (),
    "NHotConstraint.to_model": (), "EqualityConstraint.to_model": (), "ZeroOrOneHotConstraint.to_model": (), "AbstractConstraint.to_model": (),
    "solve_npp_with_dp": (),
}

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "add", "update", "discard", "sort", "reverse", "popitem", "setdefault",
            "appendleft", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__", "move_to_end"}
PURE_METH = {"items", "keys", "values", "get", "index", "count", "copy", "union", "difference", "intersection", "format", "join", "split", "lower", "upper",
             "strip", "lstrip", "rstrip", "encode", "decode", "startswith", "endswith", "astype", "tolist", "to_list", "isoformat", "replace"}
FRESH_EXT = {"numpy.ones", "numpy.zeros", "numpy.array", "numpy.arange", "numpy.full", "numpy.empty", "numpy.asarray", "numpy.copy", "numpy.where"}
BUILTINS = {"len", "range", "list", "dict", "set", "tuple", "sorted", "sum", "any", "all", "min", "max", "zip", "enumerate", "map", "filter", "isinstance",
            "str", "int", "float", "bool", "abs", "getattr", "setattr", "hasattr", "print", "reversed", "id", "iter", "next", "type", "vars", "super", "repr",
            "round", "frozenset", "ValueError", "TypeError", "KeyError", "Exception", "NotImplementedError", "RuntimeError", "AssertionError", "IndexError",
            "object", "property", "staticmethod", "classmethod", "hash", "callable", "open", "divmod", "pow", "chr", "ord", "bytes", "issubclass", "delattr",
            "AttributeError", "StopIteration", "LookupError", "ArithmeticError", "ZeroDivisionError", "OverflowError", "OSError", "IOError", "UserWarning",
            "Warning", "DeprecationWarning", "BaseException", "format", "slice", "complex", "globals", "locals", "KeyboardInterrupt", "input", "NameError", "UnboundLocalError"}

G_ALIAS = {
    "pyqubo.core.Express": "pyqubo.Express", "pyqubo.core.Coefficient": "pyqubo.Coefficient", "pyqubo.core.Spin": "pyqubo.Spin", "pyqubo.core.Binary": "pyqubo.Binary",
    "numpy.NaN": "numpy.nan", "numpy.NAN": "numpy.nan", "apache_beam.transforms.window.SlidingWindows": "apache_beam.window.SlidingWindows",
    "apache_beam.transforms.window.FixedWindows": "apache_beam.window.FixedWindows", "apache_beam.transforms.window.GlobalWindows": "apache_beam.window.GlobalWindows",
    "apache_beam.transforms.window.TimestampedValue": "apache_beam.window.TimestampedValue",
    "apache_beam.transforms.combiners.ToListCombineFn": "apache_beam.combiners.ToListCombineFn",
    "collections.defaultdict": "collections.defaultdict",
    "copy.copy": "copy.copy", "time.monotonic": "time.perf_counter",
}


def locT(loc):
    if loc[0] == "V":
        return mk("locV", loc[1], loc[2])
    if loc[0] == "A":
        return mk("locA", loc[1], loc[2])
    return mk("locC", loc[1])


class Summary:
    pass


class InterpBase:
    MAXDEPTH = 24

    def __init__(self, repo, cls=None, types=None, kinds=None, opaque=None, inline=()):
        self.repo = repo
        self.cls = cls
        self.types = dict(types or {})          # term -> class name
        self.events = []
        self.quiet = 0
        self.loops = []
        self.trys = []
        self.ctx = []
        self.objs = {}
        self.ctor = {}
        self.children = {}
        self.owner = {}
        self.childof = {}                       # part of a deep copy -> (the copy, key, "item" or "attr")
        self.nref = 0
        self.closures = {}
        self.depth = 0
        self.raised = FALSE
        self.seq = 0
        self.tryinfo = {}
        self.bufs = {}              # in-memory files -> the buffer a compressed file writes to
        self.rec = {}                           # (L, locT) -> (init, step)
        self.notes = []
        self.callstack = []
        self.callsites = []
        self.inline_set = set(inline)
        self.noinit = set()
        self.rl_stack = []
        self.last_break = FALSE
        self.nlam = 0
        self.lamdepth = 0
        self.entry = None
        self.sites = {}
        self.unroll = []
        self.opaque = opaque
        self.constraint_cls = "AbstractConstraint"
        self.visited = set()
        self.unknown_calls = []
        KIND_PARAM.clear()
        KIND_TERM.clear()
        for k, v in (kinds or {}).items():
            if isinstance(k, T):
                KIND_TERM[k] = v
            else:
                KIND_PARAM[k] = v

    # ------------------------------------------------------------ objects, memory
    def new(self, kind, base=EMPTY, cls=None, deep=False):
        self.nref += 1
        r = mk("ref", self.nref)
        self.objs[r] = dict(kind=kind, base=base, cls=cls, deep=deep)
        return r

    def content(self, obj, m):
        c = m.get(("C", obj))
        if c is not None:
            return c
        if obj.op in ("trace", "touch"):
            return mk("log", "list", EMPTY, ())
        o = self.objs.get(obj)
        if o is not None:
            return mk("log", o["kind"], o["base"], ())
        return mk("log", kind(obj), obj, ())

    def pathof(self, obj):
        """a part of a deep copy written as a path from the copy"""
        c = self.childof.get(obj)
        if c is None:
            return obj
        return mk(c[2], self.pathof(c[0]), c[1])

    def rootof(self, obj):
        while obj in self.childof:
            obj = self.childof[obj][0]
        return obj

    def locfree(self, obj):
        """loops a location depends on"""
        return free(self.pathof(obj)) if obj in self.childof else free(obj)

    def logval(self, lg):
        if not lg.a[2] and lg.a[1] is not EMPTY:
            return lg.a[1]
        return lg

    def snap(self, t, m, seen=()):
        """replace container references by their current value"""
        if not has_op(t, "ref"):
            # containers with pending operations addressed by path
            c = m.get(("C", t))
            if c is not None and c.a[2]:
                return self.snap(self.logval(c), m, seen + (t,)) if t not in seen else t
            return t

        def f(x):
            if x.op == "ref":
                o = self.objs.get(x)
                if o is None or x in seen:
                    return None
                if o["cls"] is not None:
                    return None
                lv = self.logval(self.content(x, m))
                if lv is x:
                    return None
                return self.snap(lv, m, seen + (x,))
            return None
        r = mapterm(t, f, None, "ref")
        return r

    def read(self, st, loc):
        v = st.m.get(loc)
        if v is not None:
            return v
        if loc[0] == "V":
            return UNBOUND
        if loc[0] == "A":
            obj = loc[1]
            if obj.op == "ref" and obj in self.objs:
                o = self.objs[obj]
                if o["deep"]:
                    key = (obj, "." + loc[2])
                    if key not in self.children:
                        self.children[key] = self.new(None, self.attr0(o["base"], loc[2]), deep=True)
                        self.childof[self.children[key]] = (obj, loc[2], "attr")
                    return self.children[key]
                if o["base"] is not EMPTY and o["cls"] is None:
                    return self.attr0(o["base"], loc[2])
                if o["cls"] is not None:
                    return mk("unset", obj, loc[2])
            return self.attr0(obj, loc[2])
        return self.content(loc[1], st.m)

    def attr0(self, obj, name):
        return mk("attr", obj, name)

    # ------------------------------------------------------------ merging
    def merge_val(self, loc, c, a, b):
        if a is b:
            return a
        if loc[0] == "C":
            return self.merge_log(c, a, b)
        return phi(c, a, b)

    def merge_log(self, c, a, b):
        k = a.a[0] or b.a[0]
        if a.a[1] is b.a[1]:
            x, y = a.a[2], b.a[2]
            i = 0
            while i < len(x) and i < len(y) and x[i] is y[i]:
                i += 1
            pre, x, y = x[:i], x[i:], y[i:]
            return mk("log", k, a.a[1], self.norm_ops(pre + self.if_op(c, x, y, mk("log", k, a.a[1], pre))))
        return mk("log", k, phi(c, self.logval(a), self.logval(b)), ())

    def if_op(self, c, x, y, prefix):
        if not x and not y:
            return ()
        if x == y:
            return x
        if c is TRUE:
            return x
        if c is FALSE:
            return y
        if c.op == "not":
            return self.if_op(c.a[0], y, x, prefix)
        # a flag that is only changed when it differs
        for p, q, c2, val in ((x, y, c, FALSE), (y, x, NOT(c), TRUE)):
            if not q and len(p) == 1 and p[0].op == "set" and p[0].a[1] is val:
                t = c2 if val is FALSE else NOT(c2)
                if t.op == "truthy" and t.a[0].op == "item" and t.a[0].a[1] is p[0].a[0] and t.a[0].a[0] is self.logval(prefix):
                    return p
        # accumulation idioms
        if len(x) == 1 and len(y) == 1 and x[0].op in ("acc", "acc0", "set") and y[0].op in ("set", "acc", "acc0"):
            kx, ky = x[0].a[0], y[0].a[0]
            if kx is ky and x[0].op in ("acc", "acc0") and x[0].a[1] is y[0].a[1]:
                if self._is_in(c, kx, prefix) and y[0].op == "set":
                    return (mk("acc0", kx, x[0].a[1]),)
            if kx is ky and x[0].op == y[0].op:
                return (mk(x[0].op, kx, phi(c, x[0].a[1], y[0].a[1])),)
        if len(x) == 1 and len(y) == 1 and x[0].op == y[0].op and x[0].op in ("app", "add"):
            return (mk(x[0].op, phi(c, x[0].a[0], y[0].a[0])),)
        return (mk("if", c, x, y),)

    def _is_in(self, c, key, prefix):
        pv = self.logval(prefix)
        return is_in(c, key, pv) or is_in(c, key, None)

    def norm_ops(self, ops):
        out = []
        for o in ops:
            if out:
                p = out[-1]
                # if key not in d: d[key] = 0 ; d[key] += x
                if o.op == "acc" and p.op == "if" and not p.a[1] and len(p.a[2]) == 1 and p.a[2][0].op == "set":
                    s = p.a[2][0]
                    if s.a[0] is o.a[0] and s.a[1] is ZERO and is_in(p.a[0], o.a[0], False):
                        out[-1] = mk("acc0", o.a[0], o.a[1])
                        continue
                if o.op == "acc" and p.op == "sd" and p.a[0] is o.a[0] and p.a[1] is ZERO:
                    out[-1] = mk("acc0", o.a[0], o.a[1])
                    continue
                if o.op == "acc" and p.op == "set" and p.a[0] is o.a[0] and (isnumkind(p.a[1]) or isnumkind(o.a[1])):
                    out[-1] = mk("set", o.a[0], padd(p.a[1], o.a[1]))
                    continue
                if o.op == "set" and p.op == "set" and p.a[0] is o.a[0]:
                    out[-1] = o
                    continue
                # a second pass over the same keys overwrites the first
                if o.op == "each" and p.op == "each" and o.a[1] is TRUE and p.a[1] is TRUE and len(o.a[2]) == len(p.a[2]) == 1 and o.a[2][0].op == p.a[2][0].op == "set":
                    if o.a[0] is p.a[0] and o.a[2][0].a[0] is p.a[2][0].a[0]:
                        out[-1] = o
                        continue
            if o.op == "clear":
                out = []
            out.append(o)
        return tuple(out)

    def rel(self, r, entry):
        e = set(conj(entry))
        return AND(*[x for x in conj(r) if x not in e])

    def merge2(self, c, s1, s2):
        m = {}
        for loc in set(s1.m) | set(s2.m):
            a, b = s1.m.get(loc), s2.m.get(loc)
            if a is None:
                a = self.read(s1, loc)
            if b is None:
                b = self.read(s2, loc)
            if a is b:
                m[loc] = a
            elif loc[0] == "V":
                if a is UNBOUND or b is UNBOUND:
                    m[loc] = phi(c, a, b)
                else:
                    m[loc] = self.join_obj(c, a, b, s1, s2, m)
            else:
                m[loc] = self.merge_val(loc, c, a, b)
        return m

    def join_obj(self, c, a, b, s1, s2, m):
        ia, ib = self.objs.get(a), self.objs.get(b)
        if ia and ib and ia["cls"] is None and ib["cls"] is None and not ia["deep"] and not ib["deep"]:
            if sum(1 for v in s1.m.values() if v is a) == 1 and sum(1 for v in s2.m.values() if v is b) == 1:
                if not any(has_op(v, "ref") and (a in set(subterms(v)) or b in set(subterms(v))) for l, v in list(s1.m.items()) + list(s2.m.items()) if l[0] == "C"):
                    j = self.new(ia["kind"] or ib["kind"])
                    la, lb = self.content(a, s1.m), self.content(b, s2.m)
                    m[("C", j)] = self.merge_log(c, la, lb)
                    return j
        return phi(c, a, b)

    def merge_states(self, sts, entry_reach, entry_valid):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        r = sts[-1]
        for s in reversed(sts[:-1]):
            c = self.rel(s.reach, entry_reach)
            m = self.merge2(c, s, r)
            ev = set(conj(entry_valid))
            va = [x for x in conj(s.valid) if x not in ev]
            vb = [x for x in conj(r.valid) if x not in ev]
            both = [x for x in va if x in vb]
            va = AND(*[x for x in va if x not in both])
            vb = AND(*[x for x in vb if x not in both])
            v = AND(entry_valid, OR(NOT(c), va), OR(c, vb), *both)
            r = St(m, OR(s.reach, r.reach), v)
        return r

    # ------------------------------------------------------------ events
    def emit(self, kind, node, st, fr, **kw):
        self.seq += 1
        if self.quiet:
            return None
        e = Ev()
        for s in ("obj", "key", "val", "args", "kw", "aug", "meth"):
            setattr(e, s, kw.get(s))
        e.kind, e.guard, e.valid, e.seq, e.m, e.interp = kind, st.reach, st.valid, self.seq, dict(st.m), self
        e.loops = tuple(self.loops)
        e.trys = tuple(self.trys)
        e.ctx = tuple(self.ctx)
        e.loc = (fr.mod.rel, getattr(node, "lineno", 0), fr.func.qual if fr.func else "<module>")
        self.events.append(e)
        for t in self.trys:
            t.events.append(e)
        return e

    def note(self, what, node=None, fr=None):
        if not self.quiet:
            self.notes.append(what + (f" @{fr.mod.rel}:{getattr(node, 'lineno', 0)}" if fr else ""))

    # ------------------------------------------------------------ entry
    def run(self, func, args=None, consts=None, curry=False):
        """analyse one function for all inputs; args: param name -> term (default: symbolic)"""
        st = St({}, TRUE, TRUE)
        fr = Frame(func, func.mod, func.cls)
        self.entry = func
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        skip_self = func.cls is not None and not func.static
        args = args or {}
        for i, n in enumerate(names):
            if i == 0 and skip_self:
                if func.clsm:
                    v = mk("cls", (self.cls or func.cls).name)
                    fr.selfT = v
                else:
                    v = SELF
                    fr.selfT = SELF
                    self.types.setdefault(SELF, (self.cls or func.cls).name)
            else:
                v = args.get(n, mk("p", n))
            st.m[("V", fr.fid, n)] = v
        for x in a.kwonlyargs:
            st.m[("V", fr.fid, x.arg)] = args.get(x.arg, mk("p", x.arg))
        if a.vararg:
            st.m[("V", fr.fid, a.vararg.arg)] = mk("p", "*" + a.vararg.arg)
        if a.kwarg:
            st.m[("V", fr.fid, a.kwarg.arg)] = mk("p", "**" + a.kwarg.arg)
        self.params = names
        self.callstack.append(func)
        self.visited.add(func)
        end = self.block(func.node.body, st, fr)
        if curry:
            # the function returned is called with arbitrary arguments
            ex = list(fr.returns)
            c = self.closures.get(ex[0][1]) if len(ex) == 1 and end is None else None
            if c is None:
                raise TooBig()
            st = ex[0][0]
            func, fr = c[0], Frame(c[0], c[0].mod, c[0].cls, parent=c[1])
            a = func.node.args
            for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
                st.m[("V", fr.fid, x.arg)] = mk("p", f"#{i}")
            if a.vararg:
                st.m[("V", fr.fid, a.vararg.arg)] = mk("p", "*args")
            if a.kwarg:
                st.m[("V", fr.fid, a.kwarg.arg)] = mk("p", "**kwargs")
            self.visited.add(func)
            end = self.block(func.node.body, st, fr)
        S_ = Summary()
        S_.interp = self
        S_.events = self.events
        S_.func = func
        exits = list(fr.returns)
        if end is not None:
            exits.append((end, NONE, func.node))
        S_.exits = exits
        if exits:
            S_.end = self.merge_states([e[0] for e in exits], TRUE, TRUE)
            S_.end.valid = AND(S_.end.valid, OR(*[e[0].reach for e in exits]))
            v = exits[-1][1]
            for s, x, _ in reversed(exits[:-1]):
                v = self.merge_ret(s.reach, x, v)
            S_.ret = v
        else:
            S_.end, S_.ret = None, None
        S_.notes = self.notes
        return S_

    def merge_ret(self, c, a, b):
        return phi(c, a, b)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st, fr)
            if st is not None and st.dead:
                return None         # the statement called a function that always raises
        return st

    def stmt(self, s, st, fr):
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is None:
            self.note("unsupported statement " + type(s).__name__, s, fr)
            return st
        return f(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    s_Import = s_ImportFrom = s_Pass

    def s_Import(self, s, st, fr):
        for a in s.names:
            if a.asname:
                st.m[("V", fr.fid, a.asname)] = self.resolve_dotted(a.name)
            else:
                st.m[("V", fr.fid, a.name.split(".")[0])] = self.resolve_dotted(a.name.split(".")[0])
        return st

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            st.m[("V", fr.fid, a.asname or a.name)] = self.resolve_dotted((s.module or "") + "." + a.name)
        return st

    def s_Global(self, s, st, fr):
        fr.globals |= set(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)
        return st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, fr)
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_name(t.id, st, fr, t)
            val = self.ev(s.value, st, fr)
            # in-place list extension
            if isinstance(s.op, ast.Add) and cur.op == "ref" and self.objs.get(cur, {}).get("kind") == "list":
                self.mutate(cur, "extend", [val], st, fr, s)
                return st
            if isinstance(s.op, (ast.BitOr,)) and cur.op == "ref" and self.objs.get(cur, {}).get("kind") in ("set", "dict"):
                self.mutate(cur, "update", [val], st, fr, s)
                return st
            if isinstance(s.op, ast.Sub) and cur.op == "ref" and self.objs.get(cur, {}).get("kind") == "set":
                self.mutate(cur, "difference_update", [val], st, fr, s)
                return st
            self.setvar(t.id, self.binop(s.op, cur, val, st, fr, s), st, fr)
            return st
        if isinstance(t, ast.Attribute):
            obj = self.ev(t.value, st, fr)
            cur = self.getattr_(obj, t.attr, st, fr, t)
            val = self.ev(s.value, st, fr)
            k = kind(self.snap(cur, st.m))
            if isinstance(s.op, ast.Add) and k == "list":
                self.mutate(cur, "extend", [val], st, fr, s)
                return st
            if isinstance(s.op, ast.BitOr) and k in ("set", "dict"):
                self.mutate(cur, "update", [val], st, fr, s)
                return st
            if isinstance(s.op, ast.Sub) and k == "set":
                self.mutate(cur, "difference_update", [val], st, fr, s)
                return st
            self.setattr_(obj, t.attr, self.binop(s.op, cur, val, st, fr, s), st, fr, s)
            return st
        if isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st, fr)
            key = self.ev_slice(t.slice, st, fr)
            cur = self.getitem(obj, key, st, fr, t)
            val = self.ev(s.value, st, fr)
            nv = self.binop(s.op, cur, val, st, fr, s)
            self.setitem(obj, key, nv, st, fr, s, aug=(type(s.op).__name__, self.snap(val, st.m)), cur=cur)
            return st
        self.note("unsupported augmented assignment", s, fr)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj = self.ev(t.value, st, fr)
                key = self.ev_slice(t.slice, st, fr)
                self.mutate(obj, "__delitem__", [key], st, fr, s)
            elif isinstance(t, ast.Name):
                st.m.pop(("V", fr.fid, t.id), None)
            elif isinstance(t, ast.Attribute):
                obj = self.ev(t.value, st, fr)
                self.emit("delattr", s, st, fr, obj=obj, key=t.attr)
        return st

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        if st.dead:
            return None
        fr.returns.append((st, v, s))
        return None

    def s_Raise(self, s, st, fr):
        x = self.ev(s.exc, st, fr) if s.exc is not None else mk("reraise")
        self.emit("raise", s, st, fr, val=x)
        self.raised = OR(self.raised, st.reach)
        self.on_raise(st)
        return None

    def on_raise(self, st):
        pass

    def s_Assert(self, s, st, fr):
        # assertions are debugging aids (removed by -O): not part of the behaviour
        return st

    def s_If(self, s, st, fr):
        c = self.evc(s.test, st, fr)
        return self.branch(c, st, lambda x: self.block(s.body, x, fr), lambda x: self.block(s.orelse, x, fr))

    def branch(self, c, st, fa, fb):
        if c is TRUE or implies_quick(st.reach, c):
            return fa(st)
        if c is FALSE or implies_quick(st.reach, NOT(c)):
            return fb(st)
        old = self.raised
        self.raised = FALSE
        r0, v0 = st.reach, st.valid
        s1, s2 = st.copy(), st.copy()
        s1.reach = AND(r0, c)
        s2.reach = AND(r0, NOT(c))
        for loc, v in st.m.items():
            if v.op == "phi" and loc[0] == "V":
                if v.a[0] is c:
                    s1.m[loc], s2.m[loc] = v.a[1], v.a[2]
                elif v.a[0].op == "not" and v.a[0].a[0] is c or c.op == "not" and c.a[0] is v.a[0]:
                    s1.m[loc], s2.m[loc] = v.a[2], v.a[1]
        r1 = fa(s1) if s1.reach is not FALSE else None
        r2 = fb(s2) if s2.reach is not FALSE else None
        R = self.raised
        self.raised = OR(old, R)
        if r1 is None and r2 is None:
            return None
        if r1 is None or r2 is None:
            r = r1 or r2
            cc = NOT(c) if r1 is None else c
            alive = r.reach
            if R is not FALSE:
                tot = OR(alive, R)
                if tot is r0 or equiv_safe(tot, r0):
                    extra = self.rel(alive, r0)
                    r.valid = AND(r.valid, extra if r0 is TRUE else OR(NOT(r0), extra))
                    r.reach = r0
                else:
                    r.valid = AND(r.valid, NOT(R))
            return r
        m = self.merge2(c, r1, r2)
        reach = OR(r1.reach, r2.reach)
        e = set(conj(v0))
        va = [x for x in conj(r1.valid) if x not in e]
        vb = [x for x in conj(r2.valid) if x not in e]
        both = [x for x in va if x in vb]
        v = AND(v0, OR(NOT(c), AND(*va)), OR(c, AND(*vb)), *both)
        if R is not FALSE:
            tot = OR(reach, R)
            if reach is not r0 and (tot is r0 or equiv_safe(tot, r0)):
                if not equiv_safe(reach, r0):
                    v = AND(v, OR(NOT(r0), self.rel(reach, r0)) if r0 is not TRUE else reach)
                reach = r0
        if reach is not r0 and equiv_safe(reach, r0):
            reach = r0
        return St(m, reach, v)

    def rest_raises(self, e, e0, R):
        """the paths from e0 that do not reach e raise"""
        if e is not None and R is not FALSE and e.reach is not e0 and equiv_safe(OR(e.reach, R), e0):
            e.valid = AND(e.valid, self.rel(e.reach, e0))
            e.reach = e0

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        ctx = LoopCtx()
        return self.for_loop(it, st, fr, s,
                             lambda x, v, pos: self.bind_and_run(s.target, v, x, fr, s),
                             s.orelse)

    def bind_and_run(self, target, v, st, fr, s):
        self.assign(target, v, st, fr, s, loopvar=True)
        return self.block(s.body, st, fr)

    def s_While(self, s, st, fr):
        return self.while_loop(s, st, fr)

    def s_Break(self, s, st, fr):
        fr.loopctx[-1].breaks.append(st)
        return None

    def s_Continue(self, s, st, fr):
        fr.loopctx[-1].continues.append(st)
        return None

    def s_FunctionDef(self, s, st, fr):
        f = Func(fr.mod, s, None)
        f.cls = fr.cls
        f.static = True
        f.qual = (fr.func.qual + "." if fr.func else "") + s.name
        c = mk("clo", id(s), fr.fid)
        defaults = {}
        self.closures[c] = (f, fr, self.eval_defaults(f, fr, st))
        st.m[("V", fr.fid, s.name)] = c
        return st

    def s_ClassDef(self, s, st, fr):
        self.note("local class", s, fr)
        return st

    def s_With(self, s, st, fr):
        files = []
        for i in s.items:
            v = self.ev(i.context_expr, st, fr)
            self.emit("with", s, st, fr, obj=v)
            if v in self.bufs:
                files.append(v)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v if v in self.bufs else mk("with", self.snap(v, st.m)), st, fr, s)
        st = self.block(s.body, st, fr)
        if st is not None:
            for v in reversed(files):
                self.buf_close(v, st)
        return st

    def buf_put(self, v, t, st):
        lg = self.content(v, st.m)
        st.m[("C", v)] = mk("log", "list", lg.a[1], lg.a[2] + (mk("app", t),))

    def buf_value(self, v, st):
        lg = self.content(v, st.m)
        if len(lg.a[2]) == 1 and lg.a[2][0].op == "app" and lg.a[1] is EMPTY:
            return lg.a[2][0].a[0]
        return mk("call", "bytes.join", (lg,), ())

    def buf_close(self, v, st):
        """what was written to a compressed file reaches its buffer when the file is closed"""
        if self.bufs[v] is not None and self.content(v, st.m).a[2]:
            self.buf_put(self.bufs[v], mk("call", "gzip.compress", (self.buf_value(v, st),), ()), st)
            st.m[("C", v)] = mk("log", "list", EMPTY, ())

    def buf_method(self, v, name, args, kw, st):
        if name == "write" and len(args) == 1 and not kw:
            self.buf_put(v, self.snap(args[0], st.m), st)
            return NONE
        if name == "getvalue" and not args and self.bufs[v] is None:
            return self.buf_value(v, st)
        if name == "close" and not args and self.bufs[v] is not None:
            self.buf_close(v, st)
            return NONE
        return None

    def s_Try(self, s, st, fr):
        T_ = mk("try", self.site_ordinal("try", s))
        info = TryInfo(T_, s)
        self.tryinfo[T_] = info
        exc = mk("exc", T_)
        pre = st.copy()
        nret = len(fr.returns)
        self.trys.append(info)
        oldr = self.raised
        self.raised = FALSE
        b = self.block(s.body, st, fr)
        Rb = self.raised
        self.trys.pop()
        if b is not None and s.orelse:
            b = self.block(s.orelse, b, fr)
        outs = []
        hs = []
        self.raised = FALSE
        rets_body = fr.returns[nret:]
        for h in s.handlers:
            x = pre.copy()
            # locations the body may have changed have an unknown value in the handler
            posts = ([b] if b is not None else []) + [r[0] for r in rets_body]
            for p in posts:
                for loc in set(p.m):
                    a, c2 = self.read(x, loc), p.m[loc]
                    if a is not c2 and not (loc[0] == "V" and loc[1] != fr.fid and loc not in pre.m):
                        x.m[loc] = mk("partial", T_, locT(loc)) if loc[0] != "C" else mk("log", None, mk("partial", T_, locT(loc)), ())
            types = self.ev(h.type, x, fr) if h.type is not None else mk("g", "BaseException")
            e2 = mk("exc", T_, types)
            x.reach = AND(pre.reach, e2)
            if h.name:
                x.m[("V", fr.fid, h.name)] = mk("excval", T_)
            info.handlers.append((types, e2))
            self.ctx.append(("handler", T_))
            r = self.block(h.body, x, fr)
            self.ctx.pop()
            if r is not None:
                hs.append(r)
        Rh = self.raised
        allexc = OR(*[e for _, e in info.handlers]) if info.handlers else FALSE
        out = None
        if b is not None:
            if s.handlers:
                if hs or self._nonraising(fr, nret, len(rets_body)):
                    b.reach = AND(b.reach, NOT(allexc))
                else:
                    b.valid = AND(b.valid, OR(NOT(pre.reach), NOT(allexc)))
            outs = hs + [b]
        else:
            outs = hs
        self.raised = OR(oldr, Rb, Rh)
        out = self.merge_states(outs, pre.reach, pre.valid) if outs else None
        if out is not None and equiv_safe(out.reach, pre.reach):
            out.reach = pre.reach
        if s.finalbody:
            self.ctx.append(("finally", T_))
            if out is not None:
                out = self.block(s.finalbody, out, fr)
            for i in range(nret, len(fr.returns)):
                rs, v, nd = fr.returns[i]
                r2 = self.block(s.finalbody, rs, fr)
                if r2 is not None:
                    fr.returns[i] = (r2, v, nd)
            if out is None and len(fr.returns) == nret:
                self.block(s.finalbody, pre.copy(), fr)
            self.ctx.pop()
        return out

    def _nonraising(self, fr, nret, nb):
        return len(fr.returns) > nret + nb

    s_TryStar = s_Try

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)

        def go(i, x):
            if i == len(s.cases):
                return x
            cs = s.cases[i]
            c = self.pattern(cs.pattern, subj, x, fr)
            if cs.guard is not None:
                c = AND(c, self.evc(cs.guard, x, fr))
            return self.branch(c, x, lambda y: self.block(cs.body, y, fr), lambda y: go(i + 1, y))
        return go(0, st)

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return EQ(self.snap(subj, st.m), self.snap(self.ev(p.value, st, fr), st.m))
        if isinstance(p, ast.MatchSingleton):
            return EQ(self.snap(subj, st.m), const(p.value))
        if isinstance(p, ast.MatchOr):
            return OR(*[self.pattern(q, subj, st, fr) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setvar(p.name, subj, st, fr)
                return TRUE
            c = self.pattern(p.pattern, subj, st, fr)
            if p.name:
                self.setvar(p.name, subj, st, fr)
            return c
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinst(self.snap(subj, st.m), self.ev(p.cls, st, fr))
        return mk("callb", "match", subj)


def is_in(c, key, X):
    """c says that the key is in X (None: in a fresh container, False: in some container)"""
    if X is None or X is False:
        cs = {x.a[1] for x in atoms(c) if x.op == "in"}
        return any(c is IN(key, y) for y in cs if X is False or y.op == "ref")
    return c is IN(key, X) and c.op not in ("bool",)


def implies_quick(r, c):
    """c is a conjunct of r"""
    if c is TRUE:
        return True
    cs = conj(r)
    return c in cs


def equiv_safe(a, b):
    if a is b:
        return True
    try:
        return equiv(a, b)
    except TooBig:
        return False
