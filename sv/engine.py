"""Builtins and library functions with a known meaning; the analysis as one class."""
from .terms import *
from .interp import FRESH_EXT, InterpBase, SELF, UNBOUND, equiv_safe
from .loops import LEN, LoopMixin, SUM
from .expr import ExprMixin

PURE_EXT_PREFIX = ("numpy.", "math.", "os.path.", "json.dumps", "json.loads", "time.", "datetime.", "traceback.", "pyqubo.", "dimod.", "itertools.", "operator.",
                   "functools.", "apache_beam.", "copy.", "collections.", "dwave.", "neal.", "platform.", "sys.", "pandas.", "yaml.", "urllib.", "re.", "string.", "pprint.", "random.", "numbers.", "types.")
OPS2 = {"operator.add": "Add", "operator.sub": "Sub", "operator.mul": "Mult", "operator.truediv": "Div", "operator.or_": "BitOr", "operator.and_": "BitAnd", "operator.pow": "Pow",
        "operator.floordiv": "FloorDiv", "operator.mod": "Mod", "operator.iadd": "Add", "operator.rshift": "RShift", "operator.concat": "Add"}
CMP2 = {"operator.eq": "Eq", "operator.ne": "NotEq", "operator.lt": "Lt", "operator.le": "LtE", "operator.gt": "Gt", "operator.ge": "GtE", "operator.is_": "Is", "operator.is_not": "IsNot"}


CLOCKS = ("time.perf_counter", "time.monotonic", "time.process_time")


class ExtMixin:
    def ext_call(self, d, args, kw, st, fr, node):
        import ast
        snap = lambda t: self.snap(t, st.m)
        n = len(args)
        if any(a.op == "star" for a in args):
            return self.ext_event(d, args, kw, st, fr, node)
        if d == "io.BytesIO" and n <= 1 and not kw:
            r = self.new("list")
            self.bufs[r] = None
            if n:
                st.m[("C", r)] = mk("log", "list", EMPTY, (mk("app", snap(args[0])),))
            return r
        if d == "gzip.GzipFile" and kw.get("fileobj") in self.bufs and not (args and args[0] is not NONE) and kw.get("mode", args[1] if n > 1 else None) in (S("wb"), S("w")):
            r = self.new("list")
            self.bufs[r] = kw["fileobj"]
            return r
        if d == "gzip.compress" and n == 1:
            return mk("call", "gzip.compress", (snap(args[0]),), ())
        if d == "len" and n == 1:
            return LEN(snap(self.as_value(args[0], st)))
        if d == "range":
            a = [snap(x) for x in args]
            if n == 1:
                return mk("rangev", ZERO, a[0], ONE)
            if n == 2:
                return mk("rangev", a[0], a[1], ONE)
            return mk("rangev", *a)
        if d in ("list", "tuple", "set", "frozenset"):
            if n == 0:
                return self.new("set" if d in ("set", "frozenset") else "list") if d != "tuple" else mk("tuple")
            return self.collect(args[0], d, st, fr, node)
        if d in ("dict", "collections.OrderedDict"):
            r = self.new("dict")
            if n == 1:
                x = snap(args[0])
                if kind(x) == "dict" or x.op in ("p", "attr", "item", "at", "callv", "api", "with"):
                    if x.op == "log":
                        self.objs[r]["base"] = x.a[1]
                        st.m[("C", r)] = x
                    else:
                        self.objs[r]["base"] = x
                else:
                    def body(s, v, pos):
                        if v.op == "ref":
                            v = self.snap(v, s.m)
                        k, w = self.getitem(v, ZERO, s, fr, node), self.getitem(v, ONE, s, fr, node)
                        lg = self.content(r, s.m)
                        s.m[("C", r)] = mk("log", "dict", lg.a[1], lg.a[2] + (mk("set", self.snap(k, s.m), w),))
                        return s
                    self.loop_over(args[0], st, fr, node, body)
            for k, v in kw.items():
                lg = self.content(r, st.m)
                if k == "**":
                    st.m[("C", r)] = mk("log", "dict", lg.a[1], lg.a[2] + (mk("upd", v),))
                else:
                    st.m[("C", r)] = mk("log", "dict", lg.a[1], lg.a[2] + (mk("set", S(k), v),))
            return r
        if d == "collections.defaultdict":
            r = self.new("dict")
            z = args[0] if args else NONE
            if z in (mk("g", "float"), mk("g", "int")) or (z.op == "clo" and self.lam(z, 0, st, fr, node) is mk("lam", 0, ZERO)):
                self.objs[r]["dd"] = True
            elif args:
                self.objs[r]["ddf"] = z
            return r
        if d == "collections.Counter" and n == 0:
            r = self.new("dict")
            self.objs[r]["dd"] = True
            return r
        if d in ("re.match", "re.fullmatch", "re.search") and n == 2 and not kw:
            lg = matched(mk("call", "re.compile", (snap(args[0]),), ()), d[3:])
            if lg is not None:
                return mk("rxm", lg, snap(args[1]))
        if d == "sorted" and n == 1:
            v = snap(self.collect(args[0], "list", st, fr, node) if args[0].op == "values" else args[0])
            if v.op in ("keys",):
                v = v.a[0]
            t = self.sorted_t(v, kw.get("key"), snap(kw["reverse"]) if "reverse" in kw else None, st, fr, node)
            return self.new("list", t)
        if d == "reversed" and n == 1:
            v = args[0]
            if v.op == "rangev" and v.a[2] is ONE:
                return mk("rangev", psub(v.a[1], ONE), psub(v.a[0], ONE), num(-1))
            return mk("rev", v)
        if d in ("sum", "math.fsum") and n in (1, 2):
            acc = mk("ref", -1)
            start = args[1] if n == 2 else kw.get("start", ZERO)
            if kind(snap(start)) == "list":
                r = self.new("list")
                self.mutate(r, "extend", [start], st, fr, node, silent=True)
                self.loop_over(args[0], st, fr, node, lambda s, v, p: (self.mutate(r, "extend", [v], s, fr, node, silent=True), s)[1])
                return r
            loc = ("V", fr.fid, f"$sum{self.tmp()}")
            st.m[loc] = start

            def body(s, v, p):
                s.m[loc] = padd(s.m[loc], self.snap(v, s.m))
                return s
            self.loop_over(args[0], st, fr, node, body)
            return st.m.pop(loc)
        if d == "math.prod" or d == "numpy.prod":
            v = snap(self.as_value(args[0], st))
            if v.op == "tuple":
                r = ONE
                for x in v.a:
                    r = pmul(r, x)
                return r
            return mk("call", "prod", (v,), ())
        if d in ("any", "all") and n == 1:
            loc = ("V", fr.fid, f"$any{self.tmp()}")
            f = mk("g", d)
            neg = d == "all"
            return self.anyall(args[0], neg, st, fr, node)
        if d in ("min", "max"):
            xs = [snap(a) for a in args]
            if n == 1:
                xs = [snap(self.as_value(args[0], st))]
                if xs[0].op == "tuple":
                    xs = list(xs[0].a)
            if len(xs) == 2 and not kw:
                a, b = xs
                if a.n > b.n:
                    a, b = b, a
                # canonical ordering of the operands: only sound for comparable, non-NaN values
                if isconst(a) and isconst(b):
                    c = LT(a, b)
                    return (a if c is TRUE else b) if d == "min" else (b if c is TRUE else a)
                t = mk("call", d, (a, b), ())
                if isnumkind(a) or isnumkind(b):
                    KIND_TERM.setdefault(t, "num")
                return t
            return mk("call", d, tuple(xs), self.kwt(kw, st))
        if d == "zip":
            if kw:
                kw = {k: v for k, v in kw.items() if k != "strict"}
            return mk("zipv", *args)
        if d == "enumerate":
            return mk("enum", args[0], args[1] if n > 1 else kw.get("start", ZERO))
        if d == "map":
            if n == 2:
                return mk("mapv", args[0], args[1])
            return mk("starmapv", args[0], mk("zipv", *args[1:]))
        if d == "itertools.starmap":
            return mk("starmapv", args[0], args[1])
        if d == "filter":
            return mk("filterv", args[0], args[1], FALSE)
        if d == "itertools.filterfalse":
            return mk("filterv", args[0], args[1], TRUE)
        if d == "itertools.chain":
            r = self.new("list")
            for a in args:
                self.mutate(r, "extend", [self.as_value(a, st)], st, fr, node, silent=True)
            return r
        if d == "itertools.chain.from_iterable":
            r = self.new("list")
            self.loop_over(args[0], st, fr, node, lambda s, v, p: (self.mutate(r, "extend", [v], s, fr, node, silent=True), s)[1])
            return r
        if d == "itertools.product":
            rep = kw.get("repeat")
            if rep is not None and rep.op == "num":
                args = list(args) * int(rep.a[0])
            return mk("prodv", *args)
        if d in ("itertools.combinations", "itertools.combinations_with_replacement"):
            return mk("combv", args[0], args[1] if n > 1 else kw.get("r", NONE), S(d))
        if d == "itertools.permutations" and n == 2:
            return mk("combv", args[0], args[1], S(d))
        if d == "itertools.count":
            return mk("count", args[0] if n else kw.get("start", ZERO))
        if d == "itertools.repeat" and n == 2:
            return self.fresh("list", [mk("rep", (args[0],), snap(args[1]))], st)
        if d == "isinstance" and n == 2:
            return self.isinst(snap(args[0]), snap(args[1]))
        if d == "str" and n == 1:
            v = snap(args[0])
            if kind(v) == "str":
                return v
            return mk("call", "str", (v,), ())
        if d == "repr" and n == 1:
            return mk("call", "repr", (snap(args[0]),), ())
        if d == "format":
            v = snap(args[0])
            return v if n == 1 else mk("fmt", v, args[1], -1)
        if d == "int" and n == 1:
            v = snap(args[0])
            if kind(v) == "int" or kind(v) == "bool":
                return v if v.op != "bool" else num(int(v.a[0]))
            if v.op == "num":
                return num(int(v.a[0]))
            return mk("call", "int", (v,), ())
        if d == "int" and n == 0:
            return ZERO
        if d in ("float", "numpy.float64") and n <= 1:
            if n == 0:
                return ZERO
            v = snap(args[0])
            if v.op == "str":
                try:
                    return num(float(v.a[0]))
                except ValueError:
                    pass
            if isnumkind(v):
                return v
            if v.op == "phi":
                return phi(v.a[0], self.ext_call(d, [v.a[1]], {}, st, fr, node), self.ext_call(d, [v.a[2]], {}, st, fr, node))
            return mk("call", "float", (v,), ())
        if d == "bool" and n <= 1:
            return FALSE if n == 0 else cond(snap(args[0]))
        if d == "abs" and n == 1 or d in ("math.fabs", "numpy.abs"):
            v = snap(args[0])
            if v.op == "num":
                return num(abs(v.a[0]))
            return mk("call", "abs", (v,), ())
        if d == "getattr" and n >= 2:
            k = snap(args[1])
            if k.op == "str":
                v = self.getattr_(args[0], k.a[0], st, fr, node)
                if n == 3:
                    return mk("call", "getattr", (v, snap(args[2])), ())
                return v
            return mk("opq", "getattr")
        if d == "setattr" and n == 3 and snap(args[1]).op == "str":
            self.setattr_(args[0], snap(args[1]).a[0], args[2], st, fr, node)
            return NONE
        if d == "hasattr":
            return mk("callb", "hasattr", snap(args[0]), snap(args[1]))
        if d == "callable":
            return mk("callb", "callable", snap(args[0]))
        if d == "issubclass":
            return mk("callb", "issubclass", snap(args[0]), snap(args[1]))
        if d == "iter" and n == 1:
            return args[0]
        if d == "next":
            return self.next_(args, st, fr, node)
        if d == "type" and n == 1:
            v = args[0]
            cn = self.typeof(v)
            if cn and v is not SELF and self.objs.get(v, {}).get("cls"):
                return mk("cls", cn)
            return mk("classof", v)
        if d == "id":
            return mk("call", "id", (args[0],), ())
        if d == "round":
            return mk("call", "round", tuple(snap(a) for a in args), ())
        if d == "divmod":
            a, b = snap(args[0]), snap(args[1])
            return mk("tuple", mk("call", "floordiv", (a, b), ()), mk("call", "mod", (a, b), ()))
        if d == "pow" and n == 2:
            return self.binop(ast.Pow(), args[0], args[1], st, fr, node)
        if d == "slice":
            a = list(args) + [NONE] * (3 - n)
            return mk("slicek", *a) if n > 1 else mk("slicek", NONE, a[0], NONE)
        if d == "print":
            self.emit("print", node, st, fr, args=tuple(snap(a) for a in args))
            return NONE
        if d in ("vars", "globals", "locals"):
            return mk("opq", d)
        if d in OPS2 and n == 2:
            return self.binop(getattr(ast, OPS2[d])(), args[0], args[1], st, fr, node)
        if d in CMP2 and n == 2:
            return self.compare(getattr(ast, CMP2[d])(), args[0], args[1], st)
        if d == "operator.neg":
            return pneg(snap(args[0]))
        if d == "operator.not_":
            return NOT(self.condv(args[0], st))
        if d == "operator.contains":
            return IN(snap(args[1]), snap(args[0]))
        if d == "operator.getitem":
            return self.getitem(args[0], args[1], st, fr, node)
        if d == "operator.setitem":
            self.setitem(args[0], args[1], args[2], st, fr, node)
            return NONE
        if d in ("operator.itemgetter", "operator.attrgetter"):
            return mk("opgetter", "attr" if d.endswith("attrgetter") else "item", tuple(args))
        if d == "operator.methodcaller":
            return mk("methcaller", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if d == "functools.partial":
            return mk("partialf", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if d == "functools.reduce":
            return self.reduce_(args, st, fr, node)
        if d in ("functools.wraps", "functools.lru_cache", "functools.cache"):
            return mk("call", d, tuple(snap(a) for a in args), ())
        if d in ("copy.deepcopy",) and n >= 1:
            v = args[0]
            s = snap(v)
            if isconst(s) or s.op in ("poly", "strcat") or s.op in BOOLOPS:
                return s
            if s.op == "tuple":
                return mk("tuple", *[self.ext_call(d, [x], {}, st, fr, node) for x in s.a])
            if s.op == "log" and s.a[1] is EMPTY:
                r = self.new(s.a[0])
                st.m[("C", r)] = s
                return r
            if s.op == "log":
                r = self.new(s.a[0], s.a[1], deep=True)
                st.m[("C", r)] = s
                return r
            if s.op == "phi":
                return phi(s.a[0], self.ext_call(d, [s.a[1]], {}, st, fr, node), self.ext_call(d, [s.a[2]], {}, st, fr, node))
            r = self.new(kind(s), s, deep=True)
            return r
        if d == "copy.copy" and n == 1:
            v = snap(args[0])
            if isconst(v) or v.op == "poly":
                return v
            return self.shallow(args[0], st)
        if d == "pandas.DataFrame":
            x = args[0] if n else kw.get("data", NONE)
            x = snap(x)
            if is_array(x) or x.op == "item" or (x.op == "phi"):
                return mk("df", x, TRUE)
            if x.op == "log" and x.a[1] is EMPTY and x.a[0] == "dict" and len(x.a[2]) == 1 and x.a[2][0].op == "upd" and is_array(x.a[2][0].a[0]):
                return mk("df", x.a[2][0].a[0], TRUE)
            if x.op == "log" and x.a[1] is EMPTY and x.a[0] == "dict" and x.a[2] and all(o.op == "set" and o.a[0].op == "str" and is_col(o.a[1]) == o.a[0].a[0] for o in x.a[2]):
                bs = {o.a[1].a[0] for o in x.a[2]}
                if len(bs) == 1:
                    return mk("df", bs.pop(), TRUE)
            return mk("df", x, TRUE)
        if d in ("math.exp", "numpy.exp"):
            return mk("call", "math.exp", (snap(args[0]),), ())
        if d in ("math.isnan", "numpy.isnan", "pandas.isna", "pandas.isnull"):
            return mk("callb", "isnan", snap(args[0]))
        if d in ("math.floor",):
            return mk("call", d, (snap(args[0]),), ())
        if d in FRESH_EXT:
            sa = tuple(snap(a) for a in args)
            t = mk("call", d, sa, self.kwt(kw, st))
            self.emit("ext", node, st, fr, obj=mk("g", d), args=sa, kw=dict(kw))
            return self.new("arr", t)
        if d == "super":
            return mk("super", fr.cls.name if fr.cls else "", fr.selfT or SELF)
        if d in ("yaml.load",):
            kw = {k: v for k, v in kw.items() if k != "Loader"}
            return self.ext_event("yaml.safe_load", [args[0]], kw, st, fr, node)
        return self.ext_event(d, args, kw, st, fr, node)

    def tmp(self):
        self.ntmp = getattr(self, "ntmp", 0) + 1
        return self.ntmp

    def kwt(self, kw, st):
        return tuple(sorted((k, self.snap(v, st.m)) for k, v in kw.items()))

    def ext_event(self, d, args, kw, st, fr, node):
        sa = tuple(self.snap(a, st.m) for a in args)
        kt = self.kwt(kw, st)
        self.emit("ext", node, st, fr, obj=mk("g", d), args=sa, kw=dict(kt), val=tuple(args))
        if not d.endswith(("Error", "Exception", "Warning")):
            self.trace("ext", mk("call", d, sa, kt), st)
        if d == "numpy.random.default_rng" and not sa:
            sa = (kw["seed"],) if "seed" in kw else (NONE,)
            kt = ()
        if d in CLOCKS:
            lg = st.m.get(("C", mk("trace", "call")))
            return mk("call", d, (mk("after", len(lg.a[2]) if lg is not None else 0),), ())
        if d.startswith("numpy.random.") or d.startswith("random."):
            return mk("call", d, sa + (mk("rnd", fr.mod.rel, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),) if False else sa, kt)
        return mk("call", d, sa, kt)

    def as_value(self, v, st):
        """a lazy iterable as a container term"""
        if v.op in ("mapv", "starmapv", "filterv", "zipv", "enum", "prodv", "combv", "items", "values"):
            return v
        return v

    def loop_over(self, it, st, fr, node, body):
        out = self.for_loop(it, st, fr, node, body)
        if out is not None and out is not st:
            st.m, st.valid = out.m, out.valid
        return st

    def collect(self, x, d, st, fr, node):
        k = {"list": "list", "tuple": "list", "set": "set", "frozenset": "set"}[d]
        s = pairkey(self.snap(x, st.m))
        if d == "tuple":
            if s.op == "tuple":
                return s
            if s.op == "log" and s.a[1] is EMPTY and s.a[0] == "list" and all(o.op == "app" for o in s.a[2]):
                return mk("tuple", *[o.a[0] for o in s.a[2]])
        if x.op in ("mapv", "starmapv", "filterv", "zipv", "enum", "prodv", "combv", "items", "values", "dfrows", "rev") and not (k == "set" and x.op == "values"):
            r = self.new(k)
            m = "append" if k == "list" else "add"
            self.loop_over(x, st, fr, node, lambda s_, v, p: (self.mutate(r, m, [v], s_, fr, node, silent=True), s_)[1])
            return r
        if x.op == "keys":
            s = self.snap(x.a[0], st.m)
            r = self.new(k)
            st.m[("C", r)] = mk("log", k, EMPTY, (mk("ext", s),))
            return r
        if s.op == "log" and s.a[1] is EMPTY and s.a[0] in ("list", "set"):
            ops = s.a[2]
            if k == "set":
                ops = tuple(self.to_add(o) for o in ops)
            r = self.new(k)
            st.m[("C", r)] = mk("log", k, EMPTY, ops)
            return r
        if s.op == "tuple":
            r = self.new(k)
            st.m[("C", r)] = mk("log", k, EMPTY, tuple(mk("app" if k == "list" else "add", y) for y in s.a))
            return r
        if s.op == "setop" and k == "set":
            return self.new("set", s)
        if s.op == "rangev" or s.op in ("sorted", "slice", "rev"):
            return self.new("list" if k == "list" else k, s if k == "list" else EMPTY) if k == "list" else self.fresh("set", [mk("ext", s)], st)
        if kind(s) == k and k == "set":
            return self.new("set", s)
        return self.fresh(k, [mk("ext", s)], st)

    def to_add(self, o):
        if o.op == "app":
            return mk("add", o.a[0])
        if o.op == "each":
            return mk("each", o.a[0], o.a[1], tuple(self.to_add(x) for x in o.a[2]))
        if o.op == "if":
            return mk("if", o.a[0], tuple(self.to_add(x) for x in o.a[1]), tuple(self.to_add(x) for x in o.a[2]))
        return o

    def anyall(self, it, neg, st, fr, node):
        """any(..)/all(..) over an iterable as a condition"""
        s = self.snap(it, st.m)
        if s.op == "log" and s.a[0] in ("list", "set") :
            r = []
            if s.a[1] is not EMPTY:
                b = s.a[1]
                L = mk("L", mk("seq", b), 0)
                c = cond(mk("item", b, mk("idx", L)))
                r.append(anyiter(L, NOT(c) if neg else c))
            for o in s.a[2]:
                r.append(self.any_op(o, neg, TRUE))
            c = OR(*r)
            return NOT(c) if neg else c
        if s.op == "tuple":
            xs = [cond(x) for x in s.a]
            return AND(*xs) if neg else OR(*xs)
        if s.op in ("mapv", "filterv", "starmapv", "zipv", "values"):
            r = self.collect(it, "list", st, fr, node)
            return self.anyall(r, neg, st, fr, node)
        if s.op == "proj":
            B, pred = s.a[0].a
            L = mk("L", mk("table", B), 0)
            c = cond(mk("item", mk("item", B, S(s.a[1])), mk("idx", L)))
            c = AND(self.row_pred(pred, B, L), NOT(c) if neg else c)
            return NOT(anyiter(L, c)) if neg else anyiter(L, c)
        if is_col(s):
            L = mk("L", mk("table", s.a[0]), 0)
            c = cond(mk("item", s, mk("idx", L)))
            return NOT(anyiter(L, NOT(c))) if neg else anyiter(L, c)
        if s.op in BOOLOPS:
            return mk("callb", "all" if neg else "any", s)
        L = mk("L", mk("seq", s), 0)
        c = cond(mk("item", s, mk("idx", L)))
        return NOT(anyiter(L, NOT(c))) if neg else anyiter(L, c)

    def any_op(self, o, neg, g):
        if o.op in ("app", "add"):
            c = cond(o.a[0])
            return NOT(c) if neg else c
        if o.op == "each":
            return anyiter(o.a[0], AND(o.a[1], OR(*[self.any_op(x, neg, TRUE) for x in o.a[2]])))
        if o.op == "if":
            return OR(AND(o.a[0], *[OR(*[self.any_op(x, neg, TRUE) for x in o.a[1]])]), AND(NOT(o.a[0]), OR(*[self.any_op(x, neg, TRUE) for x in o.a[2]])))
        if o.op == "ext":
            s = o.a[0]
            L = mk("L", mk("seq", s), 0)
            c = cond(mk("item", s, mk("idx", L)))
            return anyiter(L, NOT(c) if neg else c)
        return mk("callb", "anyop", o)

    def next_(self, args, st, fr, node):
        """next(generator, default): the first element"""
        it = args[0]
        s = self.snap(it, st.m)
        if s.op == "log" and s.a[1] is EMPTY and len(s.a[2]) == 1 and s.a[2][0].op == "each" and len(s.a[2][0].a[2]) == 1 and s.a[2][0].a[2][0].op == "app":
            L, g, (o,) = s.a[2][0].a
            v = o.a[0]
            c = anyiter(L, g)
            fv = mk("firstval", L, g, v) if L in free(v) else v
            if len(args) > 1:
                return phi(c, fv, args[1])
            return fv
        if s.op == "log" and s.a[2] and s.a[2][0].op == "app":
            return s.a[2][0].a[0]
        return mk("call", "next", tuple(self.snap(a, st.m) for a in args), ())

    def reduce_(self, args, st, fr, node):
        f, it = args[0], args[1]
        s = self.snap(it, st.m)
        if len(args) == 3:
            loc = ("V", fr.fid, f"$red{self.tmp()}")
            st.m[loc] = args[2]

            def body(s2, v, p):
                s2.m[loc] = self.call(f, [s2.m[loc], v], {}, s2, fr, node)
                return s2
            self.loop_over(it, st, fr, node, body)
            return st.m.pop(loc)
        return mk("call", "functools.reduce", (self.lam(f, 2, st, fr, node), s), ())


class Interp(ExtMixin, ExprMixin, LoopMixin, InterpBase):
    pass
