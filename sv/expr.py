"""Expressions, containers and calls."""
import ast

from .terms import *
from .load import Func, Class, Module
from .interp import (API, ARR, BUILTINS, FRESH_EXT, Frame, G_ALIAS, LoopCtx, MUTATORS, SELF, St, UNBOUND, equiv_safe, implies_quick, is_in, locT)
from .loops import LEN, SUM, cnt_ops

LIST_ATTR_TYPES = {"_model": "PhysicalModel"}


def apart(op, key):
    """the recorded change does not concern the key"""
    if op.op == "app":
        return distinct(op.a[0], key)
    if op.op == "each":
        return all(apart(o, key) for o in op.a[2])
    if op.op == "if":
        return all(apart(o, key) for o in op.a[1] + op.a[2])
    return False


def distinct(a, b):
    if a is b:
        return False
    if isconst(a) and isconst(b):
        return True
    for x, y in ((a, b), (b, a)):
        if x.op == "strcat" and y.op == "str":
            if x.a[0].op == "str" and not y.a[0].startswith(x.a[0].a[0]):
                return True
            if x.a[-1].op == "str" and not y.a[0].endswith(x.a[-1].a[0]):
                return True
        if x.op == "tuple" and y.op in ("str", "num"):
            return True
        if x.op == "poly" and y.op == "num" and False:
            return True
    return False


class ExprMixin:
    # ------------------------------------------------------------ names
    def scope_lookup(self, name, st, fr):
        f = fr
        while f is not None:
            v = st.m.get(("V", f.fid, name))
            if v is not None:
                return v
            f = f.parent
        return None

    def setvar(self, name, v, st, fr):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and ("V", f.fid, name) not in st.m:
                f = f.parent
            f = f or fr
        if name in fr.globals:
            self.emit("setglobal", None, st, fr, key=name, val=v)
        st.m[("V", f.fid, name)] = v

    def ev_name(self, name, st, fr, node=None):
        v = self.scope_lookup(name, st, fr)
        if v is not None:
            return self.defined(v, st, fr, node, name)
        return self.global_name(name, fr.mod, st, fr)

    def defined(self, v, st, fr, node, what):
        """a read that fails when the value is missing: the failure becomes part of the raising condition"""
        if v.op != "phi":
            return v
        c, r = self.unbound_when(v)
        if c is FALSE:
            return v
        if r is None:
            return v
        ok = NOT(c)
        self.missing_read(c, what, st, fr, node)
        return r

    def missing_read(self, c, what, st, fr, node):
        try:
            possible = sat(AND(st.reach, st.valid, c)) is not None
        except TooBig:
            possible = True
        if possible:
            s2 = st.copy()
            s2.reach = AND(st.reach, c)
            self.emit("raise", node, s2, fr, val=mk("call", "UnboundError", (S(str(what)),), ()))
            st.valid = AND(st.valid, OR(NOT(st.reach), NOT(c)))

    def unbound_when(self, v):
        """condition under which a gated value is unbound, and the value otherwise"""
        if v is UNBOUND:
            return TRUE, None
        if v.op != "phi":
            return FALSE, v
        c1, r1 = self.unbound_when(v.a[1])
        c2, r2 = self.unbound_when(v.a[2])
        if c1 is FALSE and c2 is FALSE:
            return FALSE, v
        c = OR(AND(v.a[0], c1), AND(NOT(v.a[0]), c2))
        r = r2 if r1 is None else r1 if r2 is None else phi(v.a[0], r1, r2)
        return c, r

    def global_name(self, name, mod, st=None, fr=None):
        d = mod.defs.get(name)
        if d is None:
            if name in BUILTINS:
                return mk("g", name)
            if name == "__name__":
                return S(mod.name)
            return mk("g", name)
        if d[0] == "import":
            return self.resolve_dotted(d[1])
        if d[0] == "func":
            return self.fnT(d[1])
        if d[0] == "class":
            return mk("cls", d[1].name)
        return self.module_const(d[1], mod)

    def module_const(self, expr, mod):
        key = ("mc", id(expr))
        if key in self.children:
            return self.children[key]
        st = St({}, TRUE, TRUE)
        fr = Frame(None, mod, None)
        self.quiet += 1
        try:
            v = self.ev(expr, st, fr)
            v = self.snap(v, st.m)
        finally:
            self.quiet -= 1
        self.children[key] = v
        return v

    def fnT(self, f):
        t = mk("fn", f.mod.name + ":" + f.qual)
        self.closures[t] = (f, None, None)
        return t

    def resolve_dotted(self, dotted):
        r = self.repo.resolve(dotted)
        if r[0] == "mod":
            return mk("mod", r[1].name)
        if r[0] == "class":
            return mk("cls", r[1].name)
        if r[0] == "func":
            return self.fnT(r[1])
        if r[0] == "const":
            return self.module_const(r[1], r[2])
        return self.ext(r[1])

    def ext(self, d):
        d = G_ALIAS.get(d, d)
        if d.startswith("pyqubo.core."):
            d = "pyqubo." + d.split(".")[-1]
        if d in ("numpy.nan", "math.nan"):
            return NAN
        return mk("g", d)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, fr, node, loopvar=False):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            sv = v
            if v.op == "ref":
                q = self.snap(v, st.m)
                if q.op == "log" and q.a[1] is EMPTY and all(o.op == "app" for o in q.a[2]):
                    sv = mk("tuple", *[o.a[0] for o in q.a[2]])
            if not star:
                for i, x in enumerate(t.elts):
                    if sv.op == "tuple" and len(sv.a) == n:
                        e = sv.a[i]
                    else:
                        e = self.getitem(sv, num(i), st, fr, node)
                    self.assign(x, e, st, fr, node, loopvar)
            else:
                k = star[0]
                for i, x in enumerate(t.elts):
                    if i < k:
                        e = sv.a[i] if sv.op == "tuple" and i < len(sv.a) else self.getitem(sv, num(i), st, fr, node)
                    elif i == k:
                        x = x.value
                        if sv.op == "tuple":
                            e = self.new("list")
                            st.m[("C", e)] = mk("log", "list", EMPTY, tuple(mk("app", y) for y in sv.a[k: len(sv.a) - (n - k - 1)]))
                        else:
                            hi = NONE if k == n - 1 else num(k + 1 - n)
                            e = mk("slice", sv, num(k), hi, NONE)
                    else:
                        e = self.getitem(sv, num(i - n), st, fr, node)
                    self.assign(x, e, st, fr, node, loopvar)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, st, fr), t.attr, v, st, fr, node)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st, fr)
            key = self.ev_slice(t.slice, st, fr)
            self.setitem(obj, key, v, st, fr, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)
        else:
            self.note("unsupported assignment target", node, fr)

    def on_phi(self, obj, st, f):
        """apply an update to a gated object: f(obj, st)"""
        c, a, b = obj.a

        def go(o):
            def g(s):
                f(o, s)
                return s
            return g
        r = self.branch(c, st, go(a), go(b))
        if r is not None and r is not st:
            st.m, st.valid = r.m, r.valid

    def setattr_(self, obj, name, v, st, fr, node):
        if obj.op == "phi":
            return self.on_phi(obj, st, lambda o, s: self.setattr_(o, name, v, s, fr, node))
        self.emit("setattr", node, st, fr, obj=obj, key=name, val=v)
        st.m[("A", obj, name)] = v

    def setitem(self, obj, key, v, st, fr, node, aug=None, cur=None):
        if obj.op == "phi":
            return self.on_phi(obj, st, lambda o, s: self.setitem(o, key, v if cur is None or aug is None else self.binop_name(aug[0], self.getitem(o, key, s, fr, node), aug[1], s, fr, node), s, fr, node, aug=aug, cur=self.getitem(o, key, s, fr, node) if cur is not None else None))
        if key.op == "phi" and isconst(key.a[1]) and isconst(key.a[2]):
            return self.on_phi(key, st, lambda k, s: self.setitem(obj, k, v, s, fr, node, aug=aug, cur=cur))
        lg = self.content(obj, st.m)
        self.emit("setitem", node, st, fr, obj=obj, key=key, val=v, aug=aug)
        if key.op == "slicek":
            if all(x is NONE for x in key.a):
                st.m[("C", obj)] = mk("log", lg.a[0], EMPTY, (mk("ext", self.snap(v, st.m)),))
            else:
                st.m[("C", obj)] = mk("log", lg.a[0], lg.a[1], lg.a[2] + (mk("set", key, v),))
            return
        op = None
        dd = self.objs.get(obj, {}).get("dd")
        if aug is not None and aug[0] == "Add" and cur is not None and (cur.op == "item") and not self._resolved(lg, key):
            op = mk("acc0" if dd else "acc", key, aug[1])
        elif v.op == "poly" or v.op in ("item", "get"):
            cands = [x for m, c in v.a[0] for x, e in m if c == 1 and e == 1 and len(m) == 1] if v.op == "poly" else [v]
            me = self.logval(lg)
            for x in cands:
                if x.op == "item" and x.a[0] is me and x.a[1] is key:
                    d = psub(v, x)
                    if x not in set(subterms(d)):
                        op = mk("acc0" if dd else "acc", key, d)
                if x.op == "get" and x.a[0] is me and x.a[1] is key and x.a[2] is ZERO:
                    d = psub(v, x)
                    if x not in set(subterms(d)):
                        op = mk("acc0", key, d)
        if op is None:
            # gated accumulation:  d[k] = d[k] + x if k in d else x
            if v.op == "phi":
                me = self.logval(lg)
                it = mk("item", me, key)
                if is_in(v.a[0], key, me) and psub(v.a[1], v.a[2]) is it:
                    op = mk("acc0", key, v.a[2])
        if op is None and v.op == "poly":
            me = self.logval(lg)
            for m, c in v.a[0]:
                for x, e in m:
                    if c == 1 and e == 1 and len(m) == 1 and x.op == "phi" and x.a[2] is ZERO and is_in(x.a[0], key, me) and x.a[1] is mk("item", me, key):
                        op = mk("acc0", key, psub(v, x))
        if op is None:
            op = mk("set", key, v)
        st.m[("C", obj)] = mk("log", lg.a[0], lg.a[1], self.norm_ops(lg.a[2] + (op,)))

    def _resolved(self, lg, key):
        for o in reversed(lg.a[2]):
            if o.op == "set" and o.a[0] is key:
                return True
            return False
        return False

    # ------------------------------------------------------------ attribute / item reads
    def typeof(self, t):
        o = self.objs.get(t)
        if o is not None and o["cls"]:
            return o["cls"]
        if t in self.types:
            return self.types[t]
        if t.op == "at":
            return self.typeof(t.a[0])
        if t.op == "attr" and t.a[1] in LIST_ATTR_TYPES:
            return LIST_ATTR_TYPES[t.a[1]]
        if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] == "_constraints":
            return self.constraint_cls
        if (t.op == "item" and t.a[0].op in ("mu", "out") and len(t.a[0].a) > 1 and getattr(t.a[0].a[1], "op", None) == "locA"
                and t.a[0].a[1].a[1] == "_constraints"):
            return self.constraint_cls
        if t.op == "api" and t.a[0].endswith("to_model"):
            return "LogicalModel"
        if t.op == "callv" and t.a[0].op == "p" and t.a[0].a[0] == "map_fn":
            return "LogicalModel"       # map functions return a model
        if t.op == "phi":
            a, b = self.typeof(t.a[1]), self.typeof(t.a[2])
            return a if a == b else None
        return None

    def getattr_(self, obj, name, st, fr, node):
        op = obj.op
        if op == "mod":
            r = self.repo.resolve(obj.a[0] + "." + name)
            if r[0] == "ext":
                return mk("g", obj.a[0] + "." + name)
            return self.resolve_dotted(obj.a[0] + "." + name)
        if op == "g":
            return self.ext(obj.a[0] + "." + name)
        if op == "phi":
            return phi(obj.a[0], self.getattr_(obj.a[1], name, st, fr, node), self.getattr_(obj.a[2], name, st, fr, node))
        if op == "cls":
            if name == "__name__":
                return S(obj.a[0].split(".")[-1])
            c = self.repo.classes.get(obj.a[0])
            if c is not None:
                for x in self.repo.mro(c):
                    if name in x.methods:
                        f = x.methods[name]
                        if f.clsm:
                            return mk("bm", obj, self.fnT(f))
                        return self.fnT(f)
                    if name in x.attrs:
                        return self.module_const(x.attrs[name], x.mod)
                    if name in x.inner:
                        return mk("cls", x.inner[name].name)
            return mk("attr", obj, name)
        if op == "row":
            if name == "name" and False:
                pass
            if name in ("Index",):
                return mk("idx", obj.a[1])
            return mk("item", mk("item", obj.a[0], S(name)), mk("idx", obj.a[1]))
        if op == "df":
            if name == "index":
                return mk("dfindex", obj)
            if name == "loc":
                return mk("dfloc", obj)
            if name in ("empty", "columns", "shape", "values", "iloc", "at", "iat"):
                return mk("attr", obj, name)
            return mk("proj", obj, name)
        if op == "proj" and name in ("values", "array"):
            return obj
        if op == "dfindex" and name == "values":
            return obj
        if op == "super":
            f = self.super_method(obj, name)
            if f is not None:
                return mk("bm", obj.a[1], self.fnT(f))
            return mk("attr", obj, name)
        if name == "__class__":
            return mk("classof", obj)
        if name == "__name__" and op == "classof":
            cn = self.typeof(obj.a[0])
            if cn and (obj.a[0] is not SELF or not self.repo.subclasses(self.repo.classes[cn])):
                return S(cn)
            return mk("classname", obj.a[0])
        if name == "__name__" and op in ("fn", "clo"):
            f = self.closures.get(obj)
            return S(f[0].name) if f else mk("attr", obj, name)
        # representation of a quadratic interaction: the labels of its variables are its keys
        if name == "label" and op == "item" and obj.a[1].op == "num" and obj.a[1].a[0] in (0, 1) and obj.a[0].op == "item" and is_col(obj.a[0].a[0]) == "interacts":
            return mk("item", mk("item", obj.a[0].a[0].a[0], S(f"key_{obj.a[1].a[0]}")), obj.a[0].a[1])
        loc = ("A", obj, name)
        if loc in st.m:
            return st.m[loc]
        cn = self.typeof(obj)
        if cn is not None:
            c = self.repo.classes.get(cn)
            if c is not None:
                f = self.repo.find_method(c, name)
                if f is not None:
                    if f.prop:
                        return self.inline(f, [obj], {}, st, fr, node, obj)
                    return mk("bm", obj, self.fnT(f)) if not f.static else self.fnT(f)
                for x in self.repo.mro(c):
                    if name in x.attrs:
                        return self.module_const(x.attrs[name], x.mod)
                    if name in x.inner:
                        return mk("cls", x.inner[name].name)
        v = self.read(st, loc)
        if v.op == "unset":
            v = mk("attr", obj, name)
        return v

    def super_method(self, sup, name):
        c = self.repo.classes.get(sup.a[0])
        if c is None:
            return None
        # MRO of the dynamic class if known, starting after the lexical class
        dyn = self.repo.classes.get(self.typeof(sup.a[1]) or "")
        m = self.repo.mro(dyn) if dyn is not None else self.repo.mro(c)
        if c in m:
            m = m[m.index(c) + 1:]
        else:
            m = self.repo.mro(c)[1:]
        for x in m:
            if name in x.methods:
                return x.methods[name]
        return None

    def ev_slice(self, s, st, fr):
        if isinstance(s, ast.Slice):
            g = lambda e: self.ev(e, st, fr) if e is not None else NONE
            return mk("slicek", g(s.lower), g(s.upper), g(s.step))
        return self.ev(s, st, fr)

    def getitem(self, obj, key, st, fr, node):
        if obj.op == "phi":
            return phi(obj.a[0], self.getitem(obj.a[1], key, st, fr, node), self.getitem(obj.a[2], key, st, fr, node))
        if key.op == "ref":
            key = self.snap(key, st.m)
        if key.op == "phi" and (isconst(key.a[1]) or isconst(key.a[2])):
            return phi(key.a[0], self.getitem(obj, key.a[1], st, fr, node), self.getitem(obj, key.a[2], st, fr, node))
        if key.op == "slicek":
            v = self.snap(obj, st.m)
            lo, hi, stp = key.a
            if v.op == "tuple" and all(x is NONE or x.op == "num" for x in key.a):
                sl = slice(*[None if x is NONE else int(x.a[0]) for x in key.a])
                return mk("tuple", *v.a[sl])
            if v.op == "str" and all(x is NONE or x.op == "num" for x in key.a):
                sl = slice(*[None if x is NONE else int(x.a[0]) for x in key.a])
                return S(v.a[0][sl])
            if lo is NONE and hi is NONE and (stp is NONE or stp is ONE):
                return self.shallow(obj, st, kind(v) or "list")
            if lo is NONE and hi is NONE and stp.op == "num" and stp.a[0] == -1:
                return mk("rev", v)
            if lo is ZERO:
                lo = NONE
            return mk("slice", v, lo, hi, stp)
        tl = st.m.get(("C", mk("touch", obj)))
        if tl is not None and (tl.a[1] is not EMPTY or not all(apart(o, key) for o in tl.a[2])):
            # some element was changed through a computed key
            b = tl.a[1]
            t = mk("touched", self.snap(obj, st.m), mk("idx", b.a[0]) if b.op == "mu" and not tl.a[2] else self.snap(self.logval(tl), st.m))
            self.owner[t] = obj
            return mk("item", t, key)
        if obj.op == "ref" or ("C", obj) in st.m:
            lg = self.content(obj, st.m)
            r = self.log_lookup(lg, key, st, fr, node, obj)
            if r is not None:
                return self.defined(r, st, fr, node, key)
            if obj.op == "ref" or lg.a[2]:
                return mk("item", self.snap(self.logval(lg), st.m), key)
        return self.item0(obj, key, st)

    def log_lookup(self, lg, key, st, fr, node, obj=None):
        k, base, ops = lg.a
        # literal sequences
        if base is EMPTY and key.op == "num" and ops and all(o.op == "app" for o in ops):
            i = int(key.a[0])
            if -len(ops) <= i < len(ops):
                return ops[i].a[0]
        n = len(ops)
        while n > 0:
            o = ops[n - 1]
            if o.op == "set":
                if o.a[0] is key:
                    return o.a[1]
                if distinct(o.a[0], key):
                    n -= 1
                    continue
                return None
            if o.op in ("acc", "acc0"):
                if distinct(o.a[0], key):
                    n -= 1
                    continue
                return None
            if o.op == "app":
                if key.op == "num" and key.a[0] == -1 and n == len(ops):
                    return o.a[0]
                if key.op == "str":
                    n -= 1
                    continue
                return None
            if o.op == "if":
                A = mk("log", k, base, ops[:n - 1] + o.a[1])
                B = mk("log", k, base, ops[:n - 1] + o.a[2])
                ra = self.log_lookup(A, key, st, fr, node, obj)
                rb = self.log_lookup(B, key, st, fr, node, obj)
                if ra is None and base is EMPTY and self._known_missing(A, key):
                    ra = UNBOUND
                if rb is None and base is EMPTY and self._known_missing(B, key):
                    rb = UNBOUND
                if ra is None or rb is None:
                    return None
                return phi(o.a[0], ra, rb)
            if o.op == "upd":
                X = o.a[0]
                if X.op == "log":
                    r = self.log_lookup(X, key, st, fr, node)
                    if r is not None:
                        return r
                return None
            if o.op == "each" and len(o.a[2]) == 1 and o.a[2][0].op == "set" and key.op == "str":
                kk = o.a[2][0].a[0]
                if distinct(kk, key):
                    n -= 1
                    continue
            return None
        if base is EMPTY:
            return None
        if obj is not None and obj.op == "ref" and self.objs[obj]["deep"]:
            ck = (obj, key)
            if ck not in self.children:
                self.children[ck] = self.new(None, self.item0(base, key, st), deep=True)
                self.childof[self.children[ck]] = (obj, key, "item")
            return self.children[ck]
        return self.item0(base, key, st)

    def _known_missing(self, lg, key):
        return lg.a[0] == "dict" and isconst(key) and all(o.op == "set" and distinct(o.a[0], key) for o in lg.a[2])

    def item0(self, X, key, st=None):
        if X.op == "tuple" and key.op == "num":
            i = int(key.a[0])
            if -len(X.a) <= i < len(X.a):
                return X.a[i]
        if X.op == "log":
            r = self.log_lookup(X, key, st, None, None)
            if r is not None:
                return r
        if X.op == "phi":
            return phi(X.a[0], self.item0(X.a[1], key, st), self.item0(X.a[2], key, st))
        if X.op == "row" and key.op == "str":
            return mk("item", mk("item", X.a[0], key), mk("idx", X.a[1]))
        if X.op == "df":
            if key.op == "str":
                return mk("proj", X, key.a[0])
            if key.op in BOOLOPS or key.op in ("dfmask",):
                return mk("df", X.a[0], AND(X.a[1], self.mask(key)))
        if X.op == "dfloc":
            df = X.a[0]
            if key.op in BOOLOPS:
                return mk("df", df.a[0], AND(df.a[1], self.mask(key)))
            if key.op == "tuple" and len(key.a) == 2 and key.a[1].op == "str" and key.a[0].op in BOOLOPS:
                return mk("proj", mk("df", df.a[0], AND(df.a[1], self.mask(key.a[0]))), key.a[1].a[0])
        if X.op == "proj" and key.op in BOOLOPS:
            df = X.a[0]
            return mk("proj", mk("df", df.a[0], AND(df.a[1], self.mask(key))), X.a[1])
        if X.op == "str" and key.op == "num" and -len(X.a[0]) <= key.a[0] < len(X.a[0]):
            return S(X.a[0][int(key.a[0])])
        if key.op == "index" and key.a[0] is X:
            return key.a[1]
        # a row found by its own name (names are unique)
        if key.op == "index" and X.op == "item" and X.a[1].op == "str" and is_array(X.a[0]):
            n, s = key.a
            if n.op == "item" and n.a[0] is X.a[0] and n.a[1] is S("name") and s.op == "item" and s.a[0] is n:
                key = s.a[1]
        if key.op == "kth" and key.a[0] is X:
            return mk("vth", X, key.a[1])
        if X.op == "rangev" and X.a[2] is ONE:
            return padd(X.a[0], key)
        if X.op == "with":
            pass
        # value of a compiled PyQUBO expression with the fake variable: the resolved constant
        if X.op == "mcall" and X.a[1] == "to_qubo" and key is ONE:
            r = self.pyqubo_resolve(X)
            if r is not None:
                return r
        return mk("item", X, key)

    def mask(self, m):
        """boolean series over a DataFrame -> predicate over ('colref', name)"""
        def f(t):
            if t.op == "proj":
                return mk("colref", t.a[1])
            return None
        return cond(mapterm(m, f))

    def pyqubo_resolve(self, X):
        c = X.a[0]
        kw = dict(X.a[3])
        ph = kw.get("feed_dict") or (X.a[2][0] if X.a[2] else NONE)
        if c.op == "mcall" and c.a[1] == "compile":
            e = c.a[0]
            if e.op == "poly":
                for m, k in e.a[0]:
                    if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "call" and m[0][0].a[0] in ("pyqubo.Binary", "pyqubo.Spin"):
                        if m[0][0].a[0] == "pyqubo.Binary":
                            return self.resolve_t(psub(e, m[0][0]), ph)
        return None

    def resolve_t(self, x, ph):
        if x.op == "num":
            return x
        return mk("resolve", x, ph)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            self.note("unsupported expression " + type(e).__name__, e, fr)
            return mk("opq", type(e).__name__)
        return f(e, st, fr)

    def evc(self, e, st, fr):
        return self.condv(self.ev(e, st, fr), st)

    def condv(self, v, st):
        return cond(self.snap(v, st.m))

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return mk("g", "Ellipsis")
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.ev_name(e.id, st, fr, e)

    def e_Attribute(self, e, st, fr):
        obj = self.ev(e.value, st, fr)
        return self.getattr_(obj, e.attr, st, fr, e)

    def e_Subscript(self, e, st, fr):
        obj = self.ev(e.value, st, fr)
        key = self.ev_slice(e.slice, st, fr)
        return self.getitem(obj, key, st, fr, e)

    def e_Tuple(self, e, st, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.snap(self.ev(x.value, st, fr), st.m)
                if v.op == "tuple":
                    out.extend(v.a)
                elif v.op == "log" and v.a[1] is EMPTY and all(o.op == "app" for o in v.a[2]):
                    out.extend(o.a[0] for o in v.a[2])
                else:
                    return mk("opq", "startuple", v)
            else:
                out.append(self.ev(x, st, fr))
        return mk("tuple", *out)

    def e_List(self, e, st, fr):
        ops = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ops.extend(self.splice(self.ev(x.value, st, fr), st))
            else:
                ops.append(mk("app", self.ev(x, st, fr)))
        return self.fresh("list", ops, st)

    def fresh(self, k, ops, st, base=EMPTY):
        r = self.new(k, base)
        if ops:
            st.m[("C", r)] = mk("log", k, base, self.norm_ops(tuple(ops)))
        return r

    def splice(self, v, st):
        s = pairkey(self.snap(v, st.m))
        if s.op == "log" and s.a[1] is EMPTY and s.a[0] in ("list", None):
            return list(s.a[2])
        if s.op == "tuple":
            return [mk("app", x) for x in s.a]
        return [mk("ext", s)]

    def e_Set(self, e, st, fr):
        ops = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ops.append(mk("ext", self.snap(self.ev(x.value, st, fr), st.m)))
            else:
                ops.append(mk("add", self.ev(x, st, fr)))
        return self.fresh("set", ops, st)

    def e_Dict(self, e, st, fr):
        ops = []
        base = EMPTY
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.snap(self.ev(v, st, fr), st.m)
                if d.op == "log" and d.a[1] is EMPTY and d.a[0] == "dict":
                    ops.extend(d.a[2])
                elif not ops and base is EMPTY:
                    base = d
                else:
                    ops.append(mk("upd", d))
            else:
                ops.append(mk("set", self.ev(k, st, fr), self.ev(v, st, fr)))
        return self.fresh("dict", ops, st, base)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(S(v.value))
            else:
                x = self.snap(self.ev(v.value, st, fr), st.m)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    x = mk("fmt", x, ast.unparse(v.format_spec) if v.format_spec is not None else "", v.conversion)
                parts.append(self.tostr(x))
        return strcat(*parts)

    def tostr(self, x):
        if x.op == "str":
            return x
        if x.op == "phi" and x.a[1].op == "str" and x.a[2].op == "str":
            return x
        if x.op == "num":
            return mk("call", "str", (x,), ())
        return x

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        f = fr
        while f.func is None and f.parent is not None:
            f = f.parent
        self.setvar(e.target.id, v, st, f)
        return v

    def e_IfExp(self, e, st, fr):
        c = self.evc(e.test, st, fr)
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        res = {}

        def go(x, n):
            def f(s):
                res[n] = self.ev(x, s, fr)
                return s
            return f
        if implies_quick(st.reach, c):
            return self.ev(e.body, st, fr)
        if implies_quick(st.reach, NOT(c)):
            return self.ev(e.orelse, st, fr)
        r = self.branch(c, st, go(e.body, 0), go(e.orelse, 1))
        if r is not None and r is not st:
            st.m, st.valid = r.m, r.valid
        a, b = res.get(0), res.get(1)
        if a is None or b is None:
            return a or b or NONE
        return self.join2(c, a, b, st)

    def join2(self, c, a, b, st):
        ia, ib = self.objs.get(a), self.objs.get(b)
        if ia and ib and ia["cls"] is None and ib["cls"] is None and not ia["deep"] and not ib["deep"]:
            used = set(st.m.values())
            if a not in used and b not in used:
                j = self.new(ia["kind"] or ib["kind"])
                st.m[("C", j)] = self.merge_log(c, self.content(a, st.m), self.content(b, st.m))
                return j
        return phi(c, a, b)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        r0 = st.reach
        vals = []
        acc = []
        for x in e.values:
            v = self.ev(x, st, fr)
            vals.append((v, self.condv(v, st)))
            c = vals[-1][1]
            st.reach = AND(st.reach, c if isand else NOT(c))
        st.reach = r0
        if all(kind(v) == "bool" or v.op in BOOLOPS for v, c in vals):
            return AND(*[c for _, c in vals]) if isand else OR(*[c for _, c in vals])
        r = vals[-1][0]
        for v, c in reversed(vals[:-1]):
            r = phi(c, r, v) if isand else phi(c, v, r)
        return r

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return NOT(self.condv(v, st))
        v = self.snap(v, st.m)
        if isinstance(e.op, ast.USub):
            return pneg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if v.op in BOOLOPS:
                return NOT(v)
            return mk("call", "invert", (v,), ())
        return mk("opq", "unary")

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, fr, e)

    def binop_name(self, name, a, b, st, fr, node):
        return self.binop(getattr(ast, name)(), a, b, st, fr, node)

    def is_pipeline(self, t):
        if t.op == "pipe":
            return self.is_pipeline(t.a[0])
        if t.op == "phi":
            return self.is_pipeline(t.a[1]) or self.is_pipeline(t.a[2])
        return t.op == "call" and t.a[0] == "apache_beam.Pipeline"

    def binop(self, op, a, b, st, fr, node):
        if isinstance(op, ast.BitOr):
            A, B = self.snap(a, st.m), self.snap(b, st.m)
            if A.op in BOOLOPS and B.op in BOOLOPS:
                return OR(A, B)
            if self.is_setlike(A) or self.is_setlike(B):
                return self.setop("|", A, B)
            if kind(A) == "dict" or kind(B) == "dict":
                return self.fresh("dict", list(A.a[2]) + self.upd_ops(B) if A.op == "log" else self.upd_ops(B), st, EMPTY if A.op == "log" and A.a[1] is EMPTY else A)
            if A.op == "log" and A.a[0] == "list" or B.op == "log" and B.a[0] == "list":
                return mk("pipe", A, B)
            xs = []
            for x in (A, B):
                xs.extend(x.a if x.op == "pipe" else [x])
            if self.is_pipeline(A):
                # applying a stage changes the pipeline, whatever becomes of the result
                for i in range(len(A.a) if A.op == "pipe" else 1, len(xs)):
                    self.trace("pipe", mk("pipe", *xs[:i + 1]), st)
            return mk("pipe", *xs)
        if isinstance(op, ast.RShift):
            B = self.snap(b, st.m)
            A = self.snap(a, st.m)
            if A.op in ("str", "strcat"):
                return B
            if A.op == "num" and B.op == "num":
                return num(int(A.a[0]) >> int(B.a[0]))
            return mk("call", "rshift", (A, B), ())
        A, B = self.snap(a, st.m), self.snap(b, st.m)
        if isinstance(op, ast.BitAnd):
            if A.op in BOOLOPS and B.op in BOOLOPS:
                return AND(A, B)
            return self.setop("&", A, B)
        if isinstance(op, ast.Add):
            ka, kb = kind(A), kind(B)
            if "str" in (ka, kb) or A.op == "strcat" or B.op == "strcat":
                return strcat(A, B)
            if ka == "tuple" or kb == "tuple":
                if A.op == "tuple" and B.op == "tuple":
                    return mk("tuple", *(A.a + B.a))
                return mk("tcat", A, B)
            if ka == "list" or kb == "list":
                return self.fresh("list", self.splice(a, st) + self.splice(b, st), st)
            return padd(A, B)
        if isinstance(op, ast.Sub):
            if self.is_setlike(A) or self.is_setlike(B):
                return self.setop("-", A, B)
            return psub(A, B)
        if isinstance(op, ast.Mult):
            for x, y in ((A, B), (B, A)):
                if x.op == "log" and x.a[0] == "list" and x.a[1] is EMPTY and all(o.op == "app" for o in x.a[2]):
                    return self.fresh("list", [mk("rep", tuple(o.a[0] for o in x.a[2]), y)], st)
                if x.op == "str":
                    return mk("call", "repeat", (x, y), ())
            return pmul(A, B)
        if isinstance(op, ast.Div):
            return pdiv(A, B)
        if isinstance(op, ast.Pow):
            if B.op == "num" and B.a[0].denominator == 1 and 0 <= B.a[0] <= 6:
                return ppow(A, int(B.a[0]))
            if B.op == "num" and B.a[0] == -1:
                return pinv(A)
            if A.op == "num" and B.op == "num" and B.a[0].denominator == 1 and abs(B.a[0]) < 64:
                return num(A.a[0] ** int(B.a[0]))
            if A is mk("g", "math.e"):
                return mk("call", "math.exp", (B,), ())
            return mk("call", "pow", (A, B), ())
        if isinstance(op, ast.FloorDiv):
            if A.op == "num" and B.op == "num" and B.a[0]:
                return num(A.a[0] // B.a[0])
            return mk("call", "floordiv", (A, B), ())
        if isinstance(op, ast.Mod):
            if A.op == "str":
                return mk("fmt", A, B)
            return mk("call", "mod", (A, B), ())
        if isinstance(op, ast.BitXor) and A.op in BOOLOPS and B.op in BOOLOPS:
            return NOT(EQ(A, B))
        return mk("call", type(op).__name__.lower(), (A, B), ())

    def upd_ops(self, d):
        if d.op == "log" and d.a[1] is EMPTY and d.a[0] == "dict":
            return list(d.a[2])
        return [mk("upd", d)]

    def is_setlike(self, t):
        return kind(t) == "set" or t.op in ("setop", "keys") or (t.op == "call" and t.a[0] in ("set", "frozenset"))

    def setop(self, op, a, b):
        def norm(x):
            if x.op == "call" and x.a[0] in ("set", "frozenset", "list", "tuple") and len(x.a[1]) == 1:
                return x.a[1][0]
            if x.op == "keys":
                return x.a[0]
            if x.op == "log" and x.a[0] in ("set", "list") and x.a[1] is EMPTY and len(x.a[2]) == 1 and x.a[2][0].op == "ext":
                return x.a[2][0].a[0]
            return x
        a, b = norm(a), norm(b)
        if op in "|&" and a.n > b.n:
            a, b = b, a
        t = mk("setop", op, a, b)
        KIND_TERM.setdefault(t, "set")
        return t

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            q = None
            if isinstance(op, (ast.Eq, ast.NotEq)) and right is not NONE and left.op != "phi":
                q = self.class_eq(op, left, right, st, fr, e)
            out.append(self.compare(op, left, right, st) if q is None else q)
            left = right
        return AND(*out)

    def class_eq(self, op, a, b, st, fr, node):
        """comparison of an object of the repository by its own equality"""
        cn = self.typeof(a)
        c = self.repo.classes.get(cn) if cn else None
        f = self.repo.find_method(c, "__eq__") if c is not None else None
        if f is None or len(self.callstack) > 20:
            return None
        v = self.method_call(a, "__eq__", [b], {}, st, fr, node)
        return cond(v) if isinstance(op, ast.Eq) else NOT(cond(v))

    def compare(self, op, a, b, st):
        A, B = self.snap(a, st.m), self.snap(b, st.m)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if A.op in ("log", "proj") or B.op in ("log", "proj"):
                c = self.eq_containers(A, B)
            else:
                c = EQ(A, B)
            return c if isinstance(op, ast.Eq) else NOT(c)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if B is NONE or A is NONE:
                c = ISNONE(A if B is NONE else B)
            elif B.op == "bool" and (kind(A) == "bool"):
                c = EQ(A, B)
            elif B.op == "bool":
                c = mk("is", A, B)
            elif A.op in ("g", "cls") or B.op in ("g", "cls"):
                c = EQ(A, B)
            elif a is b:
                c = TRUE
            else:
                c = mk("is", a, b)
            return c if isinstance(op, ast.Is) else NOT(c)
        if isinstance(op, ast.Lt):
            return LT(A, B)
        if isinstance(op, ast.Gt):
            return LT(B, A)
        if isinstance(op, ast.LtE):
            return self.LE(A, B)
        if isinstance(op, ast.GtE):
            return self.LE(B, A)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = IN(A, B)
            return c if isinstance(op, ast.In) else NOT(c)
        return mk("callb", type(op).__name__, A, B)

    def LE(self, a, b):
        p = psub(a, b) if not (kind(a) in ("str", "list", "tuple") or kind(b) in ("str", "list", "tuple")) else None
        if p is not None and kind(p) == "int":
            return lt0(psub(p, ONE))
        return NOT(LT(b, a))

    def eq_containers(self, A, B):
        for x, y in ((A, B), (B, A)):
            if x.op == "proj":
                # series comparison: elementwise
                return mk("eq", x, y) if not (y.op == "bool") else (cond(x) if y is TRUE else NOT(cond(x)))
        for x, y in ((A, B), (B, A)):
            if x.op == "log" and x.a[1] is EMPTY and not x.a[2]:
                return NOT(cond(y))
        if A is B:
            return TRUE
        if A.op == "log" and B.op == "log" and A.a[0] == B.a[0] == "list" and A.a[1] is EMPTY and B.a[1] is EMPTY and all(o.op == "app" for o in A.a[2] + B.a[2]):
            if len(A.a[2]) != len(B.a[2]):
                return FALSE
            return AND(*[EQ(x.a[0], y.a[0]) for x, y in zip(A.a[2], B.a[2])])
        return mk("eq", A, B) if A.n <= B.n else mk("eq", B, A)

    def e_Lambda(self, e, st, fr):
        f = Func(fr.mod, e, None)
        f.cls = fr.cls
        f.static = True
        f.qual = (fr.func.qual + "." if fr.func else "") + "<lambda>"
        c = mk("clo", id(e), fr.fid)
        self.closures[c] = (f, fr, self.eval_defaults(f, fr, st))
        return c

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        g = fr
        if g.yobj is not None:
            self.mutate(g.yobj, "append", [v], st, fr, e, silent=True)
        else:
            self.emit("yield", e, st, fr, val=v)
            self.trace("yield", mk("yield", self.snap(v, st.m)), st)
        return mk("opq", "sent")

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        if fr.yobj is not None:
            self.mutate(fr.yobj, "extend", [v], st, fr, e, silent=True)
            return NONE
        out = self.with_rl(fr, lambda: self.iterate(v, st, fr, e, lambda s, x, p: (self.emit("yield", e, s, fr, val=x), self.trace("yield", mk("yield", self.snap(x, s.m)), s), s)[2], ZERO))
        if out is not None and out is not st:
            st.m, st.reach, st.valid = out.m, out.reach, out.valid
        return NONE

    def with_rl(self, fr, f):
        self.rl_stack.append([fr, 0])
        try:
            return f()
        finally:
            self.rl_stack.pop()

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # ------------------------------------------------------------ comprehensions
    def comp(self, gens, st, fr, leaf, node):
        cf = Frame(None, fr.mod, fr.cls, parent=fr)
        cf.selfT = fr.selfT

        def go(i, s):
            if i == len(gens):
                leaf(s, cf)
                return s
            g = gens[i]
            it = self.ev(g.iter, s, cf if i else fr)

            def body(s2, v, pos):
                self.assign(g.target, v, s2, cf, node)

                def conds(j, s3):
                    if j == len(g.ifs):
                        return go(i + 1, s3)
                    c = self.evc(g.ifs[j], s3, cf)
                    return self.branch(c, s3, lambda x: conds(j + 1, x), lambda x: x)
                return conds(0, s2)
            return self.with_rl(cf, lambda: self.for_loop(it, s, cf, node, body))
        out = go(0, st)
        if out is not None and out is not st:
            st.m, st.valid = out.m, out.valid

    def e_ListComp(self, e, st, fr):
        r = self.new("list")
        self.comp(e.generators, st, fr, lambda s, cf: self.mutate(r, "append", [self.ev(e.elt, s, cf)], s, cf, e, silent=True), e)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        r = self.new("set")
        self.comp(e.generators, st, fr, lambda s, cf: self.mutate(r, "add", [self.ev(e.elt, s, cf)], s, cf, e, silent=True), e)
        return r

    def e_DictComp(self, e, st, fr):
        r = self.new("dict")

        def leaf(s, cf):
            k = self.ev(e.key, s, cf)
            v = self.ev(e.value, s, cf)
            lg = self.content(r, s.m)
            s.m[("C", r)] = mk("log", "dict", lg.a[1], lg.a[2] + (mk("set", self.snap(k, s.m), v),))
        self.comp(e.generators, st, fr, leaf, e)
        return r

    # ------------------------------------------------------------ mutation of containers
    def mutate(self, obj, meth, args, st, fr, node, silent=False, kw=None):
        if obj.op == "phi":
            self.on_phi(obj, st, lambda o, s: self.mutate(o, meth, args, s, fr, node, silent))
            return mk("opq", "mutphi")
        if obj.op in ("df", "proj"):
            return mk("mcall", obj, meth, tuple(args), ())
        if not silent:
            self.emit("mut", node, st, fr, obj=obj, meth=meth, args=tuple(args), kw=kw)
        lg = self.content(obj, st.m)
        k, base, ops = lg.a
        add = None
        ret = NONE
        if meth == "append":
            add = (mk("app", args[0]),)
            k = k or "list"
        elif meth == "add":
            add = (mk("add", args[0]),)
        elif meth == "extend":
            add = tuple(self.splice(args[0], st))
            k = k or "list"
        elif meth == "insert":
            add = (mk("insert", args[0], args[1]),)
            if args[0] is ZERO and base is EMPTY and not ops:
                add = (mk("app", args[1]),)
        elif meth == "update":
            if args:
                if k == "dict" or kind(obj) == "dict" or kind(self.snap(args[0], st.m)) == "dict":
                    add = tuple(self.upd_ops(self.snap(args[0], st.m)))
                else:
                    v = pairkey(self.snap(args[0], st.m))
                    add = tuple(mk("add", x) for x in v.a) if v.op == "tuple" else (mk("ext", v),)
            else:
                add = ()
            for n, v in (kw or {}).items():
                add += (mk("set", S(n), v),)
        elif meth == "clear":
            st.m[("C", obj)] = mk("log", k, EMPTY, ())
            return NONE
        elif meth == "pop":
            ret = mk("popped", self.snap(self.logval(lg), st.m), *args)
            if not args or (args[0].op == "num" and args[0].a[0] == -1):
                if ops and ops[-1].op == "app":
                    st.m[("C", obj)] = mk("log", k, base, ops[:-1])
                    return ops[-1].a[0]
            if args and k == "dict":
                r = self.log_lookup(lg, args[0], st, fr, node, obj)
                if r is not None:
                    ret = r
            add = (mk("pop", *args),)
        elif meth in ("remove", "discard"):
            add = (mk("rm", args[0]),)
        elif meth == "__delitem__":
            add = (mk("pop", args[0]),)
        elif meth == "setdefault":
            d = args[1] if len(args) > 1 else NONE
            cur = self.snap(self.logval(lg), st.m)
            c = IN(self.snap(args[0], st.m), cur)
            it = self.getitem(obj, args[0], st, fr, node)
            add = (mk("sd", args[0], d),)
            ret = phi(c, it, d)
        elif meth in ("difference_update",):
            v = self.setop("-", self.snap(self.logval(lg), st.m), self.snap(args[0], st.m))
            st.m[("C", obj)] = mk("log", k, v, ())
            return NONE
        elif meth in ("intersection_update",):
            v = self.setop("&", self.snap(self.logval(lg), st.m), self.snap(args[0], st.m))
            st.m[("C", obj)] = mk("log", k, v, ())
            return NONE
        elif meth == "sort":
            key, rev = (kw or {}).get("key"), (kw or {}).get("reverse")
            st.m[("C", obj)] = mk("log", k, self.sorted_t(self.snap(self.logval(lg), st.m), key, rev, st, fr, node), ())
            return NONE
        elif meth == "reverse":
            st.m[("C", obj)] = mk("log", k, mk("rev", self.snap(self.logval(lg), st.m)), ())
            return NONE
        else:
            add = (mk("mutop", meth, tuple(args)),)
        st.m[("C", obj)] = mk("log", k, base, self.norm_ops(ops + add))
        return ret

    def shallow(self, obj, st, k=None):
        v = self.snap(obj, st.m)
        if v.op == "log":
            r = self.new(k or v.a[0], v.a[1])
            st.m[("C", r)] = mk("log", k or v.a[0], v.a[1], v.a[2])
            return r
        return self.new(k or kind(v), v)

    def sorted_t(self, v, key, rev, st, fr, node):
        kt = self.lam(key, 1, st, fr, node) if key is not None and key is not NONE else NONE
        rv = rev if rev is not None else FALSE
        if kt is not NONE and kt.op == "lam" and kt.a[1] is mk("lp", 0):
            kt = NONE
        if v.op == "sorted" and v.a[1] is kt and v.a[2] is rv:
            return v
        # sorting makes the order of concatenation irrelevant
        if v.op == "log" and v.a[1] is EMPTY and v.a[0] == "list":
            v = mk("bag", *sorted((self.bag_part(o) for o in v.a[2]), key=lambda t: t.n))
        elif v.op == "log":
            v = mk("bag", *sorted([self.bag_part(mk("ext", v.a[1]))] + [self.bag_part(o) for o in v.a[2]], key=lambda t: t.n))
        return mk("sorted", v, kt, rv)

    def bag_part(self, o):
        if o.op == "ext" and o.a[0].op in ("sorted", "rev"):
            return self.bag_part(mk("ext", o.a[0].a[0])) if o.a[0].a[0].op != "bag" else mk("ext", o.a[0].a[0])
        return o

    # ------------------------------------------------------------ lambdas in canonical form
    def lam(self, f, n, st, fr, node):
        """canonical term of a callable of n parameters"""
        if f.op not in ("clo", "fn", "lam", "bm", "partialf"):
            return f
        if f.op == "lam":
            return f
        self.nlam += 1
        lvl = self.lamdepth
        self.lamdepth += 1
        ps = [mk("lp", i + 100 * lvl) for i in range(n)]
        s = st.copy()
        s.reach, s.valid = TRUE, TRUE
        ev0 = self.events
        tr0, oldr = self.trys, self.raised
        self.events = []
        self.trys = []
        self.raised = FALSE
        try:
            v = self.call(f, ps, {}, s, fr, node)
            v = self.snap(v, s.m)
            evs = self.events
            rz = self.raised
        finally:
            self.events, self.trys, self.raised = ev0, tr0, oldr
            self.lamdepth -= 1
        effects = [e for e in evs if e.kind in ("setattr", "setitem", "mut", "delattr", "yield")]
        if effects or rz is not FALSE:
            v = mk("lameff", v, tuple(mk("eff", e.kind, e.obj or NONE, S(str(e.key or e.meth)), e.val or NONE, e.guard) for e in evs if e.kind in ("setattr", "setitem", "mut", "raise")))
        # eta reduction
        if v.op == "call" and v.a[1] == tuple(ps) and not v.a[2]:
            return mk("g", v.a[0])
        if v.op == "mcall" and v.a[2] == tuple(ps) and not v.a[3] and not any(p in set(subterms(v.a[0])) for p in ps):
            return mk("attr", v.a[0], v.a[1])
        return mk("lam", n, v)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.scope_lookup("super", st, fr) is None:
            g = fr
            while g is not None and g.selfT is None:
                g = g.parent
            cn = fr.func.cls.name if fr.func and fr.func.cls else (fr.cls.name if fr.cls else "")
            return mk("super", cn, g.selfT if g is not None else SELF)
        args, kw, star = [], {}, False
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, st, fr)
            f = None
        else:
            f = self.ev(e.func, st, fr)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                s = self.snap(v, st.m)
                if s.op == "tuple":
                    args.extend(s.a)
                elif s.op == "log" and s.a[1] is EMPTY and all(o.op == "app" for o in s.a[2]):
                    args.extend(o.a[0] for o in s.a[2])
                else:
                    args.append(mk("star", s))
            else:
                args.append(self.ev(a, st, fr))
        rest = None
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                v = self.snap(v, st.m)
                if v.op == "phi" and rest is None:
                    rest = v
                else:
                    self.spread(kw, v)
            else:
                kw[k.arg] = v

        def go(v, s):
            kw2 = dict(kw)
            if v is not None and v.op == "log":
                for i, o in enumerate(v.a[2]):
                    if o.op == "if":
                        x, y = (mk("log", v.a[0], v.a[1], v.a[2][:i] + o.a[j] + v.a[2][i + 1:]) for j in (1, 2))
                        return go(x, s) if implies_quick(s.reach, o.a[0]) else go(y, s) if implies_quick(s.reach, NOT(o.a[0])) else go(phi(o.a[0], x, y), s)
            if v is not None and v.op == "phi":
                return self.fork(v.a[0], s, lambda q: go(v.a[1], q), lambda q: go(v.a[2], q))
            if v is not None:
                self.spread(kw2, v)
            if f is None:
                return self.method_call(recv, e.func.attr, list(args), kw2, s, fr, e)
            return self.call(f, list(args), kw2, s, fr, e)
        return go(rest, st)

    def spread(self, kw, s):
        """the keyword arguments given by a mapping"""
        if s.op == "log" and all(o.op == "set" and o.a[0].op == "str" for o in s.a[2]):
            for o in s.a[2]:
                kw[o.a[0].a[0]] = o.a[1]
            if s.a[1] is not EMPTY:
                kw["**"] = s.a[1]
        else:
            kw["**"] = s

    def fork(self, c, st, fa, fb):
        res = {}

        def w(n, f):
            def g(s):
                res[n] = f(s)
                return s
            return g
        r = self.branch(c, st, w(0, fa), w(1, fb))
        if r is not None and r is not st:
            st.m, st.valid = r.m, r.valid
        if 0 not in res or 1 not in res:
            return res.get(0, res.get(1, NONE))
        return self.join2(c, res[0], res[1], st)

    def call(self, f, args, kw, st, fr, node):
        if f.op == "phi":
            return self.fork(f.a[0], st, lambda s: self.call(f.a[1], args, kw, s, fr, node), lambda s: self.call(f.a[2], args, kw, s, fr, node))
        if f.op in ("fn", "clo"):
            fn, pf, dfl = self.closures[f]
            return self.call_func(fn, args, kw, st, fr, node, None, pf, dfl)
        if f.op == "bm":
            fn, pf, dfl = self.closures[f.a[1]]
            return self.call_func(fn, args, kw, st, fr, node, f.a[0], pf, dfl)
        if f.op == "cls":
            return self.construct(f.a[0], args, kw, st, fr, node)
        if f.op == "g":
            return self.ext_call(f.a[0], args, kw, st, fr, node)
        if f.op == "partialf":
            return self.call(f.a[0], list(f.a[1]) + args, {**dict(f.a[2]), **kw}, st, fr, node)
        if f.op == "lam":
            n, body = f.a
            if body.op != "lameff":
                m = {mk("lp", i + 100 * self.lamdepth): a for i, a in enumerate(args)}
                return subst(body, m)
        if f.op == "attr":
            return self.method_call(f.a[0], f.a[1], args, kw, st, fr, node)
        if f.op == "opgetter":
            v = args[0]
            r = []
            for k in f.a[1]:
                r.append(self.getattr_(v, k.a[0], st, fr, node) if f.a[0] == "attr" else self.getitem(v, k, st, fr, node))
            return r[0] if len(r) == 1 else mk("tuple", *r)
        # unknown callable (a parameter): an event
        sa = tuple(self.snap(a, st.m) for a in args)
        self.emit("call", node, st, fr, obj=f, args=tuple(args), kw=dict(kw), val=sa)
        self.trace("call", mk("callv", f, sa, tuple(sorted((k, self.snap(v, st.m)) for k, v in kw.items()))), st)
        return mk("callv", f, sa, tuple(sorted((k, self.snap(v, st.m)) for k, v in kw.items())))

    def eval_defaults(self, fn, fr, st):
        a = fn.node.args
        out = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return {k: self.ev(d, st, fr) for k, d in out.items()} if out else {}

    def default_of(self, fn, name):
        a = fn.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg == name:
                s = St({}, TRUE, TRUE)
                f = Frame(None, fn.mod, fn.cls)
                if fn.cls is not None:
                    for n2, ex in fn.cls.attrs.items():
                        s.m[("V", f.fid, n2)] = self.module_const(ex, fn.mod)
                self.quiet += 1
                try:
                    v = self.snap(self.ev(d, s, f), s.m)
                finally:
                    self.quiet -= 1
                if not isconst(v) and v.op in ("call", "mcall", "poly", "ref") or has_op(v, "call", "callv"):
                    return mk("deftime", v)
                return v
        return None

    def bind(self, fn, args, kw, selfT, dfl=None):
        """parameter name -> argument term"""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if selfT is not None and not fn.static:
            args = [selfT] + args
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                out[names[i]] = v
            else:
                extra.append(v)
        kws = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                out[k] = v
            else:
                kws[k] = v
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                d = (dfl or {}).get(n)
                if d is None:
                    d = self.default_of(fn, n)
                out[n] = d if d is not None else mk("missing", n)
        if a.vararg:
            out["*"] = mk("tuple", *extra)
        if a.kwarg:
            out["**"] = kws
        elif kws and "**" in kws:
            out["**kw"] = kws["**"]
        return out

    def qual(self, fn):
        return (fn.cls.name + "." + fn.name) if fn.cls is not None and fn.name in fn.cls.methods and fn.cls.methods[fn.name] is fn else fn.name

    def call_func(self, fn, args, kw, st, fr, node, selfT, pf=None, dfl=None):
        q = self.qual(fn)
        api = self.api_table()
        if pf is None and q in api and q not in self.inline_set and not (fn is self.entry and False):
            return self.api_call(q, fn, args, kw, st, fr, node, selfT)
        if fn in self.callstack and self.callstack.count(fn) > 1 or len(self.callstack) > self.MAXDEPTH:
            self.note("recursion limit at " + q, node, fr)
            self.emit("call", node, st, fr, obj=mk("fn", fn.mod.name + ":" + fn.qual), args=tuple(args), kw=dict(kw))
            return mk("opq", "rec", q)
        if fn is self.entry and fn in self.callstack:
            return self.api_call(q, fn, args, kw, st, fr, node, selfT)
        return self.inline(fn, args, kw, st, fr, node, selfT, pf, dfl)

    def api_table(self):
        return self.opaque if self.opaque is not None else API

    def api_call(self, q, fn, args, kw, st, fr, node, selfT):
        b = self.bind(fn, args, kw, selfT)
        pn = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        if not fn.static and pn and (selfT is not None):
            b.pop(pn[0], None)
        elif not fn.static and fn.cls is not None and selfT is None and pn:
            selfT = b.pop(pn[0], None)
        bs = {k: (self.snap(v, st.m) if isinstance(v, T) else v) for k, v in b.items()}
        self.emit("api", node, st, fr, obj=selfT, meth=q, kw=bs, args=tuple(args))
        self.clobber(selfT, self.api_table().get(q, ()), q, st, node, fr)
        fl = tuple((k, v) for k, v in sorted(bs.items()) if isinstance(v, T) and k not in ("*",))
        self.trace("api", mk("api", q, selfT if selfT is not None else NONE, fl), st)
        return mk("api", q, selfT if selfT is not None else NONE, fl)

    def clobber(self, obj, attrs, q, st, node, fr):
        if obj is None or not attrs:
            return
        if obj.op == "phi":
            for x in obj.a[1:]:
                self.clobber(x, attrs, q, st, node, fr)
            return
        ep = mk("ep", q, self.site_ordinal(q, node))
        at = mk("at", obj, ep)
        for a in attrs:
            old = self.read(st, ("A", obj, a))
            for loc in [l for l in st.m if l[0] == "C" and (l[1] is old or (l[1].op == "item" and l[1].a[0] is old))]:
                del st.m[loc]
            st.m[("A", obj, a)] = mk("attr", at, a)

    def site_ordinal(self, q, node):
        """call sites of an operation are numbered in the order of the analysis"""
        key = (q, tuple(self.callsites), getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tuple(self.unroll))
        sites = self.sites.setdefault(q, {})
        return sites.setdefault(key, len(sites))

    def trace(self, channel, t, st):
        loc = ("C", mk("trace", channel))
        lg = st.m.get(loc)
        ops = lg.a[2] if lg is not None else ()
        base = lg.a[1] if lg is not None else EMPTY
        st.m[loc] = mk("log", "list", base, ops + (mk("app", t),))

    def inline(self, fn, args, kw, st, fr, node, selfT=None, pf=None, dfl=None):
        self.visited.add(fn)
        self.callstack.append(fn)
        self.callsites.append((id(fn.node), getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        nf = Frame(fn, fn.mod, fn.cls, parent=pf)
        b = self.bind(fn, args, kw, selfT, dfl)
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if pf is not None:
            nf.selfT = pf.selfT
        elif fn.cls is not None and not fn.static and names:
            nf.selfT = b.get(names[0])
        for n in names + [x.arg for x in a.kwonlyargs]:
            st.m[("V", nf.fid, n)] = b[n]
        if a.vararg:
            st.m[("V", nf.fid, a.vararg.arg)] = b["*"]
        if a.kwarg:
            d = b["**"]
            if set(d) == {"**"}:
                v = self.shallow(d["**"], st, "dict")
            else:
                base = d.get("**", EMPTY)
                v = self.fresh("dict", [mk("set", S(k), x) for k, x in d.items() if k != "**"], st, base)
            st.m[("V", nf.fid, a.kwarg.arg)] = v
        if fn.is_gen:
            nf.yobj = self.new("list")
        r0, v0 = st.reach, st.valid
        oldr = self.raised
        self.raised = FALSE
        if isinstance(fn.node, ast.Lambda):
            v = self.ev(fn.node.body, st, nf)
            end = st
            exits = [(st, v, fn.node)]
        else:
            end = self.block(fn.node.body, st.copy(), nf)
            exits = list(nf.returns)
            if end is not None:
                exits.append((end, NONE, fn.node))
        R = self.raised
        self.raised = OR(oldr, R)
        self.callstack.pop()
        self.callsites.pop()
        if not exits:
            # never returns normally
            st.valid = AND(st.valid, NOT(st.reach)) if st.reach is not TRUE else FALSE
            st.dead = True
            self.note("call never returns", node, fr)
            return mk("opq", "noreturn")
        ms = self.merge_states([x[0] for x in exits], r0, v0)
        val = exits[-1][1]
        if nf.yobj is not None:
            val = nf.yobj
        elif len(exits) > 1:
            for s, v, _ in reversed(exits[:-1]):
                c = self.rel(s.reach, r0)
                val = self.ret_join(c, v, val, ms, s)
        st.m, st.valid = ms.m, ms.valid
        for loc in [l for l in st.m if l[0] == "V" and l[1] == nf.fid]:
            if not any(True for c in self.closures.values() if c[1] is nf):
                del st.m[loc]
        cov = self.rel(OR(*[x[0].reach for x in exits]), r0)
        if cov is not TRUE and not implies_quick(r0, cov):
            # the remaining paths raise
            st.valid = AND(st.valid, cov)
        st.reach = r0
        return val

    def ret_join(self, c, a, b, ms, s):
        ia, ib = self.objs.get(a), self.objs.get(b)
        if ia and ib and ia["cls"] is None and ib["cls"] is None and not ia["deep"] and not ib["deep"]:
            live = set(ms.m.values())
            j = self.new(ia["kind"] or ib["kind"])
            ms.m[("C", j)] = self.merge_log(c, self.content(a, ms.m), self.content(b, ms.m))
            return j
        return phi(c, a, b)

    def construct(self, cname, args, kw, st, fr, node):
        c = self.repo.classes.get(cname)
        if c is None:
            return mk("call", cname, tuple(args), ())
        r = self.new(None, EMPTY, cls=cname)
        f = self.repo.find_method(c, "__init__")
        self.emit("new", node, st, fr, obj=r, meth=cname, args=tuple(self.snap(a, st.m) for a in args), kw={k: self.snap(v, st.m) for k, v in kw.items()})
        self.objs[r]["args"] = (tuple(self.snap(a, st.m) for a in args), {k: self.snap(v, st.m) for k, v in kw.items()})
        if f is not None and cname not in self.noinit:
            self.inline(f, args, kw, st, fr, node, r)
        for loc, v in st.m.items():
            if loc[0] == "A" and loc[1] is r:
                self.ctor[(r, loc[2])] = self.snap(v, st.m)
        return r

    # ------------------------------------------------------------ method calls
    def method_call(self, recv, name, args, kw, st, fr, node):
        op = recv.op
        if op == "phi":
            return self.fork(recv.a[0], st, lambda s: self.method_call(recv.a[1], name, args, kw, s, fr, node),
                             lambda s: self.method_call(recv.a[2], name, args, kw, s, fr, node))
        if op in ("mod", "g"):
            f = self.getattr_(recv, name, st, fr, node)
            return self.call(f, args, kw, st, fr, node)
        if op == "cls":
            f = self.getattr_(recv, name, st, fr, node)
            return self.call(f, args, kw, st, fr, node)
        if op == "super":
            f = self.super_method(recv, name)
            if f is not None:
                return self.call_func(f, args, kw, st, fr, node, recv.a[1])
            return NONE
        cn = self.typeof(recv)
        if cn is not None:
            c = self.repo.classes.get(cn)
            f = self.repo.find_method(c, name) if c is not None else None
            if f is not None:
                over = [g for s_ in self.repo.subclasses(c) for g in [s_.methods.get(name)] if g is not None]
                if over and recv is not SELF and self.objs.get(recv, {}).get("cls") is None:
                    return self.dispatch(recv, name, f, args, kw, st, fr, node)
                return self.call_func(f, args, kw, st, fr, node, recv)
            loc = ("A", recv, name)
            if loc in st.m:
                return self.call(st.m[loc], args, kw, st, fr, node)
            if c is not None and recv is not SELF:
                pass
        if recv in self.bufs:
            r = self.buf_method(recv, name, args, kw, st)
            if r is not None:
                return r
        v = self.snap(recv, st.m)
        r = self.builtin_method(recv, v, name, args, kw, st, fr, node)
        if r is not None:
            return r
        # class-hierarchy lookup by a name that only one class of the repository defines
        if v.op not in ("call", "mcall", "log", "str", "pipe") and name not in ("solve", "sample", "create_pipeline", "process"):
            cands = self.repo.funcs_by_method.get(name, [])
            if len(cands) == 1 and name.startswith("_") and not name.startswith("__"):
                return self.call_func(cands[0], args, kw, st, fr, node, recv)
            if len(cands) > 1 and name.startswith("_") and not name.startswith("__"):
                return self.dispatch(recv, name, cands[0], args, kw, st, fr, node)
        sa = tuple(self.snap(a, st.m) for a in args)
        skw = tuple(sorted((k, self.snap(x, st.m)) for k, x in kw.items()))
        self.emit("mcall", node, st, fr, obj=recv, meth=name, args=tuple(args), kw=dict(kw))
        t = mk("mcall", v, name, sa, skw)
        if name in ("match", "fullmatch", "search") and len(sa) == 1 and not skw and matched(v, name) is not None:
            t = mk("rxm", matched(v, name), sa[0])
        self.trace("mcall", t, st)
        if name == "astype":
            return self.new("arr", t)
        return t

    def dispatch(self, recv, name, f, args, kw, st, fr, node):
        sa = tuple(self.snap(a, st.m) for a in args)
        self.emit("dispatch", node, st, fr, obj=recv, meth=name, args=sa, kw={k: self.snap(v, st.m) for k, v in kw.items()})
        t = mk("dcall", recv, name, sa)
        self.trace("dispatch", t, st)
        return t

    def builtin_method(self, recv, v, name, args, kw, st, fr, node):
        sa = [self.snap(a, st.m) for a in args]
        isref = recv.op == "ref"
        if name in ("items", "keys", "values") and not args:
            return mk(name, recv)
        if name == "get" and v.op not in ("mcall", "g") and 1 <= len(args) <= 2:
            d = args[1] if len(args) > 1 else NONE
            lg = self.content(recv, st.m)
            r = self.log_lookup(lg, sa[0], st, fr, node, recv) if lg.a[2] or recv.op == "ref" else None
            if lg.a[1] is EMPTY or r is not None:
                c = IN(sa[0], self.snap(self.logval(lg), st.m))
                if c is FALSE:
                    return d
                if r is not None:
                    return phi(c, r, d)
            me = self.snap(self.logval(lg), st.m)
            if d is ZERO:
                t = mk("get", me, sa[0], ZERO)
                KIND_TERM.setdefault(t, "num")
                return t
            # membership sets: values are always True
            if recv.op == "attr" and recv.a[1] in ("_deleted", "_fixed") and cond(d) is FALSE:
                return IN(sa[0], recv)
            return phi(IN(sa[0], me), self.getitem(recv, sa[0], st, fr, node), d)
        if name in ("read",):
            pass
        if v.op == "df":
            if name == "query":
                return mk("df", v.a[0], AND(v.a[1], self.parse_query(sa[0], st, fr)))
            if name in ("iterrows", "itertuples"):
                return mk("dfrows", v, name)
            if name == "to_dict":
                how = kw.get("orient") or (sa[0] if sa else S("dict"))
                if how is S("records"):
                    return mk("dfrows", v, "records")
                if how is S("index"):
                    return mk("dfdict", v)
                return mk("mcall", v, name, tuple(sa), tuple(sorted((k, self.snap(x, st.m)) for k, x in kw.items())))
            if name == "copy":
                return v
            if name == "reset_index":
                return mk("mcall", v, name, tuple(sa), ())
        if v.op == "dfdict" and name == "items":
            return mk("dfrows", v.a[0], "iterrows")
        if v.op == "proj":
            if name in ("tolist", "to_list", "to_numpy", "copy", "unique"):
                return v
            if name == "isin":
                return IN(mk("colref", v.a[1]), sa[0])
            if name in ("eq", "__eq__"):
                return EQ(v, sa[0])
            if name in ("ne",):
                return NOT(EQ(v, sa[0]))
            if name == "astype":
                return v
        if name == "index" and len(args) == 1:
            return self.index_of(v, sa[0])
        if name in MUTATORS and v.op not in ("g", "cls"):
            if name == "__setitem__":
                self.setitem(recv, args[0], args[1], st, fr, node)
                return NONE
            return self.mutate(recv, name, args, st, fr, node, kw=kw)
        if name == "copy" and not args:
            return self.shallow(recv, st)
        if name in ("union", "intersection", "difference") and args:
            o = {"union": "|", "intersection": "&", "difference": "-"}[name]
            t = v
            for a in sa:
                t = self.setop(o, t, a)
            return t
        if name in ("issubset", "issuperset", "isdisjoint") and len(args) == 1:
            a, b = (v, sa[0]) if name == "issubset" else (sa[0], v)
            L = mk("L", mk("seq", a), 0)
            x = mk("item", a, mk("idx", L))
            if name == "isdisjoint":
                return NOT(anyiter(L, IN(x, b)))
            return NOT(anyiter(L, NOT(IN(x, b))))
        if name == "format" and v.op == "str":
            return self.fmt_str(v.a[0], sa, {k: self.snap(x, st.m) for k, x in kw.items()})
        if name == "join" and kind(v) == "str":
            return mk("mcall", v, "join", tuple(sa), ())
        if name == "__contains__" and len(args) == 1:
            return IN(sa[0], v)
        if name == "__getitem__" and len(args) == 1:
            return self.getitem(recv, args[0], st, fr, node)
        if name == "__eq__" and len(args) == 1 and self.typeof(recv) is None:
            return EQ(v, sa[0])
        if name in ("isoformat", "encode", "decode", "lower", "upper", "strip", "lstrip", "rstrip", "split", "startswith", "endswith", "replace"):
            if name in ("encode", "decode") and not sa and not kw:
                sa = [S("utf-8")]
            if name in ("encode", "decode") and "encoding" in kw:
                sa = [self.snap(kw["encoding"], st.m)]
            if name in ("encode", "decode") and sa[0].op == "str":
                sa[0] = S(sa[0].a[0].lower().replace("_", "-").replace("utf8", "utf-8"))
                return mk("mcall", v, name, tuple(sa), ())
            return mk("mcall", v, name, tuple(sa), tuple(sorted((k, self.snap(x, st.m)) for k, x in kw.items())))
        return None

    def index_of(self, v, x):
        # position of an element that was read from that very list
        if x.op == "item" and x.a[0] is v:
            i = x.a[1]
            if i.op == "idx" and is_col(v) == "name":
                return i        # names are unique
        return mk("index", v, x)

    def fmt_str(self, s, args, kw):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(S(lit))
                if field is None:
                    continue
                if field == "":
                    x = args[auto]
                    auto += 1
                elif field.isdigit():
                    x = args[int(field)]
                else:
                    x = kw.get(field)
                if x is None:
                    return mk("fmt", S(s), mk("tuple", *args))
                if spec or conv:
                    x = mk("fmt", x, spec or "", conv or "")
                parts.append(self.tostr(x))
        except (ValueError, IndexError):
            return mk("fmt", S(s), mk("tuple", *args))
        return strcat(*parts)

    def parse_query(self, q, st, fr):
        if q.op == "strcat" or q.op == "str":
            src = ""
            holes = {}
            for p in (q.a if q.op == "strcat" else [q]):
                if p.op == "str":
                    src += p.a[0]
                else:
                    n = f"__h{len(holes)}"
                    holes[n] = p
                    # value substituted inside quotes:  key_0 == '{x}'
                    src += n
            for n in holes:
                for qt in ("'", '"'):
                    src = src.replace(qt + n + qt, n)
            src = src.replace("@", "__at_")
            try:
                e = ast.parse(src.strip(), mode="eval").body
            except SyntaxError:
                return mk("callb", "query", q)

            def go(e):
                if isinstance(e, ast.BoolOp):
                    xs = [cond(go(v)) for v in e.values]
                    return AND(*xs) if isinstance(e.op, ast.And) else OR(*xs)
                if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
                    a, b = cond(go(e.left)), cond(go(e.right))
                    return AND(a, b) if isinstance(e.op, ast.BitAnd) else OR(a, b)
                if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Not, ast.Invert)):
                    return NOT(cond(go(e.operand)))
                if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
                    return pneg(go(e.operand))
                if isinstance(e, ast.Compare):
                    l = go(e.left)
                    out = []
                    for o, r in zip(e.ops, e.comparators):
                        r = go(r)
                        out.append(self.compare(o, l, r, st))
                        l = r
                    return AND(*out)
                if isinstance(e, ast.Name):
                    if e.id in holes:
                        return holes[e.id]
                    if e.id.startswith("__at_"):
                        return self.ev_name(e.id[5:], st, fr)
                    return mk("colref", e.id)
                if isinstance(e, ast.Constant):
                    return const(e.value)
                if isinstance(e, (ast.List, ast.Tuple)):
                    return mk("tuple", *[go(x) for x in e.elts])
                if isinstance(e, ast.Attribute):
                    return mk("attr", go(e.value), e.attr)
                return mk("opq", "query")
            return cond(go(e))
        return mk("callb", "query", q)

    # ------------------------------------------------------------ isinstance
    def class_name(self, t):
        if t.op in ("g", "cls"):
            return t.a[0]
        return None

    def isinst(self, x, c):
        if c.op == "tuple":
            return OR(*[self.isinst(x, y) for y in c.a])
        if c.op == "log" and c.a[1] is EMPTY and all(o.op == "app" for o in c.a[2]):
            return OR(*[self.isinst(x, o.a[0]) for o in c.a[2]])
        if c.op == "phi":
            return OR(AND(c.a[0], self.isinst(x, c.a[1])), AND(NOT(c.a[0]), self.isinst(x, c.a[2])))
        n = self.class_name(c)
        if n is None:
            return mk("callb", "isinstance", x, c)
        if x.op == "phi":
            return OR(AND(x.a[0], self.isinst(x.a[1], c)), AND(NOT(x.a[0]), self.isinst(x.a[2], c)))
        if x.op == "none":
            return FALSE
        if x.op == "g" and n in ("tuple", "list", "dict", "str"):
            return FALSE       # a class object
        if x.op == "cls" and n in ("tuple", "list", "dict", "str"):
            return FALSE
        if x.op == "str":
            return TRUE if n == "str" else FALSE
        if x.op == "num":
            if n in ("numbers.Number", "float"):
                return TRUE
            if n == "int":
                return TRUE if x.a[0].denominator == 1 else FALSE
            if n in ("str", "tuple", "list", "dict"):
                return FALSE
        if x.op == "poly" and n in ("str", "tuple", "list", "dict", "set"):
            return FALSE
        if x.op == "tuple":
            return TRUE if n == "tuple" else FALSE
        if x.op == "log" and x.a[0] in ("list", "dict", "set"):
            if n in ("list", "dict", "set", "tuple", "str"):
                return TRUE if n == x.a[0] else FALSE
        if x.op == "ref":
            cn = self.typeof(x)
            if cn and n in self.repo.classes:
                c1, c2 = self.repo.classes[cn], self.repo.classes[n]
                return TRUE if c2 in self.repo.mro(c1) else FALSE
        if x.op == "call" and x.a[0] == n:
            return TRUE
        if x.op == "api" and x.a[0].endswith("to_model") and n == "LogicalModel":
            return TRUE
        return mk("isinst", x, n)
