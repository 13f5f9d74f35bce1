"""Loads the repository's current source: modules, classes, functions, imports (syntax trees only)."""
import ast
import hashlib
import os

REPO = os.environ.get("SV_REPO", "/repo")


class AnalysisBroken(Exception):
    pass


class Func:
    def __init__(self, mod, node, cls=None, parent=None):
        self.mod, self.node, self.cls, self.parent = mod, node, cls, parent
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.qual = (cls.name + "." if cls else "") + self.name
        deco = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.static = "staticmethod" in deco
        self.clsm = "classmethod" in deco
        self.prop = "property" in deco
        self.deco = deco
        self._gen = None

    @property
    def is_gen(self):
        if self._gen is None:
            self._gen = False
            st = list(self.node.body) if not isinstance(self.node, ast.Lambda) else []
            while st:
                x = st.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    self._gen = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                    continue
                st.extend(ast.iter_child_nodes(x))
        return self._gen

    def __repr__(self):
        return f"<{self.mod.name}:{self.qual}>"


class Class:
    def __init__(self, mod, node, outer=None):
        self.mod, self.node, self.outer = mod, node, outer
        self.name = (outer.name + "." if outer else "") + node.name
        self.methods, self.attrs, self.inner = {}, {}, {}
        self.bases = node.bases
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = Func(mod, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self.inner[s.name] = Class(mod, s, self)

    def __repr__(self):
        return f"<class {self.name}>"


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src, path)
        self.defs = {}     # name -> ('func',Func)|('class',Class)|('import',dotted)|('const',ast expr)
        self.is_pkg = path.endswith("__init__.py")
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.defs[s.name] = ("func", Func(self, s))
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = ("class", Class(self, s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.defs[a.asname] = ("import", a.name)
                    else:
                        self.defs[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    if s.level > 1:
                        parts = parts[: -(s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    self.defs[a.asname or a.name] = ("import", base + "." + a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("const", s.value)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for x, v in zip(t.elts, s.value.elts):
                            if isinstance(x, ast.Name):
                                self.defs[x.id] = ("const", v)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.defs[s.target.id] = ("const", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, "handlers", []):
                    self._scan(h.body)
                self._scan(s.orelse)


class Repo:
    def __init__(self, root=None, overrides=None):
        self.root = root or REPO
        self.mods = {}
        overrides = overrides or {}
        self.digest = hashlib.sha256()
        base = os.path.join(self.root, "sawatabi")
        if not os.path.isdir(base):
            raise AnalysisBroken("package sawatabi not found")
        for d, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)
                src = overrides.get(rel)
                if src is None:
                    src = open(path, encoding="utf-8").read()
                self.digest.update(rel.encode() + b"\0" + src.encode())
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                try:
                    self.mods[name] = Module(name, path, rel, src)
                except SyntaxError as e:
                    raise AnalysisBroken(f"syntax error in {rel}: {e}")
        self.classes = {}
        self.funcs_by_method = {}
        for m in self.mods.values():
            for k, v in m.defs.values():
                if k == "class" and v.mod is m:
                    self._reg(v)

    def attr_names(self):
        """names the package uses as attributes, and its string constants"""
        if getattr(self, "_attrs", None) is None:
            self._attrs = {n.attr if isinstance(n, ast.Attribute) else n.value for m in self.mods.values() for n in ast.walk(m.tree)
                           if isinstance(n, ast.Attribute) or isinstance(n, ast.Constant) and isinstance(n.value, str)}
        return self._attrs

    def _reg(self, c):
        self.classes.setdefault(c.name, c)
        for n, f in c.methods.items():
            self.funcs_by_method.setdefault(n, []).append(f)
        for i in c.inner.values():
            self._reg(i)

    def resolve(self, dotted):
        """dotted name -> ('mod',Module)|('class',Class)|('func',Func)|('const',expr,Module)|('ext',dotted)"""
        for _ in range(20):
            if dotted in self.mods:
                return ("mod", self.mods[dotted])
            parts = dotted.split(".")
            if parts[0] not in ("sawatabi",):
                return ("ext", dotted)
            for i in range(len(parts) - 1, 0, -1):
                m = self.mods.get(".".join(parts[:i]))
                if m is None:
                    continue
                d = m.defs.get(parts[i])
                rest = parts[i + 1:]
                if d is None:
                    return ("ext", dotted)
                if d[0] == "import":
                    dotted = ".".join([d[1]] + rest)
                    break
                if d[0] == "class":
                    c = d[1]
                    while rest:
                        n = rest.pop(0)
                        if n in c.inner:
                            c = c.inner[n]
                        elif n in c.methods and not rest:
                            return ("func", c.methods[n])
                        elif n in c.attrs and not rest:
                            return ("const", c.attrs[n], c.mod)
                        else:
                            return ("ext", dotted)
                    return ("class", c)
                if rest:
                    return ("ext", dotted)
                if d[0] == "func":
                    return ("func", d[1])
                return ("const", d[1], m)
            else:
                return ("ext", dotted)
        return ("ext", dotted)

    def mro(self, c):
        out = [c]
        for b in c.bases:
            r = self.resolve_expr(c.mod, b)
            if r and r[0] == "class":
                for x in self.mro(r[1]):
                    if x not in out:
                        out.append(x)
        return out

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            d = mod.defs.get(e.id)
            if d is None:
                return ("ext", e.id)
            if d[0] == "import":
                return self.resolve(d[1])
            return (d[0], d[1]) if d[0] != "const" else ("const", d[1], mod)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if b is None:
                return None
            if b[0] == "mod":
                return self.resolve(b[1].name + "." + e.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "class":
                return self.resolve(b[1].mod.name + "." + b[1].name + "." + e.attr)
        return None

    def find_method(self, c, name):
        for x in self.mro(c):
            if name in x.methods:
                return x.methods[name]
        return None

    def subclasses(self, c):
        return [x for x in self.classes.values() if x is not c and c in self.mro(x)]

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken(f"class {name} not found")
        return c

    def method(self, cname, mname):
        f = self.find_method(self.cls(cname), mname)
        if f is None:
            raise AnalysisBroken(f"method {cname}.{mname} not found")
        return f
