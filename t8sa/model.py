"""In-memory model of the extracted program."""
import glob, json, os, pickle, sys
from . import extract as X

sys.setrecursionlimit(20000)


class Type:
    __slots__ = ("s", "cs", "k", "p", "w", "sg", "n", "rec", "size", "const", "_tu", "_p")

    def __init__(self, d, tu):
        self.s = d["s"]; self.cs = d["cs"]; self.k = d.get("k"); self._p = d.get("p"); self.w = d.get("w")
        self.sg = d.get("sg"); self.n = d.get("n"); self.rec = d.get("rec"); self.size = d.get("size")
        self.const = d.get("const", False); self._tu = tu

    @property
    def to(self):
        return self._tu.type(self._p) if self._p is not None and self._p >= 0 else None

    @property
    def pointee_const(self):
        t = self.to
        return bool(t and t.const)

    def base_elem(self):
        t = self
        while t is not None and t.k == "arr":
            t = t.to
        return t

    def __repr__(self):
        return "<T %s>" % self.s


class Node:
    __slots__ = ("i", "k", "l", "m", "t", "c", "d", "parent", "fn")

    def __init__(self, d, fn, parent):
        self.i = d.get("i", 0); self.k = d["k"]; self.l = d.get("l", 0); self.m = d.get("m", ())
        self.d = d; self.fn = fn; self.parent = parent
        self.t = fn.tu.type(d["t"]) if d.get("t", -1) >= 0 else None
        fn.nodes[self.i] = self
        c = []
        if self.k == "DeclStmt":
            for v in d["decls"]:
                fn.vardecls[v["id"]] = (v, self)
                if "init" in v and v["init"] is not None:
                    n = Node(v["init"], fn, self)
                    fn.varinit[v["id"]] = n
                    c.append(n)
        elif self.k == "LambdaExpr":
            if d.get("body"):
                c.append(Node(d["body"], fn, self))
            for p in d.get("params", ()):
                fn.vardecls[p["id"]] = (p, self)
        else:
            for x in d.get("c", ()):
                c.append(Node(x, fn, self) if x is not None else None)
            if self.k == "CXXForRangeStmt" and "var" in d:
                fn.vardecls.setdefault(d["var"]["id"], (d["var"], self))
        self.c = c

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def v(self):
        x = self.d.get("v")
        return int(x) if x is not None else None

    @property
    def kids(self):
        return [x for x in self.c if x is not None]

    def walk(self, into_lambda=True):
        st = [self]
        while st:
            n = st.pop()
            yield n
            if not into_lambda and n.k == "LambdaExpr" and n is not self:
                continue
            st.extend(reversed(n.kids))

    def ancestors(self):
        p = self.parent
        while p is not None:
            yield p
            p = p.parent

    def within(self, kinds):
        for a in self.ancestors():
            if a.k in kinds:
                return a
        return None

    @property
    def where(self):
        return "%s:%d" % (self.fn.relfile, self.l)

    def strip(self):
        """through casts"""
        n = self
        while n.k in CASTS and n.kids:
            n = n.kids[-1] if n.k == "CXXFunctionalCastExpr" else n.kids[0]
        return n

    def istrip(self):
        n = self
        while n.k == "ImplicitCastExpr" and n.kids:
            n = n.kids[0]
        return n

    # calls
    @property
    def is_call(self):
        return self.k in CALLS

    @property
    def cn(self):
        return self.d.get("cn")

    @property
    def args(self):
        if self.k in ("CallExpr", "CXXMemberCallExpr"):
            return self.c[1:]
        if self.k == "CXXOperatorCallExpr":
            return self.c[1:]
        return self.c

    @property
    def op(self):
        return self.d.get("op")

    def src(self):
        return render(self)

    def __repr__(self):
        return "<%s %s %s>" % (self.k, self.where, render(self)[:60])


CASTS = {"ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr",
         "CXXFunctionalCastExpr", "CXXDynamicCastExpr"}
CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr",
         "CXXUnresolvedConstructExpr", "UserDefinedLiteral"}
LOOPS = {"ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"}


def render(n, depth=0):
    """source-like rendering for messages and structural comparison"""
    if n is None or depth > 40:
        return ""
    k = n.k
    R = lambda x: render(x, depth + 1)
    if k in CASTS:
        return R(n.strip())
    if k == "DeclRefExpr":
        return n.get("n")
    if k == "MemberExpr":
        b = n.kids[0] if n.kids else None
        if b is None or b.k == "CXXThisExpr":
            return n.get("n")
        return R(b) + ("->" if n.get("arrow") else ".") + n.get("n")
    if k in ("CXXDependentScopeMemberExpr", "UnresolvedMemberExpr"):
        return (R(n.kids[0]) + "." if n.kids else "") + str(n.get("n"))
    if k == "ArraySubscriptExpr":
        return R(n.c[0]) + "[" + R(n.c[1]) + "]"
    if k == "IntegerLiteral" or k == "CharacterLiteral" or k == "CXXBoolLiteralExpr":
        return str(n.d.get("v"))
    if k == "FloatingLiteral":
        return repr(n.d.get("fv"))
    if k == "StringLiteral":
        return json.dumps(n.d.get("s"))
    if k == "CXXThisExpr":
        return "this"
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        return "(" + R(n.c[0]) + " " + n.op + " " + R(n.c[1]) + ")"
    if k == "UnaryOperator":
        return (R(n.c[0]) + n.op) if n.get("post") else (n.op + R(n.c[0]))
    if k == "ConditionalOperator":
        return "(" + R(n.c[0]) + " ? " + R(n.c[1]) + " : " + R(n.c[2]) + ")"
    if k == "CXXMemberCallExpr":
        return R(n.c[0]) + "(" + ", ".join(R(a) for a in n.args if a is not None) + ")"
    if k in CALLS:
        return str(n.cn) + "(" + ", ".join(R(a) for a in n.args if a is not None) + ")"
    if k == "UnaryExprOrTypeTraitExpr":
        t = n.fn.tu.type(n.d["at"])
        return "sizeof(%s)" % (t.s if t else "?")
    if k == "DeclStmt":
        return "; ".join("%s%s" % (v["n"], " = " + R(n.fn.varinit[v["id"]]) if v["id"] in n.fn.varinit else "") for v in n.d["decls"])
    if k == "ReturnStmt":
        return "return " + (R(n.kids[0]) if n.kids else "")
    return k + "(" + ", ".join(R(x) for x in n.kids) + ")"


class Block:
    __slots__ = ("id", "s", "succ", "pred", "term", "cond", "label", "noret")


class Fn:
    def __init__(self, d, tu):
        self.d = d; self.tu = tu
        self.n = d["n"]; self.qn = d["qn"]; self.key = d["key"]
        self.file = tu.files[d["file"]]; self.l = d["l"]; self.el = d["el"]
        self.relfile = os.path.relpath(self.file, X.REPO)
        self.cls = d.get("cls")
        self.params = d.get("params", [])
        self.tmpl = d.get("tmpl", False); self.inst = d.get("inst", False)
        self.internal = d.get("internal", False)
        self._body = None
        self._cfg = None

    @property
    def ret(self):
        return self.tu.type(self.d["ret"])

    def load(self):
        if self._body is None:
            self.nodes = {}; self.vardecls = {}; self.varinit = {}
            for p in self.params:
                self.vardecls[p["id"]] = (p, None)
            self.inits = []
            for ini in self.d.get("inits", ()):
                if ini.get("init") is not None:
                    self.inits.append((ini.get("field"), Node(ini["init"], self, None), ini.get("written", False)))
            self._body = Node(self.d["body"], self, None) if self.d.get("body") else False
        return self

    @property
    def body(self):
        self.load()
        return self._body or None

    def walk(self):
        self.load()
        for f, n, w in self.inits:
            yield from n.walk()
        if self._body:
            yield from self._body.walk()

    def calls(self):
        return [n for n in self.walk() if n.is_call]

    def ptype(self, i):
        return self.tu.type(self.params[i]["t"])

    def vtype(self, vid):
        v = self.vardecls.get(vid)
        return self.tu.type(v[0]["t"]) if v else None

    @property
    def cfg(self):
        if self._cfg is None:
            self.load()
            c = self.d.get("cfg")
            if not c:
                return None
            g = Cfg()
            g.entry = c["entry"]; g.exit = c["exit"]
            g.b = {}
            for b in c["b"]:
                B = Block()
                B.id = b["id"]; B.succ = b["succ"]; B.term = b.get("term"); B.cond = b.get("cond")
                B.label = b.get("label"); B.noret = b.get("noret", False); B.pred = []
                B.s = b["s"]
                g.b[B.id] = B
            for B in g.b.values():
                for s in B.succ:
                    if s is not None:
                        g.b[s].pred.append(B.id)
            g.fn = self
            self._cfg = g
        return self._cfg

    @property
    def where(self):
        return "%s:%d (%s)" % (self.relfile, self.l, self.qn)

    def __repr__(self):
        return "<Fn %s>" % self.where


class Cfg:
    pass


class TU:
    def __init__(self, path):
        d = json.load(open(path))
        self.main = d["main"]; self.files = d["files"]
        self._types = d["types"]; self._tc = {}
        self.fns = [Fn(f, self) for f in d["functions"]]
        self.globals = d["globals"]; self.protos = d["protos"]; self.ext = d.get("ext", {}); self.pp = d["pp"]
        self.records = d["records"]; self.enums = d["enums"]; self.errors = d["errors"]

    def type(self, i):
        if i is None or i < 0:
            return None
        t = self._tc.get(i)
        if t is None:
            t = self._tc[i] = Type(self._types[i], self)
        return t


class Program:
    def __init__(self, debug=True):
        import gc
        gc.disable()
        self.dir = X.extract(debug)
        self.tus = [TU(p) for p in sorted(glob.glob(self.dir + "/*.json"))]
        gc.enable()
        gc.freeze()
        self.fns = {}
        self.all = []
        seen = set()
        for tu in self.tus:
            for f in tu.fns:
                # header functions appear once per extractor process
                kk = (f.key.split("@/")[0], f.file, f.l)
                if kk in seen:
                    self.fns.setdefault(f.key, f)
                    continue
                seen.add(kk)
                self.all.append(f)
                self.fns.setdefault(f.key, f)
        self.byname = {}
        for f in self.all:
            self.byname.setdefault(f.n, []).append(f)
        self.records = {}
        for tu in self.tus:
            for r in tu.records:
                r["_tu"] = tu
                o = self.records.get(r["n"])
                if o is None or (not o["fields"] and r["fields"]):
                    self.records[r["n"]] = r
        self.enums = {}
        for tu in self.tus:
            for e in tu.enums:
                self.enums[e["n"]] = dict(e["e"])
        self.globals = {}
        self.globals_all = []
        gseen = set()
        for tu in self.tus:
            for g in tu.globals:
                g["_tu"] = tu
                g["_file"] = os.path.relpath(tu.files[g["file"]], X.REPO)
                kk = (g["qn"], g["_file"], g["l"])
                if kk not in gseen:
                    gseen.add(kk)
                    self.globals_all.append(g)
                o = self.globals.get(g["qn"])
                if o is None or ("val" in g and "val" not in o):
                    self.globals[g["qn"]] = g
        self.protos = []
        pseen = set()
        for tu in self.tus:
            for p in tu.protos:
                p["_tu"] = tu
                p["_file"] = os.path.relpath(tu.files[p["file"]], X.REPO)
                kk = (p["key"], p["_file"], p["l"])
                if kk in pseen:
                    continue
                pseen.add(kk)
                self.protos.append(p)
        self.ext = {}
        for tu in self.tus:
            for k, v in tu.ext.items():
                self.ext.setdefault(k, v)
        self.over = {}
        for f in self.all:
            for o in f.d.get("over", ()):
                self.over.setdefault(o, []).append(f)
        self.source_files = set(X.all_files())

    def fn(self, name):
        """the unique non-template function definition of this name"""
        fs = [f for f in self.byname.get(name, []) if not f.tmpl]
        return fs[0] if fs else None

    def resolve(self, call):
        """definitions a call may reach (virtual calls: all overriders)"""
        k = call.get("callee")
        if k is None:
            return []
        out = []
        f = self.fns.get(k)
        if f is None and "@/" in k:
            f = self.fns.get(k.split("@/")[0] + "@" + call.fn.tu.main)
        if f is None and "@/" in k:
            base = k.split("@/")[0] + "@/"
            c = self._internal().get(base)
            f = c
        if f is not None:
            out.append(f)
        if call.get("virt"):
            st = list(self.over.get(k, ()))
            while st:
                o = st.pop()
                if o not in out:
                    out.append(o)
                    st.extend(self.over.get(o.key, ()))
        return out

    def _internal(self):
        if not hasattr(self, "_int"):
            self._int = {}
            for f in self.all:
                if "@/" in f.key and not f.file.endswith((".c", ".cxx")):
                    self._int.setdefault(f.key.split("@/")[0] + "@/", f)
        return self._int

    def gval(self, name):
        g = self.globals.get(name)
        return g.get("val") if g else None

    def macros_of(self, n):
        return n.m


_P = None


def program():
    global _P
    if _P is None:
        _P = Program()
    return _P
