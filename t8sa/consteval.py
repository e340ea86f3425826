"""Constant propagation over the syntax tree: every scalar is a known constant or unknown; arrays are maps from a flat index to such values.
Loops with unknown bound are peeled a fixed number of times; a branch on an unknown condition is followed both ways (one walk per combination)."""
import math


class _Top:
    def __repr__(self):
        return "?"


TOP = _Top()
PEEL = 3
LIMIT = 300000


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o = o; self.off = off

    def __repr__(self):
        return "&%s+%s" % (self.o.name, self.off)


class Obj:
    __slots__ = ("name", "cells", "n", "alive")

    def __init__(self, name, n=None):
        self.name = name; self.cells = {}; self.n = n; self.alive = True

    def get(self, i):
        if i is TOP:
            return TOP
        return self.cells.get(i, TOP)

    def set(self, i, v):
        if i is TOP:
            for k in list(self.cells):
                self.cells[k] = TOP
        else:
            self.cells[i] = v

    def havoc(self):
        self.cells = {}


class Abort(Exception):
    pass


class GiveUp(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def flat(t):
    """number of scalar cells of a type"""
    if t is None:
        return 1
    if t.k == "arr":
        return (t.n or 1) * flat(t.to)
    return 1


MATH = {"sqrt": math.sqrt, "cos": math.cos, "sin": math.sin, "tan": math.tan, "acos": math.acos, "asin": math.asin, "atan": math.atan,
        "fabs": abs, "abs": abs, "exp": math.exp, "log": math.log, "floor": math.floor, "ceil": math.ceil}


def _n(v):
    return math.sqrt(sum(x * x for x in v))


# name: (meaning, index of the written vector among the vector arguments, number of vectors, number of scalars)
VEC = {
    "t8_axpyz": (lambda v, a: [y + a[0] * x for x, y in zip(v[0], v[1])], 2, 3, 1),
    "t8_axpy": (lambda v, a: [y + a[0] * x for x, y in zip(v[0], v[1])], 1, 2, 1),
    "t8_axy": (lambda v, a: [a[0] * x for x in v[0]], 1, 2, 1),
    "t8_axb": (lambda v, a: [a[0] * x + a[1] for x in v[0]], 1, 2, 2),
    "t8_ax": (lambda v, a: [a[0] * x for x in v[0]], 0, 1, 1),
    "t8_copy": (lambda v, a: list(v[0]), 1, 2, 0),
    "t8_diff": (lambda v, a: [x - y for x, y in zip(v[0], v[1])], 2, 3, 0),
    "t8_normalize": (lambda v, a: [x / _n(v[0]) for x in v[0]], 0, 1, 0),
    "t8_norm": (lambda v, a: _n(v[0]), None, 1, 0),
    "t8_dist": (lambda v, a: _n([x - y for x, y in zip(v[0], v[1])]), None, 2, 0),
    "t8_dot": (lambda v, a: sum(x * y for x, y in zip(v[0], v[1])), None, 2, 0),
}


class Eval:
    """one walk; `sink(name, args, node)` sees the calls named in `sinks`"""

    def __init__(self, P, sinks, decisions):
        self.P = P; self.sinks = sinks; self.dec = decisions; self.pos = 0
        self.taken = []
        self.steps = 0
        self.depth = 0
        self.globs = {}
        self.oob = []
        self.inassert = False
        self.peeled = False

    # ---- choices
    def choose(self, n):
        if self.pos < len(self.dec):
            c = self.dec[self.pos]
        else:
            c = 0
        self.pos += 1
        self.taken.append((c, n))
        return c

    def cond(self, v, loop=False):
        if v is TOP:
            return None
        if isinstance(v, Ptr):
            return True
        return bool(v)

    # ---- functions
    def call(self, f, args):
        self.depth += 1
        if self.depth > 30:
            raise GiveUp("depth")
        env = {}
        for i, p in enumerate(f.params):
            o = Obj(p.get("n") or "p")
            v = args[i] if i < len(args) else TOP
            t = f.ptype(i)
            if isinstance(v, tuple) and v[0] == "lvalue":
                if t is not None and (t.k == "ref" or t.cs.endswith("&")):
                    env[p["id"]] = ("ref", v[1])
                    continue
                v = self.load((v[1].o, v[1].off), f.body)
            if t is not None and (t.k == "ref" or t.cs.endswith("&")) and isinstance(v, Ptr):
                env[p["id"]] = ("ref", v)
                continue
            o.set(0, self.conv(v, t))
            env[p["id"]] = o
        try:
            self.stmt(f.body, env, f)
            r = None
        except Ret as e:
            r = e.v
        self.depth -= 1
        return TOP if r is None else self.conv(r, f.ret)

    # ---- statements
    def stmt(self, n, env, f):
        self.steps += 1
        if self.steps > LIMIT:
            raise GiveUp("steps")
        k = n.k
        if k == "CompoundStmt":
            for c in n.kids:
                self.stmt(c, env, f)
        elif k == "DeclStmt":
            for v in n.d["decls"]:
                self.decl(v, env, f)
        elif k == "IfStmt":
            if n.c[0] is not None:
                self.stmt(n.c[0], env, f)
            if n.c[1] is not None:
                self.stmt(n.c[1], env, f)
            b = self.cond(self.ev(n.c[2], env, f))
            if b is None:
                b = self.choose(n) == 0
            if b:
                self.stmt(n.c[3], env, f)
            elif n.c[4] is not None:
                self.stmt(n.c[4], env, f)
        elif k in ("ForStmt", "WhileStmt", "DoStmt"):
            if k == "ForStmt":
                init, cnd, inc, body = n.c
            elif k == "WhileStmt":
                init, inc = None, None
                cnd, body = n.c
            else:
                init, inc = None, None
                body, cnd = n.c[0], n.c[1]
            if init is not None:
                self.stmt(init, env, f)
            unk = 0
            first = k == "DoStmt"
            while True:
                self.steps += 1
                if self.steps > LIMIT:
                    raise GiveUp("steps")
                if not first:
                    b = True if cnd is None else self.cond(self.ev(cnd, env, f))
                    if b is None:
                        unk += 1
                        self.peeled = True
                        b = unk <= PEEL
                    if not b:
                        break
                first = False
                try:
                    if body is not None:
                        self.stmt(body, env, f)
                except Brk:
                    break
                except Cont:
                    pass
                if inc is not None:
                    self.ev(inc, env, f)
        elif k == "SwitchStmt":
            self.switch(n, env, f)
        elif k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            if n.kids:
                self.stmt(n.kids[-1], env, f)
        elif k == "ReturnStmt":
            raise Ret(self.ev(n.kids[0], env, f) if n.kids else None)
        elif k == "BreakStmt":
            raise Brk()
        elif k == "ContinueStmt":
            raise Cont()
        elif k in ("NullStmt",):
            pass
        elif k in ("CXXForRangeStmt", "GotoStmt", "CXXTryStmt", "CoroutineBodyStmt", "GCCAsmStmt"):
            raise GiveUp(k)
        else:
            self.ev(n, env, f)

    def switch(self, n, env, f):
        v = self.ev(n.c[0], env, f)
        body = n.c[1]
        items = body.kids if body.k == "CompoundStmt" else [body]
        lin = []   # (labels, stmt)
        for s in items:
            labs = []
            while s.k in ("CaseStmt", "DefaultStmt"):
                if s.k == "CaseStmt":
                    labs.append(s.c[0].v if s.c[0].v is not None else self.ev(s.c[0], env, f))
                else:
                    labs.append("default")
                s = s.kids[-1]
            lin.append((labs, s))
        alll = [x for labs, _ in lin for x in labs]
        if v is TOP:
            cands = list(dict.fromkeys(alll)) + ([] if "default" in alll else ["none"])
            # one decision digit, with as many values as labels
            c = self.choose_n(n, len(cands))
            pick = cands[c]
            s0 = n.c[0].strip()
            if s0.k == "DeclRefExpr" and isinstance(pick, int):
                o = env.get(s0.get("d"))
                if isinstance(o, Obj):
                    o.set(0, pick)
        else:
            pick = v if v in alll else ("default" if "default" in alll else "none")
        on = False
        try:
            for labs, s in lin:
                if not on and pick in labs:
                    on = True
                if on:
                    self.stmt(s, env, f)
        except Brk:
            pass

    def choose_n(self, n, k):
        c = self.dec[self.pos] if self.pos < len(self.dec) else 0
        self.pos += 1
        self.taken.append((c, n, k))
        return min(c, k - 1)

    def decl(self, v, env, f):
        t = f.tu.type(v["t"])
        init = f.varinit.get(v["id"])
        if t is not None and (t.k == "ref" or t.cs.endswith("&")) and init is not None:
            lv = self.lv(init, env, f)
            env[v["id"]] = ("ref", Ptr(*lv) if lv else TOP)
            return
        o = Obj(v["n"], flat(t) if t is not None else None)
        env[v["id"]] = o
        if init is not None:
            if t is not None and t.k == "arr":
                self.initlist(o, 0, t, init, env, f)
            elif t is not None and t.k == "rec":
                self.ev(init, env, f)
            else:
                o.set(0, self.conv(self.ev(init, env, f), t))

    def initlist(self, o, base, t, init, env, f):
        n = init.istrip()
        if n.k == "InitListExpr" and t.k == "arr":
            es = flat(t.to)
            for i in range(t.n or len(n.kids)):
                if i < len(n.kids):
                    self.initlist(o, base + i * es, t.to, n.kids[i], env, f)
                else:
                    for j in range(es):
                        o.set(base + i * es + j, 0)
        elif n.k == "ImplicitValueInitExpr":
            for j in range(flat(t)):
                o.set(base + j, 0)
        elif t.k == "arr":
            return
        else:
            o.set(base, self.conv(self.ev(init, env, f), t))

    # ---- values
    def conv(self, v, t):
        if v is TOP or t is None or isinstance(v, Ptr):
            return v
        if t.k in ("int", "enum") and isinstance(v, (int, float)):
            if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
                return TOP
            v = int(v)
            if t.cs in ("bool", "_Bool"):
                return int(bool(v))
            w = t.w
            if w and w in (8, 16, 32, 64):
                v &= (1 << w) - 1
                if t.sg and v >= 1 << (w - 1):
                    v -= 1 << w
            return v
        if t.k in ("flt", "float", "fp") or t.cs in ("double", "float", "long double"):
            return float(v) if isinstance(v, (int, float)) else v
        return v

    def glob(self, n):
        q = n.get("qn") or n.get("n")
        if q in self.globs:
            return self.globs[q]
        g = self.P.globals.get(q)
        o = Obj(q)
        if g is not None and g.get("const") and "val" in g:
            def put(v, t, base):
                if isinstance(v, list):
                    es = flat(t.to) if t is not None and t.k == "arr" else 1
                    for i, x in enumerate(v):
                        put(x, t.to if t is not None and t.k == "arr" else None, base + i * es)
                elif isinstance(v, (int, float)):
                    o.set(base, v)
            put(g["val"], g["_tu"].type(g["t"]), 0)
        self.globs[q] = o
        return o

    def lv(self, n, env, f):
        """(object, index) or None"""
        n = n.istrip() if n.k == "ImplicitCastExpr" and n.get("ck") in ("NoOp", "LValueToRValue", "ArrayToPointerDecay") and n.get("ck") != "LValueToRValue" else n
        k = n.k
        if k == "ParenExpr":
            return self.lv(n.kids[0], env, f)
        if k == "DeclRefExpr":
            d = env.get(n.get("d"))
            if isinstance(d, tuple):
                return (d[1].o, d[1].off) if isinstance(d[1], Ptr) else None
            if d is not None:
                return d, 0
            if n.get("dk") in ("global", "glob", "gvar", "var") or self.P.globals.get(n.get("qn") or n.get("n")):
                return self.glob(n), 0
            return None
        if k == "ArraySubscriptExpr":
            b = self.ev(n.c[0], env, f)
            i = self.ev(n.c[1], env, f)
            if not isinstance(b, Ptr):
                return None
            s = flat(n.t)
            if i is TOP or b.off is TOP:
                return b.o, TOP
            return b.o, b.off + int(i) * s
        if k == "UnaryOperator" and n.op == "*":
            b = self.ev(n.c[0], env, f)
            return (b.o, b.off) if isinstance(b, Ptr) else None
        if k == "MemberExpr":
            return None
        if k in ("CStyleCastExpr", "CXXStaticCastExpr", "ImplicitCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr"):
            return self.lv(n.kids[0], env, f)
        if k == "StringLiteral":
            return Obj("str"), 0
        if k == "ConditionalOperator":
            b = self.cond(self.ev(n.c[0], env, f))
            if b is None:
                b = self.choose(n) == 0
            return self.lv(n.c[1] if b else n.c[2], env, f)
        return None

    def load(self, loc, n):
        if loc is None:
            return TOP
        o, i = loc
        if i is not TOP and o.n is not None and not 0 <= i < o.n:
            self.oob.append((n, o.name, i, o.n))
        return o.get(i)

    def store(self, loc, v, n):
        if loc is None:
            return
        o, i = loc
        if i is not TOP and o.n is not None and not 0 <= i < o.n:
            self.oob.append((n, o.name, i, o.n))
        o.set(i, v)

    def ev(self, n, env, f):
        self.steps += 1
        if self.steps > LIMIT:
            raise GiveUp("steps")
        k = n.k
        if n.d.get("v") is not None and k not in ("DeclRefExpr",) and not n.is_call:
            v = n.v
            return v
        if k == "DeclRefExpr":
            if n.d.get("v") is not None:
                return n.v
            loc = self.lv(n, env, f)
            if n.t is not None and n.t.k == "arr":
                return Ptr(*loc) if loc else TOP
            return self.load(loc, n)
        if k == "ImplicitCastExpr" or k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr",
                                            "CXXReinterpretCastExpr"):
            ck = n.get("ck")
            c = n.kids[-1] if n.kids else None
            if c is None:
                return TOP
            if ck == "ArrayToPointerDecay":
                loc = self.lv(c, env, f)
                return Ptr(*loc) if loc else TOP
            if ck in ("NullToPointer",):
                return 0
            v = self.ev(c, env, f)
            if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
                b = self.cond(v)
                return TOP if b is None else int(b)
            return self.conv(v, n.t)
        if k == "ParenExpr":
            return self.ev(n.kids[0], env, f)
        if k == "FloatingLiteral":
            return float(n.d.get("fv"))
        if k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"):
            return 0
        if k == "ArraySubscriptExpr":
            loc = self.lv(n, env, f)
            if n.t is not None and n.t.k == "arr":
                return Ptr(*loc) if loc else TOP
            return self.load(loc, n)
        if k == "UnaryOperator":
            return self.unary(n, env, f)
        if k == "BinaryOperator":
            return self.binary(n, env, f)
        if k == "CompoundAssignOperator":
            op = n.op[:-1]
            loc = self.lv(n.c[0], env, f)
            a = self.load(loc, n)
            b = self.ev(n.c[1], env, f)
            v = self.conv(self.arith(op, a, b, n.c[0].t, n), n.t)
            self.store(loc, v, n)
            return v
        if k == "ConditionalOperator":
            if n.m and any(x.startswith(("SC_CHECK", "T8_ASSERT", "SC_ASSERT")) for x in n.m):
                self.inassert = True
                b = self.cond(self.ev(n.c[0], env, f))
                self.inassert = False
                if b is False:
                    raise Abort()
                return TOP
            b = self.cond(self.ev(n.c[0], env, f))
            if b is None:
                x, y = n.c[1], n.c[2]
                if x.v is not None and x.v == y.v:
                    return x.v
                if self.inassert:
                    return TOP
                c = n.c[0].strip()
                if c.k == "BinaryOperator" and c.op == "==":
                    return self.ev(n.c[2], env, f)      # the general case: the unknown value is a different one
                b = self.choose(n) == 0
            return self.ev(n.c[1] if b else n.c[2], env, f)
        if n.is_call:
            return self.docall(n, env, f)
        if k == "UnaryExprOrTypeTraitExpr":
            return n.v if n.v is not None else TOP
        if k == "InitListExpr":
            return self.ev(n.kids[0], env, f) if len(n.kids) == 1 else TOP
        if k == "ImplicitValueInitExpr" or k == "CXXScalarValueInitExpr":
            return 0
        if k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
                 "CXXDefaultArgExpr"):
            return self.ev(n.kids[0], env, f) if n.kids else TOP
        for c in n.kids:
            if c.k not in ("CompoundStmt", "DeclStmt"):
                self.ev(c, env, f)
        return TOP

    def unary(self, n, env, f):
        op = n.op
        if op == "&":
            loc = self.lv(n.c[0], env, f)
            return Ptr(*loc) if loc else TOP
        if op == "*":
            loc = self.lv(n, env, f)
            if n.t is not None and n.t.k == "arr":
                return Ptr(*loc) if loc else TOP
            return self.load(loc, n)
        if op in ("++", "--"):
            loc = self.lv(n.c[0], env, f)
            a = self.load(loc, n)
            if a is TOP:
                v = TOP
            elif isinstance(a, Ptr):
                s = flat(n.c[0].t.to) if n.c[0].t is not None else 1
                v = Ptr(a.o, TOP if a.off is TOP else a.off + (s if op == "++" else -s))
            else:
                v = a + (1 if op == "++" else -1)
            self.store(loc, v, n)
            return a if n.get("post") else v
        a = self.ev(n.c[0], env, f)
        if op == "!":
            b = self.cond(a)
            return TOP if b is None else int(not b)
        if a is TOP or isinstance(a, Ptr):
            return TOP
        return {"-": lambda: -a, "+": lambda: a, "~": lambda: ~int(a)}.get(op, lambda: TOP)()

    def binary(self, n, env, f):
        op = n.op
        if op == "=":
            v = self.conv(self.ev(n.c[1], env, f), n.c[0].t)
            self.store(self.lv(n.c[0], env, f), v, n)
            return v
        if op == ",":
            self.ev(n.c[0], env, f)
            return self.ev(n.c[1], env, f)
        if op in ("&&", "||"):
            a = self.cond(self.ev(n.c[0], env, f))
            if op == "&&" and a is False:
                return 0
            if op == "||" and a is True:
                return 1
            b = self.cond(self.ev(n.c[1], env, f))
            if op == "&&" and b is False:
                return 0
            if op == "||" and b is True:
                return 1
            if a is None or b is None:
                return TOP
            return int(b)
        a = self.ev(n.c[0], env, f)
        b = self.ev(n.c[1], env, f)
        return self.conv(self.arith(op, a, b, n.c[0].t, n), n.t)

    def arith(self, op, a, b, ta, n):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ("==", "!=") and isinstance(a, Ptr) and isinstance(b, Ptr):
                same = a.o is b.o and a.off == b.off
                return int(same == (op == "=="))
            if op in ("==", "!=") and (a == 0 or b == 0) and not (a is TOP or b is TOP):
                return int(op == "!=")
            if isinstance(b, Ptr) and op == "+":
                a, b = b, a
            if isinstance(a, Ptr) and op in ("+", "-") and not isinstance(b, Ptr):
                s = flat(n.t.to) if n.t is not None and n.t.k == "ptr" else 1
                if b is TOP or a.off is TOP:
                    return Ptr(a.o, TOP)
                return Ptr(a.o, a.off + (int(b) * s if op == "+" else -int(b) * s))
            return TOP
        if a is TOP or b is TOP:
            if op in ("*", "&") and (a == 0 and a is not TOP or b == 0 and b is not TOP) and isinstance(a if b is TOP else b, int):
                return 0
            return TOP
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
                return a / b
            if op == "%":
                r = abs(a) % abs(b)
                return r if a >= 0 else -r
            if op == "<<":
                return a << b
            if op == ">>":
                return a >> b
            if op == "&":
                return a & b
            if op == "|":
                return a | b
            if op == "^":
                return a ^ b
            return {"==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                    "<=": lambda: int(a <= b), ">=": lambda: int(a >= b)}.get(op, lambda: TOP)()
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            return TOP

    def vec(self, cn, a):
        """the documented meaning of the three-dimensional vector operations"""
        pv = [x for x in a if isinstance(x, Ptr)]
        if any(p.off is TOP for p in pv):
            return False
        v = [[p.o.get(p.off + i) for i in range(3)] for p in pv]
        al = [x for x in a if not isinstance(x, Ptr)]
        op, out, np_, ns = VEC[cn]
        if len(pv) != np_ or len(al) != ns:
            return False
        self.vret = TOP
        flat_in = [x for i, w in enumerate(v) for x in w if i != out or cn in ("t8_ax", "t8_axpy", "t8_normalize")] + al
        r = [TOP] * 3
        if TOP not in flat_in:
            try:
                r = op(v, al)
            except (ZeroDivisionError, TypeError):
                r = [TOP] * 3
        if out is None:
            self.vret = r if not isinstance(r, list) else TOP
        else:
            o = pv[out]
            for i in range(3):
                o.o.set(o.off + i, r[i])
        return True

    def docall(self, n, env, f):
        cn = str(n.cn)
        if n.get("noret") or cn.startswith("sc_abort"):
            raise Abort()
        if self.inassert and not (cn in MATH):
            return TOP
        args = [self.ev(a, env, f) if a is not None else TOP for a in n.args]
        if cn in self.sinks:
            return self.sinks[cn](self, args, n)
        if cn in MATH and args and len(args) == 1:
            a = args[0]
            if a is TOP or isinstance(a, Ptr):
                return TOP
            try:
                return MATH[cn](a)
            except ValueError:
                return TOP
        if cn == "pow" and len(args) == 2:
            if TOP in args:
                return TOP
            try:
                return float(args[0]) ** float(args[1])
            except (ValueError, ZeroDivisionError, OverflowError):
                return TOP
        if cn in ("sc_malloc", "malloc", "sc_calloc", "calloc", "sc_realloc"):
            o = Obj("heap")
            if "calloc" in cn:
                pass
            return Ptr(o, 0)
        if cn in ("sc_free", "free"):
            return TOP
        if cn in ("memcpy", "memmove") and len(args) == 3:
            d, s, sz = args
            if isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(sz, int) and d.off is not TOP and s.off is not TOP:
                at = n.args[0].strip().t
                es = 8
                et = at.to if at is not None and at.k == "ptr" else (at.base_elem() if at is not None and at.k == "arr" else None)
                if et is not None:
                    be = et.base_elem() if et.k == "arr" else et
                    es = be.size or (be.w or 64) // 8
                vals = [s.o.get(s.off + i) for i in range(sz // es)]
                if d.o.n is not None and d.off + sz // es > d.o.n:
                    self.oob.append((n, d.o.name, d.off + sz // es - 1, d.o.n))
                for i, v in enumerate(vals):
                    d.o.set(d.off + i, v)
            elif isinstance(d, Ptr):
                d.o.havoc()
            return d
        if cn == "memset" and isinstance(args[0], Ptr):
            args[0].o.havoc()
            return args[0]
        if cn in VEC and self.vec(cn, args):
            return self.vret
        fs = self.P.resolve(n)
        if len(fs) == 1 and fs[0].body is not None and not fs[0].tmpl and n.k == "CallExpr" and not fs[0].cls:
            for i, a in enumerate(n.args):
                t = fs[0].ptype(i) if i < len(fs[0].params) else None
                if a is not None and t is not None and (t.k == "ref" or t.cs.endswith("&")) and a.strip().k in ("DeclRefExpr", "ArraySubscriptExpr", "UnaryOperator"):
                    l = self.lv(a, env, f)
                    if l is not None:
                        args[i] = ("lvalue", Ptr(*l))
            return self.call(fs[0], args)
        cp = n.get("cp") or ""
        for i, a in enumerate(args):
            if isinstance(a, Ptr) and not (i < len(cp) and cp[i] == "c"):
                a.o.havoc()
        return TOP


def walks(P, f, args_fn, sinks_fn, maxwalks=200):
    """all walks of f: yields (Eval, state) where state = sinks_fn()'s second value; aborted walks are skipped"""
    work = [[]]
    done = 0
    while work and done < maxwalks:
        dec = work.pop()
        sinks, state = sinks_fn()
        e = Eval(P, sinks, dec)
        done += 1
        status = "ok"
        try:
            e.call(f, args_fn())
        except Abort:
            status = "abort"
        except GiveUp as x:
            status = "giveup %s" % x
        for i in range(len(dec), len(e.taken)):
            t = e.taken[i]
            k = t[2] if len(t) > 2 else 2
            for alt in range(1, k):
                work.append([x[0] for x in e.taken[:i]] + [alt])
        yield e, state, status
