"""Propagation of polynomial forms: every scalar is a polynomial with rational coefficients over the (unknown) coordinates and lengths of an
element, or unknown.  Discrete inputs (class, type, face, corner) are constants.  A length 1 << (c - level) is 2^c times the length unit of
that level.  Calls are followed; a branch on an unknown condition is followed both ways, one walk per combination."""
from fractions import Fraction as F
from .lib import cval, in_macro, varid
from .poly import inner


class Top:
    def __repr__(self):
        return "?"


TOP = Top()
NULL = ("null",)


class Undecided(Exception):
    pass


class Stop(Exception):
    """abort call reached"""


class Flow(Exception):
    def __init__(self, kind, v=None):
        self.kind = kind; self.v = v


class Ptr:
    __slots__ = ("o", "p")

    def __init__(self, o, p=()):
        self.o = o; self.p = p

    def at(self, k):
        if k == 0:
            return self
        if self.p and isinstance(self.p[-1], int):
            return Ptr(self.o, self.p[:-1] + (self.p[-1] + k,))
        return Ptr(self.o, self.p + (k,)) if False else _no()

    def __repr__(self):
        return "&%s%s" % (self.o["name"], "".join("." + str(x) for x in self.p))


def _no():
    raise Undecided("pointer arithmetic")


def con(v):
    return {(): F(v)} if v else {}


def sym(s):
    return {(s,): F(1)}


def isc(v):
    return isinstance(v, dict) and all(k == () for k in v)


def num(v):
    if not isc(v):
        return None
    return v.get((), F(0))


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, F(0)) + s * v
        if r[k] == 0:
            del r[k]
    return r


def mul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l))
            r[m] = r.get(m, F(0)) + v * w
    return {k: v for k, v in r.items() if v}


def newobj(name, cells=None):
    return {"name": name, "cells": dict(cells or {})}


ABORT = {"sc_abort", "sc_abort_verbose", "sc_abort_verbosef", "abort", "exit"}
ARITH = ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^")
LIMIT = 20000


class Interp:
    def __init__(self, P, units, grain=None):
        """units: symbol of a level -> symbol of its length unit"""
        self.P = P; self.units = units; self.steps = 0; self.trace = []; self.choices = []; self.pos = 0; self.grain = grain; self.memo = {}

    # ---- branches that are unknown: the list of choices is enumerated by runs()
    def choose(self, n, f, env, depth):
        neg = False
        x = inner(n)
        while x.k == "UnaryOperator" and x.op == "!":
            x = inner(x.c[0]); neg = not neg
        if x.k == "BinaryOperator" and x.op == "!=":
            neg = not neg
        key = (depth, self.text(x))
        if key not in self.memo:
            self.memo[key] = self.pick() != neg
        return self.memo[key] != neg

    def text(self, x):
        x = inner(x)
        op = x.op if x.k in ("BinaryOperator", "UnaryOperator", "CompoundAssignOperator") else None
        return (x.k, "==" if op == "!=" else op, x.get("n"), x.get("d"), x.cn if x.is_call else None, cval(x), tuple(self.text(y) for y in x.kids if y is not None))

    def pick(self):
        if self.pos < len(self.choices):
            c = self.choices[self.pos]
        else:
            if len(self.choices) >= 6:
                raise Undecided("too many unknown conditions")
            c = True
            self.choices.append(True)
        self.pos += 1
        return c

    def runs(self, go):
        """all results of go() over the choices at unknown branches"""
        self.choices = []
        while True:
            self.pos = 0; self.steps = 0; self.memo = {}
            yield go
            self.choices = self.choices[:self.pos]
            while self.choices and self.choices[-1] is False:
                self.choices.pop()
            if not self.choices:
                return
            self.choices[-1] = False

    def call(self, f, args, depth=0):
        if f.body is None or depth > 8:
            raise Undecided("no body of %s" % f.n)
        env = {}
        for p, a in zip(f.params, args):
            env[p["id"]] = newobj(p["n"], {(): a})
        try:
            self.stmt(f.body, f, env, depth)
        except Flow as e:
            if e.kind == "return":
                return e.v
            raise Undecided("jump")
        return None

    def stmt(self, n, f, env, depth):
        if n is None:
            return
        self.steps += 1
        if self.steps > LIMIT:
            raise Undecided("too long")
        k = n.k
        if in_macro(n, "T8_ASSERT", "SC_ASSERT", "T8_ASSERTF"):
            return
        if k == "CompoundStmt":
            for x in n.kids:
                self.stmt(x, f, env, depth)
        elif k == "DeclStmt":
            for v in n.d["decls"]:
                if v.get("id") is None:
                    continue
                env[v["id"]] = newobj(v.get("n"))
                i = f.varinit.get(v["id"])
                if i is not None:
                    x = inner(i)
                    if x.k == "InitListExpr":
                        for j, y in enumerate(x.kids):
                            env[v["id"]]["cells"][(j,)] = self.val(y, f, env, depth)
                    else:
                        t = i.t
                        if t is not None and t.k in ("rec", "arr"):
                            if x.k in ("CXXConstructExpr",) and not x.args:
                                continue
                            src = self.loc(x, f, env, depth)
                            self.copy(Ptr(env[v["id"]]), src)
                        else:
                            env[v["id"]]["cells"][()] = self.val(i, f, env, depth)
        elif k == "ReturnStmt":
            raise Flow("return", self.val(n.kids[0], f, env, depth) if n.kids else None)
        elif k == "IfStmt":
            if self.cond(n.c[2], f, env, depth):
                self.stmt(n.c[3], f, env, depth)
            elif len(n.c) > 4:
                self.stmt(n.c[4], f, env, depth)
        elif k in ("ForStmt", "WhileStmt", "DoStmt"):
            if k == "ForStmt":
                ini, c, inc, body = n.c[0], n.c[1], n.c[2], n.c[3]
                self.stmt(ini, f, env, depth)
            elif k == "WhileStmt":
                c, inc, body = n.kids[-2], None, n.kids[-1]
            else:
                body, c, inc = n.kids[0], n.kids[1], None
            cnt = 0
            while k == "DoStmt" and cnt == 0 or c is None or self.known(self.val(c, f, env, depth)):
                cnt += 1
                if cnt > 100:
                    raise Undecided("loop")
                try:
                    self.stmt(body, f, env, depth)
                except Flow as e:
                    if e.kind == "break":
                        break
                    if e.kind != "continue":
                        raise
                if inc is not None:
                    self.val(inc, f, env, depth)
        elif k == "SwitchStmt":
            v = num(self.val(n.kids[0], f, env, depth))
            if v is None:
                raise Undecided("switch")
            body = n.kids[-1]
            items = list(body.kids) if body.k == "CompoundStmt" else [body]
            start = dflt = None
            for i, x in enumerate(items):
                y = x
                while y is not None and y.k in ("CaseStmt", "DefaultStmt"):
                    if y.k == "CaseStmt":
                        cv = cval(y.kids[0])
                        if cv is None:
                            raise Undecided("case label")
                        if cv == v and start is None:
                            start = i
                    else:
                        dflt = i
                    y = y.kids[-1] if y.kids else None
            if start is None:
                start = dflt
            if start is not None:
                try:
                    for x in items[start:]:
                        while x is not None and x.k in ("CaseStmt", "DefaultStmt"):
                            x = x.kids[-1] if x.kids else None
                        self.stmt(x, f, env, depth)
                except Flow as e:
                    if e.kind != "break":
                        raise
        elif k == "BreakStmt":
            raise Flow("break")
        elif k == "ContinueStmt":
            raise Flow("continue")
        elif k in ("NullStmt", "AttributedStmt"):
            for x in n.kids:
                self.stmt(x, f, env, depth)
        elif k in ("GotoStmt", "LabelStmt", "CXXTryStmt"):
            raise Undecided(k)
        else:
            self.val(n, f, env, depth)

    def sign(self, e):
        """1 or -1 if a form is positive or negative for all levels from 1 and lengths (positive, at most one half of the tree)"""
        us = set(self.units.values())
        for w, sg in ((e, 1), (add({}, e, -1), -1)):
            lo, strict = F(0), False
            for k, v in w.items():
                if k == ():
                    lo += v
                elif len(k) == 1 and k[0] in us:
                    if v > 0:
                        strict = True
                    else:
                        lo += v / 2
                elif len(k) == 1 and k[0] in self.units and v > 0:
                    lo += v
                else:
                    lo = None
                    break
            if lo is not None and (lo > 0 or lo == 0 and strict):
                return F(sg)
        return None

    def known(self, v):
        if isinstance(v, dict) and not isc(v) and self.sign(v) is not None:
            return True
        if isc(v):
            return num(v) != 0
        if isinstance(v, Ptr):
            return True
        if v is NULL:
            return False
        raise Undecided("condition")

    def cond(self, n, f, env, depth):
        try:
            return self.known(self.val(n, f, env, depth))
        except Undecided:
            return self.choose(n, f, env, depth)

    # ---- places
    def loc(self, n, f, env, depth):
        x = inner(n)
        k = x.k
        if k == "DeclRefExpr":
            d = x.get("d")
            if d in env:
                o = env[d]
                t = x.t
                return Ptr(o)
            if x.get("dk") in ("global", "slocal"):
                return ("table", x.get("n"), ())
            raise Undecided("variable")
        if k == "MemberExpr" and x.kids:
            b = x.kids[0]
            if x.get("arrow"):
                p = self.val(b, f, env, depth)
            else:
                p = self.loc(b, f, env, depth)
            if isinstance(p, Ptr):
                return Ptr(p.o, p.p + (x.get("n"),))
            raise Undecided("member")
        if k == "ArraySubscriptExpr":
            i = num(self.val(x.c[1], f, env, depth))
            b = inner(x.c[0])
            p = self.val(x.c[0], f, env, depth)
            if i is None or i.denominator != 1:
                raise Undecided("index")
            i = int(i)
            if isinstance(p, tuple) and p[0] == "table":
                return ("table", p[1], p[2] + (i,))
            if isinstance(p, Ptr):
                if p.p and isinstance(p.p[-1], int):
                    return Ptr(p.o, p.p[:-1] + (p.p[-1] + i,))
                if i == 0:
                    return p
            raise Undecided("subscript")
        if k == "UnaryOperator" and x.op == "*":
            p = self.val(x.c[0], f, env, depth)
            if isinstance(p, (Ptr, tuple)) and p is not NULL:
                return p
            raise Undecided("deref")
        raise Undecided(k)

    def load(self, p):
        if isinstance(p, tuple):
            if p[0] != "table":
                raise Undecided("load")
            gs = [g for g in self.P.globals_all if g["n"] == p[1] and not g.get("extern") and "val" in g]
            if not gs:
                return TOP
            v = gs[0]["val"]
            for i in p[2]:
                if not isinstance(v, list) or not 0 <= i < len(v):
                    return TOP
                v = v[i]
            if isinstance(v, list):
                return p
            return con(F(v)) if isinstance(v, (int, float, bool)) else TOP
        return p.o["cells"].get(p.p, TOP)

    def store(self, p, v):
        if not isinstance(p, Ptr):
            raise Undecided("store")
        p.o["cells"][p.p] = v

    def copy(self, d, s):
        if not isinstance(s, Ptr):
            raise Undecided("copy")
        n, m = len(s.p), len(d.p)
        new = {d.p + k[n:]: v for k, v in s.o["cells"].items() if k[:n] == s.p}
        for k in [k for k in d.o["cells"] if k[:m] == d.p]:
            del d.o["cells"][k]
        d.o["cells"].update(new)

    # ---- values
    def val(self, n, f, env, depth):
        c = cval(n)
        if c is None:
            c = cval(inner(n))
        if c is not None:
            return con(c)
        x = inner(n)
        k = x.k
        if k == "FloatingLiteral":
            return con(F(float(x.get("fv"))))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return NULL
        if k == "CXXBoolLiteralExpr":
            return con(int(bool(x.v)))
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") or k == "UnaryOperator" and x.op == "*":
            if k == "DeclRefExpr" and x.get("dk") == "fn":
                return TOP
            p = self.loc(x, f, env, depth)
            t = x.t
            if t is not None and t.k == "arr":      # decays
                if isinstance(p, Ptr):
                    return Ptr(p.o, p.p + (0,))
                return p
            if t is not None and t.k == "rec":
                return p
            return self.load(p)
        if k == "UnaryOperator":
            if x.op == "&":
                y = inner(x.c[0])
                p = self.loc(x.c[0], f, env, depth)
                return p
            if x.op in ("++", "--"):
                p = self.loc(x.c[0], f, env, depth)
                v = self.load(p)
                if isinstance(v, dict):
                    w = add(v, con(1), 1 if x.op == "++" else -1)
                elif isinstance(v, Ptr):
                    w = self.shift(v, 1 if x.op == "++" else -1)
                else:
                    w = TOP
                self.store(p, w)
                return v if x.get("post") else w
            v = self.val(x.c[0], f, env, depth)
            if x.op == "!":
                try:
                    return con(int(not self.known(v)))
                except Undecided:
                    return TOP
            if not isinstance(v, dict):
                return TOP
            if x.op == "-":
                return add({}, v, -1)
            if x.op == "+":
                return v
            if x.op == "~" and isc(v):
                return con(~int(num(v)))
            if x.op == "~":
                return ("not", v)
            return TOP
        if k == "ConditionalOperator":
            return self.val(x.c[1] if self.cond(x.c[0], f, env, depth) else x.c[2], f, env, depth)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = x.op
            if op == "=":
                t = x.c[0].t
                p = self.loc(x.c[0], f, env, depth)
                if t is not None and t.k == "rec":
                    self.copy(p, self.loc(x.c[1], f, env, depth))
                    return p
                v = self.val(x.c[1], f, env, depth)
                self.store(p, v)
                return v
            if op == ",":
                self.val(x.c[0], f, env, depth)
                return self.val(x.c[1], f, env, depth)
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                p = self.loc(x.c[0], f, env, depth)
                a = self.load(p); b = self.val(x.c[1], f, env, depth)
                v = self.arith(op[:-1], a, b, x.c[0].t is not None and x.c[0].t.k == "flt")
                self.store(p, v)
                return v
            if op in ("&&", "||"):
                try:
                    l = self.known(self.val(x.c[0], f, env, depth))
                except Undecided:
                    l = None
                if l is not None and l == (op == "||"):
                    return con(int(l))
                try:
                    r = self.known(self.val(x.c[1], f, env, depth))
                except Undecided:
                    r = None
                if r is not None and r == (op == "||"):
                    return con(int(r))
                return con(int(r)) if l is not None and r is not None else TOP
            a, b = self.val(x.c[0], f, env, depth), self.val(x.c[1], f, env, depth)
            if op in ("==", "!=", "<", ">", "<=", ">="):
                if (isinstance(a, Ptr) or a is NULL) and isc(b) and num(b) == 0:
                    b = NULL
                if (isinstance(b, Ptr) or b is NULL) and isc(a) and num(a) == 0:
                    a = NULL
                if a is NULL or b is NULL:
                    if isinstance(a, Ptr) or isinstance(b, Ptr) or a is b:
                        return con(int((a is b) == (op == "==")))
                    return TOP
                if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("==", "!="):
                    return con(int((a.o is b.o and a.p == b.p) == (op == "==")))
                if not isinstance(a, dict) or not isinstance(b, dict):
                    return TOP
                e = add(a, b, -1)
                d = num(e)
                if d is None:
                    d = self.sign(e)
                if d is None:
                    return TOP
                return con(int({"==": d == 0, "!=": d != 0, "<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0}[op]))
            return self.arith(op, a, b, x.t is not None and x.t.k == "flt")
        if x.is_call:
            return self.invoke(x, f, env, depth)
        if k in ("CXXThisExpr",):
            return TOP
        raise Undecided(k)

    def shift(self, p, k):
        if k == 0:
            return p
        if p.p and isinstance(p.p[-1], int):
            return Ptr(p.o, p.p[:-1] + (p.p[-1] + k,))
        raise Undecided("pointer arithmetic")

    def low(self, v):
        """v = multiple of the length of the element + k * unit, 0 <= k < grain: (coordinates, unit, whole lengths, k, grain)"""
        if not isinstance(v, dict) or self.grain is None:
            return None
        us = [k for k in v if len(k) == 1 and k[0] in self.units.values()]
        if len(us) > 1 or () in v:
            return None
        hi = {m: x for m, x in v.items() if m not in us}
        for m, x in hi.items():
            if len(m) != 1 or x.denominator != 1 or m[0] not in self.grain:
                return None
        g = min((self.grain[m[0]] for m in hi), default=None)
        if not us:
            return hi, None, 0, 0, g
        k = v[us[0]]
        if k.denominator != 1 or k < 0 and g is None:
            return None
        k = int(k)
        return hi, us[0], (k // g * g if g else 0), (k % g if g else k), g

    def bits(self, op, a, b):
        for p, q in ((a, b), (b, a)):
            if op == "&" and isinstance(p, dict) and isc(q) and not isc(p):
                ds = [int(z.rsplit(" ", 1)[1]) for k in p if k != () for z in k[:] if z.startswith("1/")]
                if len(ds) == len([k for k in p if k != ()]) and 0 <= num(q) < min(ds):
                    return con(int(p.get((), F(0))) & int(num(q)))
        neg = isinstance(b, tuple) and b and b[0] == "not"
        if isinstance(a, tuple) and a and a[0] == "not":
            if neg:
                return TOP
            a, b, neg = b, a, True
        x, y = self.low(a), self.low(b[1] if neg else b)
        if neg and op == "&" and x is not None and isinstance(b[1], dict) and b[1].get((), F(0)) == -1 and len(b[1]) == 2:
            (u, K), = [(k, v) for k, v in b[1].items() if k != ()]          # & ~(2^k * unit - 1)
            if len(u) == 1 and u[0] in self.units.values() and x[1] in (None, u) and K.denominator == 1 and K > 0 and int(K) & (int(K) - 1) == 0 and (x[4] is None or K <= x[4]):
                k = (x[2] + x[3]) // int(K) * int(K)
                return add(x[0], {u: F(k)} if k else {})
            return TOP
        if x is None or y is None:
            return TOP
        if y[0]:
            x, y = y, x
            if neg:
                return TOP
        u = y[1] or x[1]
        if y[0] or u is None or x[1] not in (None, u) or x[4] is not None and y[3] >= x[4]:
            return TOP
        hi, q = x[0], x[2]
        if op == "&":
            if neg:
                k = x[3] & ~y[3]
            else:
                k, hi, q = x[3] & y[3], {}, 0
        elif op == "|" and not neg:
            k = x[3] | y[3]
        elif op == "^" and not neg:
            k = x[3] ^ y[3]
        else:
            return TOP
        return add(hi, {u: F(k + q)} if k + q else {})

    def arith(self, op, a, b, flt):
        if op in ("&", "|", "^") and not (isc(a) and isc(b)):
            return self.bits(op, a, b)
        if op == "%" and isinstance(a, dict) and not isc(a) and isc(b) and num(b) > 0 and num(b).denominator == 1 and int(num(b)) & (int(num(b)) - 1) == 0:
            return self.bits("&", a, con(num(b) - 1))       # coordinates are not negative
        for p, q, s in ((a, b, 1), (b, a, 1)):
            if isinstance(p, Ptr) and isinstance(q, dict) and op in ("+", "-"):
                k = num(q)
                if k is None or k.denominator != 1:
                    raise Undecided("pointer arithmetic")
                return self.shift(p, int(k) if op == "+" else -int(k))
            if isinstance(p, tuple) and p and p[0] == "table" and isinstance(q, dict) and num(q) == 0 and op in ("+", "-"):
                return p
        if not isinstance(a, dict) or not isinstance(b, dict):
            return TOP
        if op in ("+", "-"):
            return add(a, b, 1 if op == "+" else -1)
        if op == "*":
            return mul(a, b)
        x, y = num(a), num(b)
        if op == "/":
            if y is None or y == 0:
                return TOP
            if x is not None and not flt and x.denominator == 1 and y.denominator == 1:
                q = abs(x) // abs(y)
                return con(q if (x < 0) == (y < 0) else -q)
            return mul(a, con(1 / y))           # coordinates are divisible by the lengths they are scaled with
        if op == "<<":
            if x is not None and y is not None:
                return con(int(x) << int(y)) if 0 <= y < 64 else TOP
            if y is not None:
                return mul(a, con(1 << int(y)))
            # 1 << (c - level)
            ls = [k for k in b if k != ()]
            if x is not None and len(ls) == 1 and len(ls[0]) == 1 and b[ls[0]] == -1 and ls[0][0] in self.units:
                c = b.get((), F(0))
                return mul(con(x * F(2) ** int(c)), sym(self.units[ls[0][0]]))
            return TOP
        if op == ">>" and x is None and y is None and self.grain is not None:
            ls = [k for k in b if k != ()]
            c = b.get((), F(0))
            w = self.low(a)
            if w is not None and len(ls) == 1 and len(ls[0]) == 1 and b[ls[0]] == -1 and ls[0][0] in self.units and c >= 0:
                u = self.units[ls[0][0]]
                g = w[4]
                if w[1] in (None, (u,)) and (g is None or 2 ** int(c) <= g):
                    if g is None:
                        return con(w[3] >> int(c))
                    d = g >> int(c)         # what is left of the multiple is divisible by d
                    return add(mul(w[0], {("1/%s mod %d" % (u, d),): F(1, 2 ** int(c))}), con((w[3] >> int(c)) + w[2] // 2 ** int(c)))
            return TOP
        if op == ">>" and x is None and y is not None and 0 <= y < 32:
            return mul(a, con(F(1, 2 ** int(y))))
        if x is None or y is None or x.denominator != 1 or y.denominator != 1:
            return TOP
        x, y = int(x), int(y)
        try:
            if op == "%":
                return con(abs(x) % abs(y) * (1 if x >= 0 else -1))
            return con({">>": lambda: x >> y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]())
        except (KeyError, ZeroDivisionError, ValueError):
            return TOP

    def sizeof(self, a):
        t = inner(a).t
        if t is None or t.k != "ptr" or t.to is None:
            return None
        return t.to.size

    def invoke(self, x, f, env, depth):
        if x.cn in ABORT:
            raise Stop()
        if x.cn in ("memcpy", "__builtin_memcpy", "memmove") and len(x.args) == 3:
            d, q = self.val(x.args[0], f, env, depth), self.val(x.args[1], f, env, depth)
            sz = cval(inner(x.args[2]))
            want = {self.sizeof(a) for a in x.args[:2]}
            if isinstance(d, Ptr) and isinstance(q, Ptr) and sz is not None and want == {sz}:
                self.copy(d, q)
                return d
            raise Undecided(x.cn)
        if x.cn in ("memset", "__builtin_memset"):
            raise Undecided(x.cn)
        fs = [g for g in self.P.resolve(x) if g.body is not None and not g.tmpl]
        if len(fs) != 1:
            for a in x.args:
                if a is not None:
                    try:
                        p = self.val(a, f, env, depth)
                    except Undecided:
                        continue
                    if isinstance(p, Ptr):
                        t = inner(a).t
                        if t is None or t.k != "ptr" or t.to is None or not t.to.s.startswith("const"):
                            raise Undecided("call of %s" % x.cn)
            return TOP
        g = fs[0]
        args = []
        for i, a in enumerate(x.args):
            if a is None:
                raise Undecided("default argument")
            t = g.ptype(i)
            if t is not None and t.k == "ref":
                args.append(self.loc(a, f, env, depth))
                raise Undecided("reference")
            args.append(self.val(a, f, env, depth))
        save = (len(self.choices), self.pos)
        return self.call(g, args, depth + 1)
