"""Shared analysis helpers."""
from .model import CASTS, CALLS, LOOPS, Node

OPAQUE_MACROS = ("SC_CHECK_MPI", "SC_CHECK_ABORT", "T8_ASSERT", "SC_ASSERT", "SC_ABORT", "SC_CHECK_ABORTF")


def in_macro(n, *names):
    return any(m in names for m in n.m)


def mpitype(n):
    """name of the predefined MPI datatype an expression denotes, e.g. 'int', or None"""
    if n is None:
        return None
    n = n.strip()
    if n.k == "UnaryOperator" and n.op == "&":
        n = n.kids[0].strip()
    if n.k == "DeclRefExpr" and str(n.get("n")).startswith("ompi_mpi_"):
        return n.get("n")[len("ompi_mpi_"):]
    return None


def cval(n):
    """compile-time integer value"""
    if n is None:
        return None
    m = n
    while True:
        if m.v is not None:
            return m.v
        if m.k in CASTS and m.kids:
            m = m.kids[0]
            continue
        return None


def declref(n):
    n = n.strip() if n is not None else None
    return n if n is not None and n.k == "DeclRefExpr" else None


def varid(n):
    r = declref(n)
    return r.get("d") if r is not None and r.get("dk") in ("local", "parm") else None


def deref_addr(n):
    """through casts and one '&'"""
    n = n.strip()
    if n.k == "UnaryOperator" and n.op == "&":
        return n.kids[0].strip(), True
    return n, False


def castchain(n):
    while True:
        yield n
        if n.k in CASTS and n.kids:
            n = n.kids[0]
        else:
            return


class Ctx:
    """inlining context: maps parameter / loop variable ids to (node, ctx) or int"""
    def __init__(self, fn, args=None, up=None, this=None):
        self.fn = fn; self.args = args or {}; self.up = up; self.this = this; self.val = {}

    def value(self, n):
        v = cval(n)
        if v is not None:
            return v
        s = n.strip()
        if s.k == "DeclRefExpr":
            d = s.get("d")
            if d in self.val:
                return self.val[d]
            if d in self.args:
                a, c = self.args[d]
                return c.value(a) if a is not None else None
            vd = self.fn.vardecls.get(d)
            if vd is not None and d in self.fn.varinit and not assigned(self.fn, d):
                return self.value(self.fn.varinit[d])
            return None
        if s.k == "BinaryOperator":
            a, b = self.value(s.c[0]), self.value(s.c[1])
            if a is None or b is None:
                return None
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b}.get(s.op, lambda: None)()
            except Exception:
                return None
        return None


_asg = {}


def assigned(fn, d, addr=True):
    """nodes that write local variable d after its declaration (addr: or take its address)"""
    k = id(fn)
    if k not in _asg:
        w = {}
        for n in fn.walk():
            t = None
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "<=", ">=", "!="):
                t = n.c[0]
            elif n.k == "UnaryOperator" and n.op in ("++", "--", "&"):
                t = n.c[0]
            if t is not None:
                r = varid(t)
                if r is not None:
                    w.setdefault(r, []).append(n)
        _asg[k] = (fn, w)
    r = _asg[k][1].get(d, [])
    return r if addr else [x for x in r if x.op != "&"]


def path(n, ctx):
    """access path of an lvalue/pointer expression: list of field names and '[k]'/'[]'; roots are ('this',), ('var',id) or ('?',)"""
    n = n.strip()
    if n.k == "UnaryOperator" and n.op in ("&", "*"):
        return path(n.kids[0], ctx)
    if n.k == "MemberExpr":
        b = n.kids[0] if n.kids else None
        return (path(b, ctx) if b is not None else [("this",)]) + [n.get("n")]
    if n.k in ("CXXDependentScopeMemberExpr",):
        b = n.kids[0] if n.kids else None
        return (path(b, ctx) if b is not None else [("this",)]) + [n.get("n")]
    if n.k == "ArraySubscriptExpr":
        v = ctx.value(n.c[1])
        if v == 0 and not any(x.t is not None and x.t.k == "arr" for x in castchain(n.c[0])):
            return path(n.c[0], ctx)
        return path(n.c[0], ctx) + ["[%s]" % (v if v is not None else "")]
    if n.k == "CXXOperatorCallExpr" and n.op == "[]":
        v = ctx.value(n.args[1])
        return path(n.args[0], ctx) + ["[%s]" % (v if v is not None else "")]
    if n.k == "BinaryOperator" and n.op == "+":
        v = ctx.value(n.c[1])
        return path(n.c[0], ctx) + ["[%s]" % (v if v is not None else "")]
    if n.k == "CXXThisExpr":
        if ctx.this is not None:
            return path(ctx.this[0], ctx.this[1])
        return [("this",)]
    if n.k == "DeclRefExpr":
        d = n.get("d")
        if d in ctx.args:
            a, c = ctx.args[d]
            return path(a, c) if a is not None else [("?",)]
        ini = ctx.fn.varinit.get(d)
        t = n.t
        if ini is not None and t is not None and (t.k in ("ptr", "ref") or t.s.endswith("&")) and not assigned(ctx.fn, d, addr=False):
            return path(ini, ctx)
        if n.get("dk") == "parm":
            return [("parm",)]
        return [("var", d, id(ctx.fn))]
    if n.k == "CXXMemberCallExpr" and n.cn in ("data", "at", "get", "value"):
        cal = n.c[0]
        if cal is not None and cal.kids:
            return path(cal.kids[0], ctx) + (["[%s]" % (ctx.value(n.args[0]) if ctx.value(n.args[0]) is not None else "")] if n.cn == "at" and n.args else [])
    return [("?",)]


def lambda_of(call):
    """LambdaExpr invoked by this call through a local variable, or None"""
    if call.k == "CXXOperatorCallExpr" and call.cn == "operator()" and call.args:
        o = call.args[0].strip()
        if o.k == "LambdaExpr":
            return o
        d = varid(o)
        if d is not None:
            i = call.fn.varinit.get(d)
            if i is not None:
                for x in i.walk():
                    if x.k == "LambdaExpr":
                        return x
    return None


def bind(callee, call, ctx):
    args = {}
    for p, a in zip(callee.params, call.args):
        args[p["id"]] = (a, ctx)
    this = None
    if call.k == "CXXMemberCallExpr" and call.c[0] is not None and call.c[0].strip().kids:
        this = (call.c[0].strip().kids[0], ctx)
    return Ctx(callee, args, ctx, this)


def const_loop(n, ctx):
    """for (v = a; v < b; ++v) with constants: (var, [values]) else None"""
    if n.k != "ForStmt" or len(n.c) < 4:
        return None
    kids = n.c
    init, cond, inc, body = kids[0], None, None, kids[-1]
    rest = [x for x in kids[1:-1] if x is not None]
    if len(rest) < 2:
        return None
    cond, inc = rest[-2], rest[-1]
    var = a = None
    if init is not None and init.k == "DeclStmt" and len(init.d["decls"]) == 1:
        var = init.d["decls"][0]["id"]
        if var in n.fn.varinit:
            a = ctx.value(n.fn.varinit[var])
    elif init is not None and init.k == "BinaryOperator" and init.op == "=":
        var = varid(init.c[0]); a = ctx.value(init.c[1])
    c = cond.strip()
    if var is None or a is None or c.k != "BinaryOperator":
        return None
    l, r, op = c.c[0], c.c[1], c.op
    if varid(l) != var:
        if varid(r) == var:
            l, r = r, l
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}.get(op, op)
        else:
            return None
    b = ctx.value(r)
    if b is None:
        return None
    i = inc.strip()
    st = 0
    if i.k == "UnaryOperator" and i.op in ("++", "--"):
        st = 1 if i.op == "++" else -1
    elif i.k == "CompoundAssignOperator" and i.op in ("+=", "-="):
        v = ctx.value(i.c[1])
        st = (v if i.op == "+=" else -v) if v else 0
    if st == 0:
        return None
    vals = []
    x = a
    f = {"<": lambda x: x < b, "<=": lambda x: x <= b, ">": lambda x: x > b, ">=": lambda x: x >= b, "!=": lambda x: x != b}.get(op)
    if f is None:
        return None
    while f(x) and len(vals) < 256:
        vals.append(x)
        x += st
    return var, vals
