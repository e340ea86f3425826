"""Polynomials over the stable values of a function: sizes, counts and offsets are compared as dict monomial -> coefficient."""
from .lib import cval, assigned
from .model import CASTS


def inner(n):
    n = n.strip()
    while n.k in CASTS and n.kids or n.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
        n = n.kids[-1].strip()
    return n


def stable(n, f):
    """no variable of this expression is written after its declaration"""
    for x in n.walk():
        if x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm") and assigned(f, x.get("d")):
            return False
        if x.k in ("UnaryOperator",) and x.op in ("++", "--") or x.k == "BinaryOperator" and x.op == "=":
            return False
    return True


def atom(x):
    ids = sorted(str(y.get("d")) for y in x.walk() if y.k == "DeclRefExpr" and y.get("dk") in ("local", "parm"))
    return x.src() + ("#" + ",".join(ids) if ids else "")


def poly(n, f, depth=0):
    c = cval(n)
    if c is not None:
        return {(): c} if c else {}
    x = inner(n)
    c = cval(x)
    if c is not None:
        return {(): c} if c else {}
    if x.k == "BinaryOperator" and x.op in ("+", "-", "*"):
        a, b = poly(x.c[0], f, depth), poly(x.c[1], f, depth)
        return add(a, b, 1 if x.op == "+" else -1) if x.op != "*" else mul(a, b)
    if x.k == "UnaryOperator" and x.op == "-":
        return add({}, poly(x.c[0], f, depth), -1)
    if x.k == "DeclRefExpr" and x.get("dk") == "local" and depth < 6:
        i = f.varinit.get(x.get("d"))
        if i is not None and not assigned(f, x.get("d")) and i.t is not None and i.t.k in ("int", "enum", "bool") and stable(i, f) and not any(y.is_call for y in i.walk()):
            return poly(i, f, depth + 1)
    return {(atom(x),): 1}


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r


def mul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=str))
            r[m] = r.get(m, 0) + v * w
    return {k: v for k, v in r.items() if v}


def const(p):
    """the value of a constant polynomial, or None"""
    return p.get((), 0) if all(k == () for k in p) else None
