"""P04, hand-written byte messages: cursor discipline of writer and reader"""
from ..lib import *


class Form:
    """const + sum coef*symbol"""
    def __init__(self, c=0, s=None):
        self.c = c; self.s = {k: v for k, v in (s or {}).items() if v}

    def const(self):
        return self.c if not self.s else None

    def __eq__(self, o):
        return self.c == o.c and self.s == o.s


def ev(n, env):
    """linear form of an integer expression under env (variable id -> Form); None when not linear"""
    v = cval(n)
    if v is not None:
        return Form(v)
    n = n.strip()
    if n.v is not None:
        return Form(n.v)
    if n.k == "ParenExpr" and n.kids:
        return ev(n.kids[0], env)
    if n.k == "DeclRefExpr":
        return env.get(n.get("d"))
    if n.k == "UnaryExprOrTypeTraitExpr":
        return Form(n.v) if n.v is not None else None
    if n.k == "BinaryOperator":
        a, b = ev(n.c[0], env), ev(n.c[1], env)
        if a is None or b is None:
            return None
        if n.op in "+-":
            g = 1 if n.op == "+" else -1
            s = dict(a.s)
            for k, x in b.s.items():
                s[k] = s.get(k, 0) + g * x
            return Form(a.c + g * b.c, s)
        ca, cb = a.const(), b.const()
        if n.op == "*":
            if ca is not None:
                return Form(ca * b.c, {k: ca * x for k, x in b.s.items()})
            if cb is not None:
                return Form(cb * a.c, {k: cb * x for k, x in a.s.items()})
            return None
        if ca is not None and cb is not None and cb != 0 and n.op in "%/":
            return Form(ca % cb if n.op == "%" else ca // cb)
        return None
    if n.k == "ConditionalOperator":
        c = ev(n.c[0], env)
        if c is not None and c.const() is not None:
            return ev(n.c[1] if c.const() else n.c[2], env)
    return None


def lkey(n):
    """identity of an lvalue used as a byte cursor: local variable or member chain"""
    n = n.strip()
    if n.k == "DeclRefExpr":
        return ("v", n.get("d"))
    if n.k == "MemberExpr":
        b = n.kids[0].strip() if n.kids else None
        return ("m", n.get("n")) + (lkey(b) or () if b is not None else ())
    return None


def is_pad(rhs, key):
    """rhs computes the padding of the cursor itself: (c - cursor % c) % c or similar"""
    return any(x.k == "BinaryOperator" and x.op == "%" for x in rhs.walk()) and any(lkey(x) == key for x in rhs.walk() if x.k in ("DeclRefExpr", "MemberExpr"))


def advances(n, key, out):
    """nested list of cursor advances, in source order"""
    if n is None or in_macro(n, "T8_ASSERT"):
        return
    if n.k in LOOPS:
        body = []
        for x in n.kids:
            advances(x, key, body)
        if body:
            out.append(("loop", body))
        return
    if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "+=") and lkey(n.c[0]) == key:
        if n.op == "=":
            out.append(("set", cval(n.c[1]), n))
        elif is_pad(n.c[1], key):
            out.append(("pad", None, n))
        else:
            out.append(("adv", cval(n.c[1]), n))
        return
    acc = access(n, key)
    if acc is not None:
        out.append(acc)
        return
    for x in n.kids:
        advances(x, key, out)


def mentions(n, key):
    return any(lkey(x) == key for x in n.walk() if x.k in ("DeclRefExpr", "MemberExpr"))


def access(n, key):
    """memcpy to/from buffer + cursor, or a typed load/store at buffer + cursor"""
    if n.is_call and n.cn in ("memcpy", "__builtin_memcpy", "memmove") and len(n.args) == 3:
        for i, kind in ((0, "put"), (1, "get")):
            a = n.args[i].strip()
            if a.k == "BinaryOperator" and a.op == "+" and mentions(a.c[1], key):
                return (kind, cval(n.args[2]), n)
    if n.k == "UnaryOperator" and n.op == "*":
        a = n.kids[0].strip()
        if a.k == "BinaryOperator" and a.op == "+" and mentions(a.c[1], key) and n.t is not None:
            return ("get", n.t.size, n)
    return None


def cursors(fn):
    c = {}
    for n in fn.walk():
        for kind, e in (("put", n.args[0]), ("get", n.args[1])) if n.is_call and n.cn in ("memcpy", "memmove") and len(n.args) == 3 else \
                ((("get", n.kids[0]),) if n.k == "UnaryOperator" and n.op == "*" else ()):
            a = e.strip()
            if a.k == "BinaryOperator" and a.op == "+":
                k = lkey(a.c[1])
                if k is not None and k[0] == "v":
                    c.setdefault(k, set()).add(kind)
    return c


def shape(seq):
    """positions only: advances and padding per loop level"""
    out = []
    for e in seq:
        if e[0] == "loop":
            s = shape(e[1])
            if s:
                out.append(("loop", s))
        elif e[0] in ("adv", "pad"):
            out.append((e[0], e[1] if e[0] == "adv" else None))
    return out


def core(s):
    """a message per iteration of an outer loop over processes"""
    while len(s) == 1 and s[0][0] == "loop":
        s = s[0][1]
    return s


def show(s):
    return " ".join("{" + show(x[1]) + "}*" if x[0] == "loop" else ("pad" if x[0] == "pad" else str(x[1] if x[1] is not None else "bytes")) for x in s)


def compat(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == "loop":
            if not compat(x[1], y[1]):
                return False
        elif x[1] != y[1]:
            return False
    return True


def items(seq):
    for e in seq:
        if e[0] == "loop":
            yield from items(e[1])
        else:
            yield e


def run(P, rep):
    # --- sequential byte messages (ghost layer): one cursor, writer and reader in one file
    byfile = {}
    for f in P.all:
        if f.body is None or f.tmpl:
            continue
        for k, kinds in cursors(f).items():
            seq = []
            advances(f.body, k, seq)
            n = sum(1 for e in items(seq) if e[0] == "adv")
            if n >= 3 and any(e[0] == "pad" for e in items(seq)):
                byfile.setdefault(f.relfile, []).append((f, k, kinds, seq))
    for rel, L in sorted(byfile.items()):
        W = [x for x in L if "put" in x[2]]
        R = [x for x in L if "get" in x[2] and "put" not in x[2]]
        for f, k, kinds, seq in L:
            # an access must be followed by an advance of exactly its size
            flat = list(items(seq))
            for i, e in enumerate(flat):
                if e[0] in ("put", "get"):
                    nx = next((x for x in flat[i + 1:] if x[0] in ("adv", "put", "get")), None)
                    rep.ok("byte message accesses", "%s %s" % (e[0], e[2].where))
                    if nx is None:
                        continue
                    if nx[0] != "adv" or (e[1] is not None and nx[1] is not None and e[1] != nx[1]):
                        rep.bad("%s cursor after %s" % (f.qn, e[2].src()[:60]), "%d bytes are %s here but the cursor is not advanced by that amount" % (e[1] or -1, "written" if e[0] == "put" else "read"), e[2].where)
        if len(W) == 1 and len(R) == 1:
            w, r = core(shape(W[0][3])), core(shape(R[0][3]))
            rep.ok("byte message pairs", "%s: writer %s | reader %s" % (rel, show(w), show(r)))
            if not compat(w, r):
                rep.bad("%s byte layout" % rel, "the message is written as [%s] by %s but read as [%s] by %s" % (show(w), W[0][0].qn, show(r), R[0][0].qn), R[0][0].where)
            # the byte counter that sizes the allocation, in the writer
            f, k = W[0][0], W[0][1]
            for a in f.walk():
                if a.k in ("CompoundAssignOperator",) and a.op == "+=" and lkey(a.c[0]) not in (None, k) and is_pad(a.c[1], lkey(a.c[0])):
                    s = []
                    advances(f.body, lkey(a.c[0]), s)
                    s = core(shape(s))
                    rep.ok("byte message sizes", "%s: %s" % (rel, show(s)))
                    # in the counting pass only the byte total matters: same multiset per loop level
                    if not compat(s, w) and not same_total(s, w):
                        rep.bad("%s byte count" % rel, "the buffer is sized for [%s] but [%s] is written" % (show(s), show(w)), a.where)
                    break
    # --- header | tree infos | elements layout of the repartition message
    for f in P.all:
        if f.body is None or f.tmpl or "partition" not in f.relfile:
            continue
        info = partition_layout(f)
        if info:
            byfile.setdefault("partition", []).append((f, info))
    L = byfile.get("partition", [])
    if len(L) >= 2:
        base = L[0]
        for f, info in L:
            rep.ok("repartition message layouts", "%s: %s" % (f.qn, info))
            for key in set(info) & set(base[1]):
                if info[key] != base[1][key]:
                    rep.bad("partition message %s" % key, "%s places '%s' at %s but %s places it at %s" % (base[0].qn, key, base[1][key], f.qn, info[key]), f.where)


def same_total(a, b):
    fa, fb = sorted(str(x) for x in a if x[0] != "loop"), sorted(str(x) for x in b if x[0] != "loop")
    la, lb = [x[1] for x in a if x[0] == "loop"], [x[1] for x in b if x[0] == "loop"]
    return fa == fb and len(la) == len(lb) and all(same_total(x, y) for x, y in zip(la, lb))


def partition_layout(f):
    """in a function that casts buffer+cursor to t8_forest_partition_tree_info_t*: start of the infos, stride, start of the elements"""
    cur = None
    for n in f.walk():
        if n.k in CASTS and n.t is not None and "partition_tree_info" in n.t.s:
            a = n.strip()
            if a.k == "BinaryOperator" and a.op == "+":
                cur = varid(a.c[1])
    if cur is None:
        return None
    env = {}
    counters = {varid(n.c[0]) for n in f.walk() if (n.k == "UnaryOperator" and n.op in ("++", "--") or n.k == "CompoundAssignOperator") and any(x.k in LOOPS for x in n.ancestors())}
    counters.discard(cur)
    info = {}
    for st in f.body.walk():
        if in_macro(st, "T8_ASSERT"):
            continue
        if st.k in ("BinaryOperator", "CompoundAssignOperator") and st.op in ("=", "+=") and declref(st.c[0]) is not None:
            d = varid(st.c[0])
            inloop = any(x.k in LOOPS for x in st.ancestors())
            if d is None:
                continue
            if d in counters:
                env[d] = Form(0, {"n": 1})
            if inloop:
                if d == cur and st.op == "+=":
                    info["stride of a tree info"] = cval(st.c[1])
                continue
            for y in st.c[1].walk():   # unknown variables are symbols
                z = varid(y) if y.k == "DeclRefExpr" else None
                if z is not None and (z not in env or env[z] is None):
                    env[z] = Form(0, {"n": 1})
            r = ev(st.c[1], env)
            if d in counters:
                if r is not None and r.s and "first tree info" in info and r.c == info["first tree info"][0] and r.s.get("n", 1) > 1 and "first element" not in info:
                    info["first element"] = (r.c, tuple(sorted(r.s.items())))
                continue
            if st.op == "+=" and r is not None and env.get(d) is not None:
                o = env[d]
                s = dict(o.s)
                for k, x in r.s.items():
                    s[k] = s.get(k, 0) + x
                r = Form(o.c + r.c, s)
            elif st.op == "+=":
                r = None
            env[d] = r
            if d == cur and r is not None:
                info["first tree info"] = (r.c, tuple(sorted(r.s.items())))
            elif r is not None and "first tree info" in info and (r.c == info["first tree info"][0]) and r.s.get("n", 0) > 1 and "first element" not in info:
                info["first element"] = (r.c, tuple(sorted(r.s.items())))
    return info if "first tree info" in info else None
