"""P27: what is attached to a tree under a key is read back under the same key, with the same type, and completely."""
import re
from ..lib import *
from ..model import CASTS
from ..poly import inner, poly, const
from .sizes import origin, sizeofs, plain, counting
from .batch import counter

SET = {"t8_cmesh_set_attribute": (3, 4, 5, 2), "t8_stash_add_attribute": (3, 5, 4, 2)}      # key, data, size, package
SETA = {"t8_cmesh_set_attribute_gloidx_array": (3, 4, 5, 2)}                               # size counts elements
GET = {"t8_cmesh_get_attribute": (2, 1), "t8_cmesh_get_attribute_gloidx_array": (2, 1), "t8_cmesh_trees_get_attribute": (3, 2)}


def key_of(a, f):
    """(constant part, variable part or None)"""
    c = cval(a)
    if c is not None:
        return c, None
    p = poly(a, f)
    k = p.get((), 0)
    v = [m for m in p if m != ()]
    if len(v) == 1 and p[v[0]] == 1 and len(v[0]) == 1:
        for x in a.walk():
            if x.k == "DeclRefExpr" and x.get("dk") == "local":
                return k, x
    return None, None


def upper(P, x):
    """one more than the largest value of a counter, from the bound of its loop"""
    f = x.fn
    for a in x.ancestors():
        if a.k in ("ForStmt", "WhileStmt"):
            r = counter(a)
            if r is None or r[0] != x.get("d"):
                continue
            b = r[2]
            for _ in range(4):
                c = cval(b)
                if c is not None:
                    return c + (1 if r[3] else 0)
                y = inner(b)
                if y.k == "DeclRefExpr" and y.get("dk") == "local" and f.varinit.get(y.get("d")) is not None and not assigned(f, y.get("d")):
                    b = f.varinit[y.get("d")]
                    continue
                if y.k == "ArraySubscriptExpr":
                    v = P.gval(inner(y.c[0]).get("n"))
                    if isinstance(v, list) and v and all(isinstance(q, int) for q in v):
                        return max(v) + (1 if r[3] else 0)
                break
    return None


def own(f, n, d, depth=0):
    """sizeof expressions of a size, also through locals"""
    out = list(sizeofs(n))
    if depth < 4:
        for x in n.walk():
            if x.k == "DeclRefExpr" and x.get("dk") == "local":
                i = f.varinit.get(x.get("d"))
                if i is not None and not assigned(f, x.get("d")):
                    out += own(f, i, d, depth + 1)
    return out


def counts(f, n, depth=0):
    """arithmetic, or a local set to arithmetic"""
    x = inner(n)
    if x.k == "DeclRefExpr" and x.get("dk") == "local" and depth < 4 and f.varinit.get(x.get("d")) is not None and not assigned(f, x.get("d")):
        return counts(f, f.varinit[x.get("d")], depth + 1)
    return x.k == "BinaryOperator" and x.op in ("*", "+", "-") or x.is_call and x.cn in ("size", "length")


def forwarded(n, f):
    """a parameter of the function, possibly cast"""
    x = inner(n)
    return x.k == "DeclRefExpr" and x.get("dk") == "parm"


def pointer_type(c):
    """element type a looked-up attribute is used with"""
    p = c
    t = None
    while p.parent is not None and (p.parent.k in CASTS or p.parent.k in ("ParenExpr", "ExprWithCleanups")):
        p = p.parent
        if p.t is not None and p.t.k == "ptr":
            t = p.t.to
    if t is not None and t.k != "void":
        return t
    # result kept in a variable of another type
    q = p.parent
    if q is not None and q.k == "BinaryOperator" and q.op == "=" and q.c[0].t is not None and q.c[0].t.k == "ptr":
        return q.c[0].t.to
    return t


def name(t):
    return re.sub(r"\bconst\b", "", t.cs).strip() if t is not None else None


def run_P27(P, rep):
    stores, reads = {}, {}
    seen = set()
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for c in f.calls():
            if (c.where, c.cn) in seen:
                continue
            if c.cn in SET or c.cn in SETA:
                ki, di, si, pi = (SET.get(c.cn) or SETA[c.cn])
                if len(c.args) <= si or forwarded(c.args[ki], f) and c.cn == "t8_stash_add_attribute":
                    continue
                seen.add((c.where, c.cn))
                x, t, avail, single = origin(c.args[di])
                # a buffer behind a cast variable
                size = c.args[si]
                k, var = key_of(c.args[ki], f) if not forwarded(c.args[ki], f) else (None, None)
                rep.ok("attribute stored", "%s %s key %s type %s" % (c.where, f.qn, k, name(t)))
                if plain(t) and t.k != "ptr":
                    sz = own(f, size, None)
                    if c.cn in SETA:
                        if sz:
                            rep.bad("size:%s" % f.qn, "%s: the number of values of an attribute is given in bytes (%s)" % (f.qn, size.src()), c.where)
                    else:
                        vals = [cval(s) for s in sz]
                        n = cval(size)
                        if sz and None not in vals and t.size not in vals:
                            rep.bad("size:%s:%s" % (f.qn, x.src()), "%s: the attribute %s has values of %d bytes (%s) but is stored with values of %s bytes" % (f.qn, x.src(), t.size, name(t), "/".join(map(str, vals))), c.where)
                        elif len(sz) > 1:
                            rep.bad("size:%s:%s" % (f.qn, x.src()), "%s: the size of the attribute %s counts the value size %d times" % (f.qn, x.src(), len(sz)), c.where)
                        elif not sz and t.size > 1 and (n % t.size if n is not None else counts(f, size)):
                            rep.bad("size:%s:%s" % (f.qn, x.src()), "%s: the size %s of the attribute %s does not count bytes of %s" % (f.qn, size.src(), x.src(), name(t)), c.where)
                        elif n is not None and avail is not None:
                            rep.ok("stored size compared with the data", c.where)
                            if n > avail:
                                rep.bad("size:%s:%s" % (f.qn, x.src()), "%s: %d bytes of %s are stored, which has %d" % (f.qn, n, x.src(), avail), c.where)
                            elif single and n < avail:
                                rep.bad("size:%s:%s" % (f.qn, x.src()), "%s: only %d of the %d bytes of %s are stored" % (f.qn, n, avail, x.src()), c.where)
                            elif n < avail and (filled(f, x, n // t.size) or open_end(f, x)):
                                rep.bad("size:%s:%s" % (f.qn, x.src()), "%s: only %d of the values that are set in %s are stored" % (f.qn, n // t.size, x.src()), c.where)
                elif t is not None and not plain(t) and t.k == "int":
                    # text: its length and the end
                    i = inner(size)
                    if i.k == "DeclRefExpr" and f.varinit.get(i.get("d")) is not None:
                        i = inner(f.varinit[i.get("d")])
                    if any(y.is_call and y.cn in ("strlen", "length", "size") for y in i.walk()):
                        rep.ok("text stored with its end", c.where)
                        if i.is_call:
                            rep.bad("text:%s" % f.qn, "%s: the text is stored without its end" % f.qn, c.where)
                per(f, c, size, t, c.args[ki], rep)
                if k is not None and library(c.args[pi], f):
                    stores.setdefault(k, []).append((t if plain(t) else None, c, var))
            elif c.cn in GET:
                ki, pi = GET[c.cn]
                if len(c.args) <= ki or forwarded(c.args[ki], f):
                    continue
                seen.add((c.where, c.cn))
                k, var = key_of(c.args[ki], f)
                if k is None or not library(c.args[pi], f):
                    continue
                t = pointer_type(c) if c.cn != "t8_cmesh_get_attribute_gloidx_array" else c.t.to if c.t is not None else None
                rep.ok("attribute read", "%s %s key %s type %s" % (c.where, f.qn, k, name(t)))
                reads.setdefault(k, []).append((t, c, var))
    # one type per key
    for k in sorted(set(stores) | set(reads)):
        ts = {}
        for kind, l in (("stored", stores.get(k, [])), ("read", reads.get(k, []))):
            for t, c, var in l:
                if t is not None and t.k != "void" and t.size:
                    ts.setdefault("int%d" % (8 * t.size) if t.k == "int" else name(t), []).append((kind, c))
        rep.ok("key used with one type", "%d: %s" % (k, sorted(ts)))
        if len(ts) > 1:
            u, o = sorted(ts.items(), key=lambda e: (len(e[1]), e[0]))[:2]
            kind, c = u[1][0]
            rep.bad("type:%d" % k, "%s: the attribute with key %d is %s as %s but elsewhere as %s (%s)" % (c.fn.qn, k, kind, u[0], o[0], o[1][0][1].where), c.where)
        if k in reads and k not in stores:
            t, c, var = reads[k][0]
            rep.bad("missing:%d" % k, "%s reads the attribute with key %d, which nothing stores" % (c.fn.qn, k), c.where)
    # families of keys do not reach into the next key
    for k in sorted(set(stores) | set(reads)):
        for t, c, var in stores.get(k, []) + reads.get(k, []):
            if var is None:
                continue
            up = upper(P, var)
            if up is None:
                continue
            rep.ok("family of keys apart from the other keys", "%s %d..%d" % (c.where, k, k + up - 1))
            hit = [o for o in list(stores) + list(reads) if k < o < k + up]
            if hit:
                rep.bad("overlap:%d" % k, "%s: the keys %d to %d of a family include the key %d of another attribute" % (c.fn.qn, k, k + up - 1, hit[0]), c.where)
    moved(P, rep)
    rep.need("attribute stored", 4)
    rep.need("attribute read", 5)
    rep.need("key used with one type", 4)


def library(a, f):
    """the package is the library's own"""
    x = inner(a)
    for _ in range(3):
        if x.is_call:
            return x.cn == "t8_get_package_id"
        if x.k == "DeclRefExpr" and x.get("dk") == "local" and f.varinit.get(x.get("d")) is not None:
            x = inner(f.varinit[x.get("d")])
        else:
            break
    return False


def filled(f, x, n):
    """values beyond the first n are set by a loop over the array's variable subscripts"""
    d = x.get("d") if x.k == "DeclRefExpr" else None
    if d is None:
        return False
    hi = -1
    for y in f.walk():
        if y.k == "ArraySubscriptExpr" and varid(y.c[0]) == d and y.parent is not None and y.parent.k == "BinaryOperator" and y.parent.op == "=" and y.parent.c[0] is y:
            for a in y.ancestors():
                if a.k in ("ForStmt", "WhileStmt"):
                    r = counter(a)
                    p = poly(y.c[1], f)
                    if r is not None and r[0] in {z.get("d") for z in y.c[1].walk() if z.k == "DeclRefExpr"} and cval(r[2]) is not None:
                        m = [q for q in p if q != ()]
                        if len(m) == 1:
                            hi = max(hi, p[m[0]] * (cval(r[2]) - (0 if r[3] else 1)) + p.get((), 0))
    return hi >= n


def open_end(f, x):
    """the array is filled by a loop whose end is not a constant"""
    d = x.get("d") if x.k == "DeclRefExpr" else None
    if d is None or sum(1 for c in f.calls() if c.cn in SET and any(a is not None and varid(a) == d for a in c.args)) != 1:
        return False
    for y in f.walk():
        if y.k == "ArraySubscriptExpr" and varid(y.c[0]) == d and y.parent is not None and y.parent.k == "BinaryOperator" and y.parent.op == "=" and y.parent.c[0] is y:
            for a in y.ancestors():
                if a.k in ("ForStmt", "WhileStmt"):
                    r = counter(a)
                    if r is not None and r[0] in {z.get("d") for z in y.c[1].walk() if z.k == "DeclRefExpr"} and cval(r[2]) is None:
                        return True
    return False


PER = {"T8_CMESH_VERTICES_ATTRIBUTE_KEY": 3, "T8_CMESH_NODE_GEOMETRY_ATTRIBUTE_KEY": 2, "T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY": 2}


def per(f, c, size, t, key, rep):
    """number of values per vertex or node, by the documented layout of the data"""
    for m, want in PER.items():
        if not any(in_macro(y, m) for y in key.walk()):
            continue
        p = poly(size, f)
        ms = [q for q in p if q != ()]
        if len(ms) != 1 or p.get((), 0) or t is None or not t.size:
            continue
        rep.ok("number of values per vertex or node", c.where)
        if p[ms[0]] != want * t.size:
            rep.bad("per:%s" % f.qn, "%s stores %s bytes per entry of %s, not %d values of %d bytes" % (f.qn, p[ms[0]], "*".join(map(str, ms[0])), want, t.size), c.where)


CONC = {"key": "key", "package_id": "package", "attr_size": "size", "attribute_size": "size", "id": "tree"}
REC = re.compile(r"t8_(stash_attribute|attribute_info|key_id_pair)")
GETTER = {"t8_stash_get_attribute_size": "attr_size", "t8_stash_get_attribute": "attr_data", "t8_stash_get_attribute_tree_id": "id", "t8_stash_get_attribute_key": "key",
          "t8_stash_get_attribute_id": "package_id", "t8_stash_attribute_is_owned": "is_owned"}


def concept(f, n, depth=0):
    x = inner(n)
    if x.k == "MemberExpr" and REC.match(x.get("rec") or ""):
        return CONC.get(x.get("n"))
    if x.k == "DeclRefExpr" and x.get("dk") == "parm":
        return {"key": "key", "package_id": "package", "size": "size", "id": "tree", "gtree_id": "tree"}.get(x.get("n"))
    if x.k == "DeclRefExpr" and x.get("dk") == "local" and depth < 3:
        d = x.get("d")
        ws = assigned(f, d, addr=False)
        i = f.varinit.get(d)
        if i is None and len(ws) == 1 and ws[0].k == "BinaryOperator" and ws[0].op == "=":
            i, ws = ws[0].c[1], []
        if i is not None and not ws:
            return concept(f, i, depth + 1)
    return None


def moved(P, rep):
    """what describes an attribute is handed on field by field; the next attribute starts behind this one"""
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        copied = None
        for x in f.walk():
            if x.k == "BinaryOperator" and x.op == "=":
                l = inner(x.c[0])
                if l.k == "MemberExpr" and REC.match(l.get("rec") or "") and l.get("n") in CONC:
                    a, b = CONC[l.get("n")], concept(f, x.c[1])
                    if b is not None:
                        rep.ok("description of an attribute handed on", x.where)
                        if a != b:
                            rep.bad("moved:%s:%s" % (f.qn, l.get("n")), "%s: %s of an attribute is set to %s" % (f.qn, l.get("n"), x.c[1].src()), x.where)
                elif l.k == "MemberExpr" and REC.match(l.get("rec") or "") and l.get("n") == "attribute_offset":
                    m = [c for c in f.calls() if c.cn in ("memcpy", "memmove") and len(c.args) == 3]
                    if len(m) == 1:
                        size = m[0].args[2]
                        y = inner(x.c[1])
                        if y.k == "BinaryOperator" and y.op == "+":
                            rep.ok("next attribute starts behind this one", x.where)
                            q = poly(size, f)
                            if poly(y.c[0], f) != q and poly(y.c[1], f) != q:
                                rep.bad("offset:%s" % f.qn, "%s: %s bytes of an attribute are copied but the next one starts at %s" % (f.qn, size.src(), x.c[1].src()), x.where)
            if x.k == "BinaryOperator" and x.op == "*":
                a, b = inner(x.c[0]), inner(x.c[1])
                for u, v in ((a, b), (b, a)):
                    if u.k == "MemberExpr" and u.get("n") == "num_attributes" and v.k == "UnaryExprOrTypeTraitExpr":
                        rep.ok("size of the descriptions of a tree's attributes", x.where)
                        a = f.tu.type(v.get("at")) if v.get("at") is not None else None
                        if a is not None and a.k == "rec" and "attribute_info" not in a.cs or a is not None and a.k in ("int", "float"):
                            rep.bad("infos:%s" % f.qn, "%s counts %s bytes per attribute description" % (f.qn, cval(v)), x.where)
        if f.n in GETTER:
            rs = [inner(r.kids[0]) for r in f.walk() if r.k == "ReturnStmt" and r.kids]
            for r in rs:
                if r.k == "MemberExpr" and REC.match(r.get("rec") or ""):
                    rep.ok("description of an attribute handed on", r.where)
                    if r.get("n") != GETTER[f.n]:
                        rep.bad("getter:%s" % f.n, "%s returns %s" % (f.n, r.get("n")), r.where)
