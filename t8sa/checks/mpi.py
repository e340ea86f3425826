"""P05 datatypes/tags, P06 nonblocking requests, P07 collectives"""
import re
from ..lib import *
from ..poly import poly, add, mul, const, inner
from .sizes import Elems, ident, origin, allocs, count_of, sizeofs, plain, unchanged, atom

W = {"int": (4, "i"), "unsigned": (4, "i"), "unsigned_int": (4, "i"), "long": (8, "i"), "unsigned_long": (8, "i"), "long_long_int": (8, "i"),
     "long_long": (8, "i"), "unsigned_long_long": (8, "i"), "short": (2, "i"), "unsigned_short": (2, "i"), "char": (1, "i"), "signed_char": (1, "i"),
     "unsigned_char": (1, "i"), "int8_t": (1, "i"), "uint8_t": (1, "i"), "int16_t": (2, "i"), "uint16_t": (2, "i"), "int32_t": (4, "i"),
     "uint32_t": (4, "i"), "int64_t": (8, "i"), "uint64_t": (8, "i"), "double": (8, "f"), "float": (4, "f"), "long_double": (16, "f"), "c_bool": (1, "i")}
ANY = {"byte", "packed"}

# callee -> list of (buffer, count, datatype) argument positions
BUF = {}
for n in ("Send", "Isend", "Ssend", "Issend", "Bsend", "Rsend", "Recv", "Irecv", "Bcast", "Ibcast", "Pack"):
    BUF["MPI_" + n] = [(0, 1, 2)]
for n in ("Allreduce", "Reduce", "Scan", "Exscan", "Iallreduce"):
    BUF["MPI_" + n] = [(0, 2, 3), (1, 2, 3)]
for n in ("Allgather", "Gather", "Scatter", "Alltoall"):
    BUF["MPI_" + n] = [(0, 1, 2), (3, 4, 5)]
for n in ("Allgatherv", "Gatherv"):
    BUF["MPI_" + n] = [(0, 1, 2), (3, None, 6)]
BUF["MPI_Unpack"] = [(3, 4, 5)]
BUF["MPI_Sendrecv"] = [(0, 1, 2), (5, 6, 7)]
BUF["sc_shmem_allgather"] = [(0, 1, 2), (3, None, 5)]
BUF["sc_shmem_prefix"] = [(0, 2, 3), (1, None, 3)]
BUF["t8_shmem_array_allgather"] = [(0, 1, 2)]
BUF["t8_shmem_array_allgatherv"] = [(0, 1, 2)]
BUF["t8_shmem_prefix"] = [(0, 2, 3)]
for k in list(BUF):
    if k.startswith("MPI_"):
        BUF["sc_" + k] = BUF[k]

SEND = {"MPI_Send": (4, 2), "MPI_Isend": (4, 2), "MPI_Ssend": (4, 2), "MPI_Issend": (4, 2), "sc_MPI_Send": (4, 2), "sc_MPI_Isend": (4, 2)}
RECV = {"MPI_Recv": (4, 2), "MPI_Irecv": (4, 2), "sc_MPI_Recv": (4, 2), "sc_MPI_Irecv": (4, 2)}
PROBE = {"MPI_Probe": 1, "MPI_Iprobe": 1, "sc_MPI_Probe": 1, "sc_MPI_Iprobe": 1}


def bufelem(a):
    """element type of the memory a buffer argument points to, and whether it is the address of a single object"""
    single = False
    n = a
    # the innermost expression before conversion to void*
    chain = list(castchain(a))
    n = chain[-1]
    # an explicit cast to T* counts as the author's statement only if the operand is untyped
    t = n.t
    if n.k == "UnaryOperator" and n.op == "&":
        x = n.kids[0].strip()
        single = x.k in ("DeclRefExpr", "MemberExpr")
        t = n.kids[0].t
        if t is not None and t.k == "arr":
            single = False
            t = t.base_elem()
        return t, single, n.kids[0]
    if t is None:
        return None, False, n
    if t.k == "arr":
        return t.base_elem(), False, n
    if t.k == "ptr":
        return t.to, False, n
    if n.k == "CXXMemberCallExpr" and n.cn == "data":
        return t.to if t.k == "ptr" else None, False, n
    return None, False, n


def classify(t):
    if t is None:
        return None
    if t.k in ("int", "bool", "enum", "char"):
        return ((t.w or 8 * (t.size or 0)) // 8, "i")
    if t.k in ("flt", "float"):
        return ((t.w or 8 * (t.size or 0)) // 8, "f")
    return None


BYTEISH = re.compile(r"byte|size|alloc|len|position|Get_count|get_count|Pack", re.I)


class Units:
    """is a value counted in bytes? (some definition of it multiplies with a size, asks for a count of bytes, ...)"""
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.member = {}
        self.callers = {}
        for f in P.all:
            if f.tmpl or f.body is None:
                continue
            for n in f.walk():
                if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "+="):
                    x = inner(n.c[0])
                    if x.k == "MemberExpr":
                        self.member.setdefault((x.get("rec"), x.get("n")), []).append((n.c[1], f))
            for n in f.calls():
                for g in P.resolve(n):
                    self.callers.setdefault(g.key, []).append((n, f))

    def bytes(self, n, f, depth=0):
        x = inner(n)
        if sizeofs(n):
            return True
        if depth > 6:
            return True
        if cval(n) is not None:
            return True
        if x.is_call:
            if BYTEISH.search(x.cn or ""):
                return True
            gs = [g for g in self.P.resolve(x) if g.body is not None]
            return not gs or any(self.bytes(r.kids[0], g, depth + 1) for g in gs for r in g.walk() if r.k == "ReturnStmt" and r.kids and cval(r.kids[0]) is None)
        if x.k == "BinaryOperator" and x.op in ("+", "-", "*"):
            return self.bytes(x.c[0], f, depth + 1) and cval(x.c[0]) is None or self.bytes(x.c[1], f, depth + 1) and cval(x.c[1]) is None
        if x.k == "ConditionalOperator":
            return self.bytes(x.c[1], f, depth + 1) or self.bytes(x.c[2], f, depth + 1)
        while x.k == "UnaryOperator" and x.op == "*":
            x = inner(x.c[0])
        if x.k == "MemberExpr":
            k = ("m", x.get("rec"), x.get("n"))
            if k in self.memo:
                return self.memo[k]
            self.memo[k] = False
            if x.get("n") in ("elem_size", "attr_size"):
                r = True
            else:
                l = self.member.get(k[1:], [])
                r = any(self.bytes(e, g, depth + 1) for e, g in l) or not l
                # filled by address
            self.memo[k] = r
            return r
        if x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm"):
            d = x.get("d")
            k = ("l", f.key, d)
            if k in self.memo:
                return self.memo[k]
            self.memo[k] = False
            defs = [f.varinit[d]] if f.varinit.get(d) is not None else []
            r = False
            for w in assigned(f, d):
                if w.k in ("BinaryOperator", "CompoundAssignOperator"):
                    defs.append(w.c[1])
                elif w.op == "&":
                    c = next((a for a in w.ancestors() if a.is_call), None)
                    if c is not None and (BYTEISH.search(c.cn or "") or self.out(c, w, depth)):
                        r = True
            for n2 in f.walk():      # *p = ... for a parameter
                if n2.k in ("BinaryOperator", "CompoundAssignOperator") and n2.op in ("=", "+="):
                    l = inner(n2.c[0])
                    if l.k == "UnaryOperator" and l.op == "*" and varid(l.c[0]) == d:
                        defs.append(n2.c[1])
                elif n2.is_call and BYTEISH.search(n2.cn or "") and any(a is not None and varid(a) == d and a.t is not None and a.t.k == "ptr" for a in n2.args):
                    r = True
            r = r or any(self.bytes(e, f, depth + 1) for e in defs if cval(e) is None)
            if not r and x.get("dk") == "parm":
                i = next((j for j, q in enumerate(f.params) if q["id"] == d), None)
                cs = self.callers.get(f.key, [])
                r = not cs or any(i < len(c.args) and c.args[i] is not None and self.bytes(c.args[i], g, depth + 1) for c, g in cs)
            self.memo[k] = r
            return r
        if x.k in ("ArraySubscriptExpr", "CXXOperatorCallExpr"):
            b = inner(x.c[0]) if x.k == "ArraySubscriptExpr" else inner(x.args[0])
            return self.bytes(b, f, depth + 1) if b.k in ("DeclRefExpr", "MemberExpr") else True
        return True

    def out(self, c, w, depth):
        """the callee stores a number of bytes through this argument"""
        for g in self.P.resolve(c):
            if g.body is None:
                continue
            for i, a in enumerate(c.args):
                if a is not None and any(y is w for y in a.walk()) and i < len(g.params):
                    d = g.params[i]["id"]
                    for n in g.walk():
                        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "+="):
                            l = inner(n.c[0])
                            if l.k == "UnaryOperator" and l.op == "*" and varid(l.c[0]) == d and self.bytes(n.c[1], g, depth + 1):
                                return True
                        elif n.is_call and BYTEISH.search(n.cn or "") and any(b is not None and varid(b) == d for b in n.args):
                            return True
        return False


def loose(n, f):
    """polynomial in which the name of a value stands for the expression it was initialised with"""
    out = {}
    for m, v in poly(n, f).items():
        t = {(): v}
        for a in m:
            t = mul(t, {(a,): 1})
        out = add(out, t)
    for x in n.walk():
        if x.k == "DeclRefExpr" and x.get("dk") == "local":
            i = f.varinit.get(x.get("d"))
            if i is not None and not assigned(f, x.get("d")):
                a = atom(x)
                if any(a in m for m in out):
                    sub = loose(i, f)
                    new = {}
                    for m, v in out.items():
                        t = {(): v}
                        for b in m:
                            t = mul(t, sub if b == a else {(b,): 1})
                        new = add(new, t)
                    out = new
    return out


def other_field(alloc, cnt):
    """the allocation and the count are different fields of one object"""
    y = inner(cnt)
    if y.k != "MemberExpr":
        return False
    for m in alloc.walk():
        if m.k == "MemberExpr" and m.get("rec") == y.get("rec") and atom(m.kids[0]) == atom(y.kids[0]):
            return m.get("n") != y.get("n")
    return False


def run_bytes(P, rep):
    E = Elems(P)
    U = Units(P)
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        al = None
        for c in f.calls():
            for b, cn, ty in BUF.get(c.cn, ()):
                if cn is None or max(b, cn, ty) >= len(c.args):
                    continue
                mt = mtype(c.args[ty], f)
                cnt = c.args[cn]
                if mt is None:
                    continue
                if mt not in ANY and W.get(mt, (1,))[0] > 1 and sizeofs(cnt):
                    rep.bad("count:%s:%s" % (f.n, c.args[b].src()), "%s: %s counts elements of type %s, but the count %s is a number of bytes" % (f.n, c.cn, mt, cnt.src()), c.where)
                    continue
                if mt not in ("byte", "char") or c.cn in ("MPI_Pack", "MPI_Unpack"):
                    continue
                x, t, avail, single = origin(c.args[b])
                rep.ok("byte count of a message", "%s %s" % (c.where, cnt.src()[:50]))
                if avail is not None and cval(cnt) is not None:
                    if single and cval(cnt) != avail:
                        rep.bad("count:%s:%s" % (f.n, x.src()), "%s: %d bytes of %s are communicated, which has %d" % (f.n, cval(cnt), x.src(), avail), c.where)
                    continue
                # the storage of a container
                box = None
                if x.k == "MemberExpr" and x.get("n") == "array" and "sc_array" in (x.get("rec") or ""):
                    box = x.kids[0]
                elif x.is_call and re.match(r"(t8_)?sc_array_index", x.cn or ""):
                    box = x.args[0]
                if box is not None:
                    sz = {q for q, nm in E.of(box, f)}
                    if sz and None not in sz and len(sz) == 1:
                        want = next(iter(sz))
                        p = poly(cnt, f)
                        if "elem_size" not in cnt.src() and any(v % want for v in p.values()):
                            rep.bad("count:%s:%s" % (f.n, box.src()), "%s: the elements of %s have %d bytes, but %s bytes are communicated" % (f.n, box.src(), want, cnt.src()), c.where)
                            continue
                        # as many elements as the container was resized to
                        for r in f.calls():
                            if r.cn == "sc_array_resize" and atom(inner(r.args[0])) .strip("&") == atom(box).strip("&") and r.l < c.l:
                                q, p = loose(r.args[1], f), loose(cnt, f)
                                if {k: v * want for k, v in q.items()} != p and not any(y.k == "MemberExpr" and y.get("n") == "elem_count" for y in cnt.walk()):
                                    rep.bad("count:%s:%s" % (f.n, box.src()), "%s: %s has %s elements, but %s bytes are communicated" % (f.n, box.src(), r.args[1].src(), cnt.src()), c.where)
                    continue
                # a block of bytes
                if al is None:
                    al = allocs(f)
                k = ("v", x.get("d")) if x.k == "DeclRefExpr" else ("m", atom(x)) if x.k == "MemberExpr" else None
                same = False
                for e, n in al.get(k, ()):
                    q = count_of(e, f)
                    if q is not None and q == poly(cnt, f):
                        same = True
                    elif q is not None and len(al[k]) == 1 and x.k == "MemberExpr" and other_field(e, cnt):
                        rep.bad("count:%s:%s" % (f.n, x.src()), "%s: %s holds %s bytes, but %s of them are communicated" % (f.n, x.src(), e.src(), cnt.src()), c.where)
                        same = True
                if not same and not U.bytes(cnt, f):
                    rep.bad("count:%s:%s" % (f.n, x.src()), "%s: %s is communicated bytewise, but the count %s is not a number of bytes" % (f.n, x.src(), cnt.src()), c.where)
    rep.need("byte count of a message", 5)


def run_probe(P, rep):
    """a message that is probed for is received, with the probed tag, by the same function or one it calls"""
    def tags_of(f, depth, seen):
        out = set()
        if f.key in seen or depth > 3 or f.body is None:
            return out
        seen.add(f.key)
        for c in f.calls():
            if c.cn in RECV and len(c.args) > RECV[c.cn][0]:
                out.add(tag(c.args[RECV[c.cn][0]]) or "?")
            for g in P.resolve(c):
                out |= tags_of(g, depth + 1, seen)
        return out
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for c in f.calls():
            if c.cn in PROBE and len(c.args) > PROBE[c.cn]:
                tg = tag(c.args[PROBE[c.cn]])
                if not tg:
                    continue
                got = tags_of(f, 0, set())
                rep.ok("probed message", "%s %s" % (c.where, tg))
                if got and "?" not in got and tg not in got:
                    rep.bad("probe:%s:%s" % (f.n, tg), "%s probes for messages with tag %s but receives tag %s" % (f.n, tg, "/".join(sorted(got))), c.where)
            if c.cn in ("MPI_Get_count", "sc_MPI_Get_count") and len(c.args) >= 2:
                mt = mtype(c.args[1], f)
                rs = set()
                for d in [f] + [g for k in f.calls() for g in P.resolve(k)]:
                    if d.body is not None:
                        for r in d.calls():
                            if r.cn in RECV:
                                rs.add(mtype(r.args[2], d))
                rep.ok("size of a probed message", c.where)
                if mt and rs and None not in rs and mt not in rs:
                    rep.bad("getcount:%s" % f.n, "%s counts a message in MPI %s but receives MPI %s" % (f.n, mt, "/".join(sorted(rs))), c.where)


def run_P05(P, rep):
    run_bytes(P, rep)
    run_probe(P, rep)
    tags = {}
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        tr = None
        for c in f.calls():
            if c.cn in BUF:
                for b, cn, ty in BUF[c.cn]:
                    if max(b, ty, cn or 0) >= len(c.args):
                        continue
                    ty_n = c.args[ty]
                    mt = mtype(ty_n, f)
                    if mt is None:
                        rep.ok("datatype passed through a parameter", c.where)
                        continue
                    a = c.args[b]
                    if a is None or (cval(a) is not None) or "MPI_IN_PLACE" in a.m or any("MPI_IN_PLACE" in x.m or "sc_MPI_IN_PLACE" in x.m for x in a.walk()):
                        continue
                    t, single, n = bufelem(a)
                    rep.ok("communicated buffers", "%s %s as %s" % (c.where, a.src(), mt))
                    if mt in ANY:
                        # a byte count that names a type must name the buffer's element type
                        cnt = c.args[cn] if cn is not None else None
                        if cnt is not None and single and cval(cnt) is not None and t is not None and t.size and mt == "byte" and cval(cnt) > t.size:
                            rep.bad("%s %s count" % (f.qn, c.cn), "%d bytes are communicated from/to %s, which has %d" % (cval(cnt), n.src(), t.size), c.where)
                        continue
                    k = classify(t)
                    if k is None or mt not in W:
                        continue
                    rep.ok("typed buffers")
                    if W[mt] != k and not (t.k == "char" and mt in ANY):
                        rep.bad("%s %s %s as %s" % (f.qn, c.cn, a.src(), mt), "buffer %s has elements of type %s (%d bytes, %s) but is communicated as MPI %s (%d bytes)" % (a.src(), t.s, k[0], k[1], mt, W[mt][0]), c.where)
                    cnt = c.args[cn] if cn is not None else None
                    if single and cnt is not None and cval(cnt) is not None and cval(cnt) > 1 and not next_fields(n):
                        rep.bad("%s %s count of %s" % (f.qn, c.cn, a.src()), "%d items are communicated from/to the single object %s" % (cval(cnt), a.src()), c.where)
            # both sides of a collective use the same type
            if c.cn in BUF and len(BUF[c.cn]) == 2 and BUF[c.cn][0][2] != BUF[c.cn][1][2] and len(c.args) > BUF[c.cn][1][2]:
                x, y = mtype(c.args[BUF[c.cn][0][2]], f), mtype(c.args[BUF[c.cn][1][2]], f)
                if x and y:
                    rep.ok("send/receive types of collectives")
                    if x != y and c.cn not in ("MPI_Sendrecv",):
                        rep.bad("%s %s types" % (f.qn, c.cn), "sends MPI %s but receives MPI %s" % (x, y), c.where)
            for kind, tab in (("send", SEND), ("recv", RECV)):
                if c.cn in tab and len(c.args) > tab[c.cn][0]:
                    tg = tag(c.args[tab[c.cn][0]])
                    if tg:
                        tags.setdefault(tg, []).append((kind, mtype(c.args[tab[c.cn][1]], f), c))
            if c.cn in PROBE and len(c.args) > PROBE[c.cn]:
                tg = tag(c.args[PROBE[c.cn]])
                if tg:
                    tags.setdefault(tg, []).append(("probe", None, c))
    for tg, L in sorted(tags.items()):
        s = {t for k, t, c in L if k == "send"}
        r = {t for k, t, c in L if k == "recv"}
        rep.ok("message tags", "%s: sent as %s, received as %s" % (tg, sorted(map(str, s)), sorted(map(str, r))))
        one = L[0][2]
        if not s:
            rep.bad("tag %s never sent" % tg, "messages with tag %s are received here but never sent" % tg, one.where)
        elif not r:
            rep.bad("tag %s never received" % tg, "messages with tag %s are sent here but never received" % tg, one.where)
        elif None not in s | r and s != r:
            rep.bad("tag %s types" % tg, "messages with tag %s are sent as %s but received as %s" % (tg, sorted(s), sorted(r)), one.where)
    ids = {}
    for tg in tags:
        v = tags_value(P, tg)
        if v is not None:
            ids.setdefault(v, []).append(tg)
    for v, t in ids.items():
        rep.ok("tag values")
        if len(t) > 1:
            rep.bad("tags %s" % sorted(t), "tags %s have the same value" % sorted(t), "")
    rep.need("typed buffers", 40)


def tags_value(P, name):
    for e, d in P.enums.items():
        if name in d:
            return d[name]
    return None


def next_fields(n):
    """a member of a record with further members: consecutive members may be communicated together"""
    return n.k == "MemberExpr"


def tag(n):
    s = n.strip()
    if s.k == "DeclRefExpr" and s.get("dk") not in ("local", "parm"):
        return s.get("n")
    return None


def mtype(n, f):
    t = mpitype(n)
    if t is None:
        d = varid(n)
        if d is not None and d in f.varinit and not assigned(f, d):
            t = mpitype(f.varinit[d])
        elif d is not None and d in f.vardecls and d not in f.varinit:
            ws = [w for w in assigned(f, d) if w.k == "BinaryOperator"]
            ts = {mpitype(w.c[1]) for w in ws}
            if len(ts) == 1:
                t = ts.pop()
    return t
