"""P24: memory is as large as its use requires and addressed by the type it was made for."""
import re
from ..lib import *
from ..model import CASTS, LOOPS
from ..poly import poly, add, const, inner, stable, mul, atom

INIT = {"sc_array_init": (0, 1, None), "sc_array_init_size": (0, 1, 2), "sc_array_init_count": (0, 1, 2), "sc_array_init_data": (0, 2, 3), "t8_shmem_array_init": (0, 1, 2)}
NEW = {"sc_array_new": (0, None), "sc_array_new_size": (0, 1), "sc_array_new_count": (0, 1), "sc_array_new_data": (1, 2), "sc_mempool_new": (0, None),
       "sc_mempool_new_zero_and_persist": (0, None)}
TYPED = re.compile(r"t8_shmem_array_(get_gloidx|set_gloidx|get_gloidx_array|get_gloidx_array_for_writing)$")
ACCESS = re.compile(r"t8_shmem_array_(index|index_for_writing|get_array)$|(t8_)?sc_array_(index(_\w+)?|push(_count)?|pop)$|sc_mempool_alloc$|t8_sc_array_index_\w+$")


def is_box(t):
    s = (t.s if t is not None else "") or ""
    return "sc_array" in s or "sc_mempool" in s or "t8_shmem_array" in s


def ident(n, f):
    x = inner(n)
    while x.k == "UnaryOperator" and x.op in ("&", "*"):
        x = inner(x.c[0])
    if x.k == "DeclRefExpr":
        return ("l", f.key, x.get("d")) if x.get("dk") in ("local", "parm") else ("g", x.get("n"))
    if x.k == "MemberExpr":
        return ("m", x.get("rec"), x.get("n"))
    if x.is_call:
        return ("r", x.cn)
    return None


class Elems:
    """container -> set of (element size, element type name or None)"""
    def __init__(self, P):
        self.size = {}
        self.extent = {}
        self.P = P
        edges = {}
        for f in P.all:
            if f.tmpl or f.body is None:
                continue
            for n in f.walk():
                if n.is_call and n.cn in INIT and len(n.args) > INIT[n.cn][1]:
                    k = ident(n.args[INIT[n.cn][0]], f)
                    self.put(k, n.args[INIT[n.cn][1]])
                    if n.cn == "t8_shmem_array_init" and k is not None:
                        self.extent.setdefault(k, set()).add(ranks(poly(n.args[2], f)))
                elif n.is_call:
                    for g in P.resolve(n):
                        for i, a in enumerate(n.args):
                            if a is not None and is_box(a.t) and i < len(g.params):
                                k = ident(a, f)
                                if k is not None:
                                    edges.setdefault(k, set()).add(("l", g.key, g.params[i]["id"]))
                                    # an array that is set up by the callee
                                    edges.setdefault(("l", g.key, g.params[i]["id"]), set()).add(k) if is_setup(g, i) else None
                if n.k == "BinaryOperator" and n.op == "=" and is_box(n.c[0].t):
                    self.flow(n.c[0], n.c[1], f, edges)
                elif n.k == "DeclStmt":
                    for v in n.d["decls"]:
                        i = f.varinit.get(v["id"])
                        if i is not None and is_box(i.t):
                            self.flow2(("l", f.key, v["id"]), i, f, edges)
                elif n.k == "ReturnStmt" and n.kids and is_box(n.kids[0].t):
                    self.flow2(("r", f.n), n.kids[0], f, edges)
        work = list(self.size)
        while work:
            k = work.pop()
            for t in edges.get(k, ()):
                if not self.size[k] <= self.size.setdefault(t, set()) or not self.extent.get(k, set()) <= self.extent.setdefault(t, set()):
                    self.size[t] |= self.size[k]
                    self.extent.setdefault(t, set()).update(self.extent.get(k, set()))
                    work.append(t)

    def put(self, k, e):
        if k is None:
            return
        c = cval(e)
        x = inner(e)
        name = None
        if x.k == "UnaryExprOrTypeTraitExpr" and x.op == "sizeof":
            t = x.get("at_t") if x.get("at_t") is not None else None
            name = t.cs if t is not None else None
        self.size.setdefault(k, set()).add((c, name))

    def flow(self, l, r, f, edges):
        self.flow2(ident(l, f), r, f, edges)

    def flow2(self, k, r, f, edges):
        if k is None:
            return
        x = inner(r)
        if x.k == "CallExpr" and x.cn in NEW:
            self.put(k, x.args[NEW[x.cn][0]])
            return
        if x.k == "ConditionalOperator":
            self.flow2(k, x.c[1], f, edges); self.flow2(k, x.c[2], f, edges)
            return
        s = ident(r, f)
        if s is not None:
            edges.setdefault(s, set()).add(k)

    def of(self, n, f):
        return self.size.get(ident(n, f), set())


def is_setup(g, i):
    d = g.params[i]["id"]
    return any(n.is_call and n.cn in INIT and varid(n.args[INIT[n.cn][0]]) == d for n in g.calls()) if g.body is not None else False


def ranks(p):
    """c if the polynomial is (number of processes) + c, with the rank counted as its largest value; else None"""
    c = 0; k = 0
    for m, v in p.items():
        if m == ():
            c += v
            continue
        name = m[0].split("#")[0] if len(m) == 1 else ""
        name = re.split(r"->|\.", name)[-1].strip("()")
        if name in ("mpisize", "num_procs", "mpi_size") and v == 1:
            k += 1
        elif name in ("mpirank", "rank", "mpi_rank") and v == 1:
            k += 1; c -= 1
        else:
            return None
    return c if k == 1 else None


def viewed(n):
    """type this untyped pointer is given by the casts around it"""
    p = n.parent
    while p is not None and (p.k in CASTS or p.k == "ParenExpr"):
        if p.t is not None and p.t.k == "ptr" and p.t.to is not None and p.t.to.k not in ("void", "other") and p.t.to.s not in ("void", "const void"):
            return p.t.to
        p = p.parent
    return None


def run_elems(P, rep, E):
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for n in f.walk():
            a = None
            if n.is_call and n.cn and (ACCESS.match(n.cn) or TYPED.match(n.cn)) and n.args:
                a = n.args[0]
            elif n.k == "MemberExpr" and n.get("n") == "array" and "sc_array" in (n.get("rec") or ""):
                a = n.kids[0] if n.kids else None
            if a is None:
                continue
            t = viewed(n)
            if n.is_call and TYPED.match(n.cn):
                sz = {s for s, nm in E.of(a, f)}
                if sz and None not in sz:
                    rep.ok("shared array accessed as the type it was made for", n.where)
                    if sz != {8}:
                        rep.bad("elem:%s:%s:gloidx" % (f.n, a.src()), "%s accesses the entries of %s, made with %s bytes, as 64-bit ids" % (f.n, a.src(), "/".join(map(str, sorted(sz)))), n.where)
                continue
            if t is None or not t.size or t.s in ("char", "const char"):
                continue
            sz = {s for s, nm in E.of(a, f)}
            if not sz or None in sz:
                continue
            rep.ok("container element accessed as the type it was made for", "%s: %s as %s" % (n.where, a.src(), t.s))
            if t.size not in sz:
                rep.bad("elem:%s:%s:%s" % (f.n, a.src(), t.s), "%s accesses the elements of %s, made with %s bytes, as %s of %d bytes" % (f.n, a.src(), "/".join(map(str, sorted(sz))), t.s, t.size), n.where)



def run_ranks(P, rep, E):
    """tables with one entry per process and an end entry are not read or written beyond it"""
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        ptr = {}
        for v, i in f.varinit.items():
            if i is not None:
                ptr.setdefault(v, []).append(i)
        for n in f.walk():
            if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) is not None:
                ptr.setdefault(varid(n.c[0]), []).append(n.c[1])
        for n in f.walk():
            if n.is_call and re.match(r"t8_shmem_array_(set_gloidx|get_gloidx|index|index_for_writing)$", n.cn or ""):
                ext = E.extent.get(ident(n.args[0], f), set())
                idx = n.args[1]; what = n.args[0].src()
            elif n.k == "ArraySubscriptExpr" and varid(n.c[0]) in ptr:
                ext = set()
                for i in ptr[varid(n.c[0])]:
                    x = inner(i)
                    if x.is_call and re.match(r"t8_shmem_array_get_(gloidx_)?array", x.cn or "") and x.args:
                        ext |= E.extent.get(ident(x.args[0], f), set())
                    else:
                        ext.add(None)
                idx = n.c[1]; what = n.c[0].src()
            else:
                continue
            if not ext or None in ext:
                continue
            loops = loops_of(n)
            u, used = upper(idx, f, loops, None)
            if u is None:
                continue
            d = ranks(u)
            if d is None:
                continue
            if "rank" in idx.src() and any(i.k == "IfStmt" and i.l <= n.l and re.search(r"mpirank|mpisize|\brank\b", i.c[2].src()) for i in f.walk()):
                continue          # the last process is told apart
            rep.ok("table with an entry per process", "%s %s" % (n.where, n.src()[:50]))
            if d >= min(ext) and not guarded(n, used, loops[next(iter(used))][3] if used else None):
                rep.bad("ranks:%s:%s" % (f.n, what), "%s accesses entry %s of %s, which has only number of processes %+d entries" % (f.n, idx.src(), what, min(ext)), n.where)


MEM = {"memcpy": ((0, 1), 2), "memmove": ((0, 1), 2), "memset": ((0,), 2), "memcmp": ((0, 1), 2), "__builtin_memcpy": ((0, 1), 2)}


def origin(a):
    """(expression, element type, bytes available or None, is address of one object) behind a pointer argument"""
    x = list(castchain(a))[-1]
    while x.k == "ParenExpr":
        x = list(castchain(x.kids[0]))[-1]
    if x.k == "UnaryOperator" and x.op == "&":
        y = x.kids[0]
        while y.k in CASTS or y.k == "ParenExpr":
            y = y.kids[0]
        if y.k in ("DeclRefExpr", "MemberExpr"):
            t = y.t
            if t is not None and t.k == "arr":
                return y, t.base_elem(), t.size, False
            return y, t, t.size if t is not None else None, True
        if y.k == "ArraySubscriptExpr":
            t = y.t
            return y, t, None, False
        return y, y.t, None, False
    t = x.t
    if t is not None and t.k == "arr":
        return x, t.base_elem(), t.size, False
    if t is not None and t.k == "ptr":
        return x, t.to, None, False
    return x, None, None, False


def plain(t):
    """a type whose size says something about the memory: not void, not characters"""
    if t is None or not t.size or t.k in ("void", "fn"):
        return False
    s = t.s
    return not re.match(r"(const )?(unsigned |signed )?char$|(const )?void$|(const )?std::byte$", s)


def sizeofs(n):
    return [x for x in n.walk() if x.k == "UnaryExprOrTypeTraitExpr" and x.op == "sizeof"]


def run_mem(P, rep):
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for n in f.calls():
            if n.cn not in MEM or len(n.args) <= MEM[n.cn][1]:
                continue
            ops, ln = MEM[n.cn]
            cnt = n.args[ln]
            sz = [cval(x) for x in sizeofs(cnt)]
            c = cval(cnt)
            rep.ok("memory copied, set or compared", "%s %s" % (n.where, n.src()[:60]))
            for i in ops:
                x, t, avail, single = origin(n.args[i])
                if avail is not None and c is not None:
                    if c > avail:
                        rep.bad("mem:%s:%s" % (f.n, x.src()[:40]), "%s: %s of %d bytes on %s, which has %d" % (f.n, n.cn, c, x.src(), avail), n.where)
                        continue
                    if single and n.cn != "memset" and c < avail and plain(t) and t.k != "rec":
                        rep.bad("mem:%s:%s" % (f.n, x.src()[:40]), "%s: %s of %d bytes of %s, which has %d" % (f.n, n.cn, c, x.src(), avail), n.where)
                        continue
                if plain(t) and sz and None not in sz and t.k != "ptr":
                    e = t.base_elem() if t.k == "arr" else t
                    if not any(s % e.size == 0 for s in sz) and not any(e.size == s for s in sz):
                        rep.bad("mem:%s:%s" % (f.n, x.src()[:40]), "%s: %s counts elements of %s bytes, but %s has elements of type %s with %d" % (f.n, n.cn, "/".join(map(str, sz)), x.src()[:50], e.s, e.size), n.where)
                    elif t.k == "rec" and max(sz) != e.size and len(sz) == 1 and inner(cnt).k == "UnaryExprOrTypeTraitExpr":
                        rep.bad("mem:%s:%s" % (f.n, x.src()[:40]), "%s: %s of %d bytes of a %s, which has %d" % (f.n, n.cn, sz[0], e.s, e.size), n.where)
                    elif t.k in ("int", "flt", "enum", "bool") and all(s != e.size for s in sz):
                        rep.bad("mem:%s:%s" % (f.n, x.src()[:40]), "%s: %s counts elements of %s bytes, but %s has elements of type %s with %d" % (f.n, n.cn, "/".join(map(str, sz)), x.src()[:50], e.s, e.size), n.where)
        for n in f.calls():
            if n.cn in ("snprintf", "vsnprintf", "__builtin___snprintf_chk", "fgets", "strncpy", "getcwd") and len(n.args) >= 2:
                x, t, avail, single = origin(n.args[0])
                k = 2 if n.cn == "strncpy" else 1
                c = cval(n.args[k])
                if avail is not None and c is not None:
                    rep.ok("bounded text buffer", n.where)
                    if c > avail:
                        rep.bad("text:%s:%s" % (f.n, x.src()), "%s writes up to %d characters into %s, which has %d" % (f.n, c, x.src(), avail), n.where)


# ---- indices

def loops_of(n):
    """loop variable -> (first, bound, inclusive, loop) of the counting loops around n"""
    out = {}
    prev = n
    for a in n.ancestors():
        if a.k == "ForStmt" and len(a.c) >= 4 and prev is not a.c[0]:
            r = counting(a)
            if r is not None and r[0] not in out and prev is a.c[-1]:
                out[r[0]] = r[1:] + (a,)
        prev = a
    return out


def by_one(x):
    """v++, v += 1, v = v + 1"""
    if x.k == "UnaryOperator" and x.op == "++":
        return True
    one = lambda y: cval(y) == 1
    if x.k == "CompoundAssignOperator" and x.op == "+=":
        return one(inner(x.c[1]))
    if x.k == "BinaryOperator" and x.op == "=" and varid(x.c[0]) is not None:
        y = inner(x.c[1])
        if y.k == "BinaryOperator" and y.op == "+":
            l, r = inner(y.c[0]), inner(y.c[1])
            return varid(l) == varid(x.c[0]) and one(r) or varid(r) == varid(x.c[0]) and one(l)
    return False


def counting(a):
    """for (v = first; v < bound; ++v) whose body does not change v"""
    init, body = a.c[0], a.c[-1]
    rest = [x for x in a.c[1:-1] if x is not None]
    if len(rest) < 2 or init is None:
        return None
    cond, inc = inner(rest[-2]), inner(rest[-1])
    cs = []
    st = [cond]
    while st:
        x = inner(st.pop())
        if x.k == "BinaryOperator" and x.op == "&&":
            st += [x.c[0], x.c[1]]
        else:
            cs.append(x)
    vars_ = []
    if init.k == "DeclStmt":
        vars_ = [(v["id"], a.fn.varinit.get(v["id"])) for v in init.d["decls"]]
    else:
        st = [init]
        while st:
            x = inner(st.pop())
            if x.k == "BinaryOperator" and x.op == ",":
                st += [x.c[0], x.c[1]]
            elif x.k == "BinaryOperator" and x.op == "=" and varid(x.c[0]) is not None:
                vars_.append((varid(x.c[0]), x.c[1]))
    up = [x for x in inc.walk() if by_one(x)]
    for v, first in vars_:
        if first is None or not any(varid(u.c[0]) == v for u in up):
            continue
        if any(w for w in assigned(a.fn, v) if any(y is a.c[-1] for y in w.ancestors())):
            continue
        for c in cs:
            if c.k != "BinaryOperator":
                continue
            l, r, op = c.c[0], c.c[1], c.op
            if varid(r) == v:
                l, r, op = r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if varid(l) == v and op in ("<", "<=", "!="):
                return v, first, r, op == "<="
    return None


def guarded(n, vs, stop):
    """a condition between n and the loops mentions one of the variables"""
    prev = n
    for a in n.ancestors():
        c = None
        if a.k == "IfStmt":
            c = a.c[2]
        elif a.k == "ConditionalOperator":
            c = a.c[0]
        elif a.k == "BinaryOperator" and a.op in ("&&", "||") and prev is a.c[1]:
            c = a.c[0]
        elif a.k in ("WhileStmt", "SwitchStmt"):
            c = a.c[0] if a.k == "WhileStmt" else a
        if c is not None and (a.k == "SwitchStmt" or any(x.k == "DeclRefExpr" and x.get("d") in vs for x in c.walk())):
            return True
        if a is stop:
            break
        prev = a
    # an early exit of the loop body that mentions the variable
    if stop is not None:
        for x in stop.walk():
            if x.k in ("ContinueStmt", "BreakStmt") and x.l <= n.l:
                return True
    return False


def upper(idx, f, loops, table):
    """largest value of an index as a polynomial; None if unknown"""
    p = poly(idx, f)
    used = set()
    for _ in range(4):
        r = {}
        ch = False
        for m, c in p.items():
            hit = None
            for k, a in enumerate(m):
                v = a.split("#")[1] if "#" in a else None
                for lv in loops:
                    if v == str(lv) and "(" not in a.split("#")[0] and "[" not in a.split("#")[0] and "->" not in a.split("#")[0] and "." not in a.split("#")[0]:
                        hit = (k, lv)
            if hit is None:
                r[m] = r.get(m, 0) + c
                continue
            k, lv = hit
            first, bound, incl, loop = loops[lv]
            if len(m) > 1:
                return None, used
            used.add(lv)
            ch = True
            sub = poly(bound, f) if c > 0 else poly(first, f)
            if c > 0 and not incl:
                sub = add(sub, {(): 1}, -1)
            for q, w in sub.items():
                r[q] = r.get(q, 0) + c * w
        p = {k: v for k, v in r.items() if v}
        if not ch:
            break
    return p, used


def run_index(P, rep):
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for n in f.walk():
            if n.k != "ArraySubscriptExpr":
                continue
            b = n.c[0]
            while b.k in CASTS or b.k == "ParenExpr":
                b = b.kids[0]
            t = b.t
            if t is None or t.k != "arr" or not t.n:
                continue
            c = cval(n.c[1])
            par = n.parent
            if c is not None:
                addr = par is not None and par.k == "UnaryOperator" and par.op == "&"
                rep.ok("constant index into a fixed array")
                if c < 0 or c >= t.n + (1 if addr else 0):
                    rep.bad("index:%s:%s:%d" % (f.n, b.src(), c), "%s: index %d of %s, which has %d entries" % (f.n, c, b.src(), t.n), n.where)
                continue
            loops = loops_of(n)
            if not loops:
                continue
            u, used = upper(n.c[1], f, loops, None)
            if u is None or not used:
                continue
            m = const(u)
            if m is None:
                continue
            rep.ok("loop index into a fixed array", "%s %s" % (n.where, n.src()[:50]))
            if m >= t.n and not guarded(n, used, loops[next(iter(used))][3]):
                rep.bad("index:%s:%s" % (f.n, b.src()), "%s: index %s of %s reaches %d, but there are %d entries" % (f.n, n.c[1].src(), b.src(), m, t.n), n.where)


def allocs(f):
    """variable -> [(element count, node)] allocated in this function; None entries for other assignments"""
    out = {}
    for n in f.walk():
        tgt = e = None
        if n.k == "BinaryOperator" and n.op == "=":
            tgt, e = n.c[0], n.c[1]
            x = inner(tgt)
            k = ("v", x.get("d")) if x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm") else ("m", atom(x)) if x.k == "MemberExpr" else None
            if k is not None:
                out.setdefault(k, []).append((e, n))
        elif n.k == "DeclStmt":
            for v in n.d["decls"]:
                i = f.varinit.get(v["id"])
                if i is not None:
                    out.setdefault(("v", v["id"]), []).append((i, n))
    return out


def count_of(e, f):
    """number of elements an allocation expression or vector constructor provides, as polynomial"""
    if e.t is None:
        return None
    x = inner(e)
    if x.k == "CallExpr" and x.cn in ("sc_malloc", "sc_calloc", "malloc", "calloc", "sc_realloc"):
        t = None
        for y in castchain(e):
            if y.t is not None and y.t.k == "ptr" and y.t.to is not None and y.t.to.size and y.t.to.k != "void":
                t = y.t.to
                break
        if t is None or not t.size:
            return None
        if x.cn == "sc_malloc":
            p = poly(x.args[1], f)
        elif x.cn == "malloc":
            p = poly(x.args[0], f)
        elif x.cn == "sc_realloc":
            p = poly(x.args[2], f)
        elif x.cn == "sc_calloc":
            p = mul(poly(x.args[1], f), poly(x.args[2], f))
        else:
            p = mul(poly(x.args[0], f), poly(x.args[1], f))
        if all(v % t.size == 0 for v in p.values()):
            return {k: v // t.size for k, v in p.items()}
        return None
    if x.k == "CXXConstructExpr" and re.match(r"(const )?std::vector<", x.t.cs or x.t.s if x.t is not None else ""):
        a = [y for y in x.args if y is not None and y.k != "CXXDefaultArgExpr"]
        if a and a[0].t is not None and a[0].t.k in ("int", "enum"):
            return poly(a[0], f)
    return None


def branches(e):
    """the allocating branches of a choice, or the expression itself"""
    x = inner(e)
    if x.k == "ConditionalOperator":
        b = [y for y in (x.c[1], x.c[2]) if inner(y).k == "CallExpr" and (inner(y).cn or "") in ALLOC]
        if len(b) == 1:
            return b
    return [e]


ALLOC = ("sc_malloc", "sc_calloc", "malloc", "calloc", "sc_realloc")


def elem_size(e):
    for y in castchain(e):
        if y.t is not None and y.t.k == "ptr" and y.t.to is not None and y.t.to.size and y.t.to.k != "void":
            return y.t.to.size
    return None


def byte_poly(x, f):
    if x.cn == "sc_malloc":
        return poly(x.args[1], f)
    if x.cn == "malloc":
        return poly(x.args[0], f)
    if x.cn == "sc_realloc":
        return poly(x.args[2], f)
    if x.cn == "sc_calloc":
        return mul(poly(x.args[1], f), poly(x.args[2], f))
    return mul(poly(x.args[0], f), poly(x.args[1], f))


BYTES = re.compile(r"byte|size|alloc|len|cap", re.I)
MPIBUF = {"MPI_Gatherv": (3, 6), "MPI_Gather": (3, 5), "MPI_Allgather": (3, 5), "MPI_Allgatherv": (3, 6), "MPI_Recv": (0, 2), "MPI_Irecv": (0, 2), "MPI_Bcast": (0, 2),
          "MPI_Scatter": (3, 5), "MPI_Scatterv": (4, 6)}


def run_units(P, rep):
    """blocks are allocated in the units they are used in"""
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        chars = {}
        for n in f.walk():
            if not (n.k == "CallExpr" and n.cn in ALLOC):
                continue
            p = byte_poly(n, f)
            # the casts around the call, from the inside
            types = []
            a = n.parent
            tgt = None
            while a is not None and (a.k in CASTS or a.k == "ParenExpr"):
                if a.t is not None and a.t.k == "ptr" and a.t.to is not None and a.t.to.k != "void":
                    types.append(a.t.to)
                a = a.parent
            if not types:
                continue
            rep.ok("block allocated in the units of its elements", n.where)
            last = types[-1]
            names = " ".join(x for m in p for x in m)
            if types[0].size == 1 and last.size and last.size > 1 and last.k != "fn" and p and \
                    not any(v % last.size == 0 for v in p.values()) and not BYTES.search(names) and not any(x.is_call for y in n.args[1:] if y is not None for x in y.walk()):
                rep.bad("units:%s" % f.n, "%s allocates %s bytes for elements of type %s, which have %d bytes each" % (f.n, show(p), last.s, last.size), n.where)
            if types[0].size == 1:
                for y in [z for arg in n.args[1:] if arg is not None for z in sizeofs(arg)]:
                    st = sizeof_type(y)
                    if st is not None and st.k == "ptr" and st.to is not None and st.to.k == "rec" and types[-1].k != "ptr":
                        rep.bad("pointersize:%s" % f.n, "%s counts the size of a pointer (%s) in the bytes it allocates" % (f.n, y.src()), y.where)
                d = None
                if a is not None and a.k == "BinaryOperator" and a.op == "=":
                    d = varid(a.c[0])
                elif a is not None and a.k == "DeclStmt":
                    d = next((v["id"] for v in a.d["decls"] if f.varinit.get(v["id"]) is not None and any(z is n for z in f.varinit[v["id"]].walk())), None)
                if d is not None:
                    chars[d] = (p, n)
        for n in f.calls():
            k = (n.cn or "").replace("sc_", "")
            if k in MPIBUF and len(n.args) > MPIBUF[k][1] and chars:
                d = varid(n.args[MPIBUF[k][0]])
                t = mpitype(n.args[MPIBUF[k][1]])
                if d in chars and t not in ("byte", "char", "packed") and not is_byte_type(n.args[MPIBUF[k][1]]):
                    p, at = chars[d]
                    rep.ok("receive buffer allocated in bytes", n.where)
                    if p and all(len(m) == 1 and v == 1 for m, v in p.items() if m) and not BYTES.search(" ".join(x for m in p for x in m)):
                        rep.bad("units:%s:%s" % (f.n, n.cn), "%s receives elements of an MPI datatype into a block of %s bytes: the size of an element is missing" % (f.n, show(p)), at.where)
        # arrays with one entry per process of a communicator
        comm = {}
        for n in f.calls():
            if (n.cn or "").replace("sc_", "") == "MPI_Comm_size" and len(n.args) == 2:
                o = n.args[1].strip()
                if o.k == "UnaryOperator" and o.op == "&" and varid(o.c[0]) is not None:
                    comm.setdefault(varid(o.c[0]), set()).add(atom(inner(n.args[0])))
        if len({next(iter(v)) for v in comm.values() if len(v) == 1}) >= 2:
            arr = {}
            for k, l in allocs(f).items():
                if k[0] != "v":
                    continue
                for e, n in l:
                    x = inner(e)
                    if x.k == "CallExpr" and x.cn in ALLOC:
                        ds = {y.get("d") for a in x.args if a is not None for y in a.walk() if y.k == "DeclRefExpr" and y.get("dk") in ("local", "parm")}
                        if len(ds) == 1 and ds <= comm.keys():
                            arr.setdefault(k[1], set()).update(comm[ds.pop()])
            for n in f.calls():
                cs = [a for a in n.args if a is not None and a.t is not None and "ompi_communicator_t" in a.t.cs]
                if len(cs) != 1:
                    continue
                c = atom(inner(cs[0]))
                for a in n.args:
                    d = varid(a) if a is not None else None
                    if d in arr and len(arr[d]) == 1:
                        rep.ok("array with an entry per process of its communicator", n.where)
                        if c not in arr[d]:
                            rep.bad("commsize:%s:%s" % (f.n, a.src()), "%s passes '%s', which has an entry for each process of %s, to %s over %s" %
                                    (f.n, a.src(), next(iter(arr[d])).split("#")[0], n.cn, c.split("#")[0]), n.where)
        # text appended behind an offset
        for n in f.calls():
            if n.cn in ("snprintf", "vsnprintf", "__builtin___snprintf_chk") and len(n.args) >= 2:
                x = inner(n.args[0])
                if x.k == "UnaryOperator" and x.op == "&" and inner(x.c[0]).k == "ArraySubscriptExpr":
                    off = inner(x.c[0]).c[1]
                elif x.k == "BinaryOperator" and x.op == "+":
                    off = x.c[1]
                else:
                    continue
                rep.ok("text appended inside its buffer", n.where)
                o, z = poly(off, f), poly(n.args[1], f)
                if const(o) is None and const(z) is not None:
                    rep.bad("append:%s" % f.n, "%s appends up to %d characters behind the first %s, as if the whole buffer were left" % (f.n, const(z), off.src()), n.where)


def sizeof_type(y):
    if y.kids:
        return y.kids[0].t
    return y.fn.tu.type(y.get("at")) if y.get("at") is not None else None


def is_byte_type(a):
    return any(x.k == "DeclRefExpr" and re.search("byte|char|packed", x.get("n") or "") for x in a.walk())


def run_alloc(P, rep):
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        al = allocs(f)
        size = {}
        esz = {}
        for k, l in al.items():
            l = [(b, n) for e, n in l for b in branches(e)]
            cs = [count_of(e, f) for e, n in l]
            if all(c is not None for c in cs) and cs and all(c == cs[0] for c in cs):
                esz[k] = elem_size(l[0][0])
                size[k] = (cs[0], l[0][1], {x.get("d") for e, n in l for x in e.walk() if x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm")})
        if not size:
            continue
        grown = set()
        for n in f.calls():
            if n.k == "CXXMemberCallExpr" and n.cn in ("resize", "push_back", "emplace_back", "insert", "assign", "swap"):
                m = n.c[0].strip()
                o = inner(m.kids[0]) if m.kids else None
                if o is not None and o.k == "DeclRefExpr":
                    grown.add(("v", o.get("d")))
        for n in f.walk():
            if n.k == "ArraySubscriptExpr":
                b, idx = n.c[0], n.c[1]
            elif n.k == "CXXOperatorCallExpr" and n.op == "[]" and len(n.args) == 2:
                b, idx = n.args
            else:
                continue
            x = inner(b)
            k = ("v", x.get("d")) if x.k == "DeclRefExpr" else ("m", atom(x)) if x.k == "MemberExpr" else None
            if k not in size or k in grown:
                continue
            s, at, vs = size[k]
            if n.l < at.l or not unchanged(f, vs, at, n):
                continue
            loops = loops_of(n)
            u, used = upper(idx, f, loops, None)
            if u is None:
                continue
            ws = set()
            for e in [idx] + [y for lv in used for y in loops[lv][:2]]:
                ws |= {x.get("d") for x in e.walk() if x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm")}
            if not unchanged(f, ws - used, at, n):
                continue
            d = beyond(add(u, s, -1))
            if d is None:
                continue
            par = n.parent
            addr = 1 if par is not None and par.k == "UnaryOperator" and par.op == "&" else 0
            rep.ok("index into an allocated array", "%s %s" % (n.where, n.src()[:50]))
            if d >= addr and not guarded(n, used or {varid(idx)}, loops[next(iter(used))][3] if used else None):
                rep.bad("alloc:%s:%s" % (f.n, x.src()), "%s: index %s of %s goes %d beyond the %s entries it is allocated with" % (f.n, idx.src(), x.src(), d + 1, show(s)), n.where)


        for n in f.calls():
            if n.cn not in MEM:
                continue
            for i in MEM[n.cn][0]:
                x, t, avail, single = origin(n.args[i])
                off = {}
                if x.k == "BinaryOperator" and x.op == "+" and x.t is not None and x.t.k == "ptr":
                    off = poly(x.c[1], f)
                    if not stable(x.c[1], f):
                        continue
                    x = inner(x.c[0])
                k = ("v", x.get("d")) if x.k == "DeclRefExpr" else ("m", atom(x)) if x.k == "MemberExpr" else None
                ts = t.size if t is not None and t.size and t.k != "void" else esz.get(k)
                if k not in size or k in grown or not ts or n.l < size[k][1].l or off and t is not None and t.k == "void":
                    continue
                ws = {y.get("d") for y in n.args[MEM[n.cn][1]].walk() if y.k == "DeclRefExpr" and y.get("dk") in ("local", "parm")}
                if not unchanged(f, ws | size[k][2], size[k][1], n):
                    continue
                have = {m: v * ts for m, v in add(size[k][0], off, -1).items()}
                d = beyond(add(poly(n.args[MEM[n.cn][1]], f), have, -1))
                if d is None:
                    continue
                rep.ok("memory operation inside an allocated block", "%s %s" % (n.where, n.src()[:60]))
                if d > 0:
                    rep.bad("memalloc:%s:%s" % (f.n, x.src()), "%s: %s goes %d bytes beyond the block %s" % (f.n, n.cn, d, x.src()), n.where)


def beyond(p):
    """by how much at least, if every count is at least one; negative: inside; None: cannot tell"""
    c = const(p)
    if c is not None:
        return c
    m = [v for k, v in p.items() if k != ()]
    if all(v > 0 for v in m):
        t = sum(m) + p.get((), 0)
        return t if t >= 0 else None
    return None


def unchanged(f, vs, at, use):
    """none of the variables is written between the allocation and the use"""
    end = use.l
    for a in use.ancestors():
        if a.k in LOOPS and not any(y is a for y in at.ancestors()):
            end = max(end, max((y.l for y in a.walk() if y.l), default=end))
    for d in vs:
        for w in assigned(f, d):
            if at.l < w.l <= end:
                return False
    return True


def show(p):
    return " + ".join(("%d*" % v if v != 1 and k else "") + ("*".join(a.split("#")[0] for a in k) if k else str(v)) for k, v in sorted(p.items())) or "0"


def members(e, f, P, depth=0, seen=None):
    """names of the members an amount is computed from, through variables and small functions"""
    seen = set() if seen is None else seen
    out = set()
    for x in e.walk():
        if x.k == "MemberExpr":
            out.add(x.get("n"))
        elif x.k == "DeclRefExpr" and x.get("dk") in ("local", "slocal") and (f.key, x.get("d")) not in seen:
            seen.add((f.key, x.get("d")))
            d = x.get("d")
            i = f.varinit.get(d)
            if i is not None:
                out |= members(i, f, P, depth, seen)
            for y in f.walk():
                if y.k in ("BinaryOperator", "CompoundAssignOperator") and y.op.endswith("=") and y.op not in ("==", "!=", "<=", ">=") and varid(y.c[0]) == d:
                    out |= members(y.c[1], f, P, depth, seen)
                elif y.is_call and any(a is not None and a.strip().k == "UnaryOperator" and a.strip().op == "&" and varid(a.strip().c[0]) == d for a in y.args):
                    out.add("?")
        elif x.k == "DeclRefExpr" and x.get("dk") == "parm" and x.t is not None and x.t.k == "int":
            out.add("?" + (x.get("n") or ""))
        elif x.is_call:
            fs = [g for g in P.resolve(x) if g.body is not None]
            if not fs or depth > 3:
                out.add("?")
            for g in fs:
                if ("call", g.key) in seen:
                    continue
                seen.add(("call", g.key))
                for r in g.walk():
                    if r.k == "ReturnStmt" and r.kids:
                        out |= members(r.kids[0], g, P, depth + 1, seen)
    return out


def run_generic(P, rep):
    """the content of a container of elements of any size is counted and addressed by the element size it holds"""
    boxes = {r for r, d in P.records.items() if {"elem_size", "elem_count", "array"} <= {x["n"] for x in d["fields"]}}

    def content(a):
        x = list(castchain(a))[-1]
        while x.k == "ParenExpr":
            x = list(castchain(x.kids[0]))[-1]
        if x.k == "MemberExpr" and x.get("n") == "array" and x.kids and x.kids[0].t is not None:
            t = x.kids[0].t
            t = t.to if t.k == "ptr" else t
            if t is not None and t.k == "rec":
                return re.sub(r"^(const )?(struct )?", "", t.cs).strip(), x
        return None, None
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for n in f.walk():
            if n.is_call and (n.cn in MEM or n.cn == "sc_shmem_memcpy") and len(n.args) > 2:
                for i in MEM.get(n.cn, ((0, 1), 2))[0]:
                    r, x = content(n.args[i])
                    if r is None or "shmem" not in r:
                        continue
                    m = members(n.args[2], f, P)
                    rep.ok("content of a container counted by its own element size", "%s %s" % (n.where, n.src()[:50]))
                    if "elem_size" not in m and not any(y.startswith("?") for y in m - {"?"}) and ("elem_count" in m or "?" not in m):
                        rep.bad("content:%s" % f.n, "%s: %s of the elements of %s does not count their size (%s)" % (f.n, n.cn, x.src(), n.args[2].src()), n.where)
            elif n.k == "BinaryOperator" and n.op == "+" and n.t is not None and n.t.k == "ptr" and n.t.to is not None and n.t.to.size == 1:
                for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                    r, x = content(a)
                    if r is None or r not in boxes:
                        continue
                    m = members(b, f, P)
                    rep.ok("content of a container counted by its own element size", "%s %s" % (n.where, n.src()[:50]))
                    if "elem_size" not in m and "?" not in m and not sizeofs(b):
                        rep.bad("content:%s" % f.n, "%s addresses an element of %s without its size: %s" % (f.n, x.src(), n.src()[:60]), n.where)


def run_P24(P, rep):
    run_generic(P, rep)
    E = Elems(P)
    run_elems(P, rep, E)
    run_ranks(P, rep, E)
    run_mem(P, rep)
    run_index(P, rep)
    run_alloc(P, rep)
    run_units(P, rep)
