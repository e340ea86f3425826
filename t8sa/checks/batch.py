"""P30: evaluating a batch of points gives each point what evaluating it alone would give."""
import re
from ..lib import *
from ..model import CASTS, LOOPS
from ..poly import add, mul, const, inner
from ..flow import reach, Pos
from .sizes import counting, by_one

COUNT = re.compile(r"num_(coords|points)$")
POINTS = re.compile(r"^(ref_coords|points|in_coords)$")
OUT = re.compile(r"^(out_coords|coords_out|is_inside|jacobian(_out)?|out)$")
MEM = ("memset", "memcpy", "memmove")


def counter(a):
    """(variable, first, bound, inclusive) of a loop that counts up by one"""
    if a.k == "ForStmt":
        return counting(a)
    if a.k == "WhileStmt":
        kids = a.kids
        cond, body = inner(kids[-2]), kids[-1]
        if cond.k != "BinaryOperator":
            return None
        l, r, op = cond.c[0], cond.c[1], cond.op
        v = varid(l)
        if op in (">", ">=") or v is None:
            l, r, op = r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            v = varid(l)
        if v is None or op not in ("<", "<=", "!="):
            return None
        ws = assigned(a.fn, v)
        inc = [w for w in ws if by_one(w) and any(x is body for x in w.ancestors())]
        top = [w for w in inc if w.parent is body or w.parent is a]
        if len(inc) != 1 or len(top) != 1 or any(w for w in ws if w is not inc[0] and any(x is a for x in w.ancestors())):
            return None
        if body.k == "CompoundStmt" and body.kids and body.kids[-1] is not inc[0]:
            return None
        first = [w.c[1] for w in ws if w.k == "BinaryOperator" and w.op == "=" and w.l <= a.l]
        if not first and a.fn.varinit.get(v) is not None:
            first = [a.fn.varinit[v]]
        if not first:
            return None
        return v, first[-1], r, op == "<="
    return None


class F:
    """one function with its batch parameters"""
    def __init__(self, f, n, ins, outs):
        self.f = f; self.n = n; self.ins = ins; self.outs = outs
        self.role = {}
        for i in ins:
            self.role[f.params[i]["id"]] = ("in", i)
        for i in outs:
            self.role[f.params[i]["id"]] = ("out", i)
        self.nid = f.params[n]["id"]
        self.loops = []
        self.loc()

    def loc(self):
        """local arrays with one entry per point"""
        f = self.f
        for d, (v, s) in f.vardecls.items():
            if d in self.role or s is None:
                continue
            t = f.vtype(d)
            i = f.varinit.get(d)
            if t is not None and t.k == "ptr" and i is not None and not assigned(f, d):
                c = inner(i)
                if c.is_call and c.cn in ("sc_malloc", "sc_calloc", "malloc", "calloc", "operator new[]") and any(self.nid in vars_of(a) for a in c.args if a is not None):
                    self.role[d] = ("tmp", v["n"])
                    continue
            if t is not None and t.k == "arr":
                # a fixed array used with a point index, and handed on with the count
                for c in f.calls():
                    if any(a is not None and varid(a) == d for a in c.args) and any(a is not None and const(add(self.poly(a), {("n",): 1}, -1)) == 0 for a in c.args if a.t is not None and a.t.k == "int"):
                        self.role[d] = ("tmp", v["n"])

    # ---- values
    def single(self, d):
        """the only value a local gets"""
        f = self.f
        i = f.varinit.get(d)
        ws = assigned(f, d)
        if i is not None and not ws:
            return i
        if i is None and len(ws) == 1 and ws[0].k == "BinaryOperator" and ws[0].op == "=":
            return ws[0].c[1]
        return None

    def poly(self, n, depth=0):
        c = cval(n)
        if c is not None:
            return {(): c} if c else {}
        x = inner(n)
        c = cval(x)
        if c is not None:
            return {(): c} if c else {}
        if x.k == "BinaryOperator" and x.op in ("+", "-", "*"):
            a, b = self.poly(x.c[0], depth), self.poly(x.c[1], depth)
            return add(a, b, 1 if x.op == "+" else -1) if x.op != "*" else mul(a, b)
        if x.k == "UnaryOperator" and x.op == "-":
            return add({}, self.poly(x.c[0], depth), -1)
        if x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm"):
            d = x.get("d")
            if d == self.nid:
                return {("n",): 1}
            if x.get("dk") == "local" and depth < 6:
                i = self.single(d)
                if i is not None and i.t is not None and i.t.k in ("int", "enum", "bool") and not any(y.is_call for y in i.walk()):
                    return self.poly(i, depth + 1)
            return {(("v", d),): 1}
        return {(x.src(),): 1}

    def ptr(self, n, depth=0):
        """(role variable, offset) of a pointer into a batch array"""
        x = inner(n)
        if x.k == "DeclRefExpr":
            d = x.get("d")
            if d in self.role:
                return d, {}
            if x.get("dk") == "local" and depth < 6 and x.t is not None and x.t.k == "ptr":
                i = self.single(d)
                if i is not None:
                    return self.ptr(i, depth + 1)
                return self.moving(d, depth)
            return None
        if x.k == "BinaryOperator" and x.op in ("+", "-") and x.t is not None and x.t.k == "ptr":
            for a, b in ((0, 1), (1, 0)):
                r = self.ptr(x.c[a], depth)
                if r is not None:
                    o = self.poly(x.c[b])
                    return r[0], add(r[1], o, 1 if x.op == "+" else -1)
            return None
        if x.k == "UnaryOperator" and x.op == "&":
            y = inner(x.c[0])
            if y.k == "ArraySubscriptExpr":
                r = self.ptr(y.c[0], depth)
                return None if r is None else (r[0], add(r[1], self.poly(y.c[1])))
        return None

    def moving(self, d, depth):
        """a pointer that starts at a batch array and advances once per point"""
        f = self.f
        i = f.varinit.get(d)
        ws = assigned(f, d)
        init = [i] if i is not None else [w.c[1] for w in ws if w.k == "BinaryOperator" and w.op == "="]
        step = [w for w in ws if not (w.k == "BinaryOperator" and w.op == "=")]
        if len(init) != 1 or len(step) != 1:
            return None
        b = self.ptr(init[0], depth + 1)
        s = step[0]
        lp = s.within(LOOPS)
        if b is None or lp is None:
            return None
        for L, v in self.loops:
            if L is lp:
                if s.k == "CompoundAssignOperator" and s.op == "+=":
                    return b[0], add(b[1], mul(self.poly(s.c[1]), {(("v", v),): 1}))
                if s.op == "++":
                    return b[0], add(b[1], {(("v", v),): 1})
        return None


def targets(P, c):
    """functions a call may reach; a call through the scheme variant reaches every scheme"""
    r = P.resolve(c)
    if r or c.get("callee") is not None or not c.kids or c.kids[0].k != "CXXDependentScopeMemberExpr":
        return r
    return [f for f in P.byname.get(c.kids[0].get("n"), []) if f.cls and "_scheme_" in f.cls + "_" and f.body is not None and not f.tmpl and f.cls != c.fn.cls and len(f.params) == len(c.args)]


def vars_of(n):
    return {x.get("d") for x in n.walk() if x.k == "DeclRefExpr"}


def split(p, v):
    """coefficient of v, rest; None if v occurs otherwise"""
    co, rest = {}, {}
    for m, c in p.items():
        k = [a for a in m if a == ("v", v)]
        if len(k) > 1:
            return None
        if k:
            m2 = list(m); m2.remove(("v", v))
            co[tuple(m2)] = co.get(tuple(m2), 0) + c
        else:
            rest[m] = rest.get(m, 0) + c
    return co, rest


def collect(P):
    B = {}
    protos = {}
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        n = [i for i, p in enumerate(f.params) if COUNT.search(p["n"] or "") and f.ptype(i) is not None and f.ptype(i).k == "int"]
        if len(n) != 1:
            continue
        ins = [i for i, p in enumerate(f.params) if POINTS.match(p["n"] or "") and isptr(f.ptype(i))]
        outs = [i for i, p in enumerate(f.params) if OUT.match(p["n"] or "") and isptr(f.ptype(i)) and not f.ptype(i).pointee_const]
        if ins or outs:
            B[f.key] = F(f, n[0], ins, outs)
    work = list(B.values())
    # parameters of other names get their role from the functions they are handed from, or that they override
    while work:
        b = work.pop()
        f = b.f
        for o in list(P.over.get(f.key, ())):
            if o.key not in B and o.body is not None and not o.tmpl:
                B[o.key] = F(o, b.n, b.ins, b.outs); work.append(B[o.key])
        for c in f.calls():
            ni = [i for i, a in enumerate(c.args) if a is not None and a.t is not None and a.t.k == "int" and b.poly(a) == {("n",): 1}]
            if len(ni) != 1:
                continue
            ii, oi = [], []
            for i, a in enumerate(c.args):
                if a is None or not isptr(a.t):
                    continue
                r = b.ptr(a)
                if r is None:
                    continue
                (ii if b.role[r[0]][0] == "in" else oi).append(i)
            for g in targets(P, c):
                if g.key in B or g.body is None or g.tmpl or not g.params or len(g.params) < len(c.args) or not (ii or oi) or "forest" == g.n:
                    continue
                ins = [i for i in ii + oi if isptr(g.ptype(i)) and g.ptype(i).pointee_const]
                outs = [i for i in ii + oi if isptr(g.ptype(i)) and not g.ptype(i).pointee_const]
                if g.ptype(ni[0]) is not None and g.ptype(ni[0]).k == "int":
                    B[g.key] = F(g, ni[0], ins, outs); work.append(B[g.key])
    return B


def isptr(t):
    return t is not None and t.k in ("ptr", "arr")


def point_loops(b):
    """loops over the points, and loops that almost are"""
    out, odd = [], []
    for a in b.f.walk():
        if a.k not in ("ForStmt", "WhileStmt"):
            continue
        r = counter(a)
        if r is None:
            c = [x for x in a.c[1:-1] if x is not None] if a.k == "ForStmt" else [a.kids[-2]]
            if a.k == "ForStmt" and c and any(b.nid in vars_of(x) for x in c):
                odd.append((a, "does not count every point"))
            continue
        v, first, bound, incl = r
        p = b.poly(bound)
        if not any("n" in m for m in p):
            if b.nid in vars_of(bound):
                odd.append((a, "does not count every point"))
            continue
        d = add(p, {("n",): 1}, -1)
        if incl:
            d = add(d, {(): 1})
        if not any("n" in m for m in d) and const(d) is not None:
            lo = const(b.poly(first))
            if const(d) != 0:
                odd.append((a, "ends %d point(s) %s" % (abs(const(d)), "beyond the last" if const(d) > 0 else "before the last")))
            elif lo != 0:
                odd.append((a, "starts at point %s" % (lo if lo is not None else first.src())))
            else:
                out.append((a, v))
    return out, odd


def body_of(a):
    return a.c[-1] if a.c[-1] is not None else a.kids[-1]


def leaves(a):
    """statements that leave the loop before its end"""
    for x in body_of(a).walk(into_lambda=False):
        if x.k in ("BreakStmt", "GotoStmt", "ReturnStmt"):
            if x.k == "BreakStmt":
                y = x.within(LOOPS | {"SwitchStmt"})
                if y is not a:
                    continue
            yield x


def accesses(b, a):
    """(node, variable, offset, is write, is call argument) of batch arrays below a"""
    for x in a.walk():
        if x.k == "ArraySubscriptExpr":
            r = b.ptr(x.c[0])
            if r is None:
                continue
            p = x.parent
            if p is not None and p.k == "UnaryOperator" and p.op == "&":
                continue
            yield x, r[0], add(r[1], b.poly(x.c[1])), iswrite(x), None
        elif x.k == "UnaryOperator" and x.op == "*":
            r = b.ptr(x.c[0])
            if r is not None:
                yield x, r[0], r[1], iswrite(x), None
        elif x.is_call:
            for i, g in enumerate(x.args):
                if g is None or not isptr(inner(g).t):
                    continue
                r = b.ptr(g)
                if r is not None:
                    yield g, r[0], r[1], not (g.t is not None and g.t.k == "ptr" and g.t.pointee_const), x


def dead(b, x, stop):
    """inside a loop that never runs"""
    for a in x.ancestors():
        if a is stop:
            return False
        if a.k == "ForStmt":
            r = counter(a)
            if r is not None:
                lo, hi = const(b.poly(r[1])), const(b.poly(r[2]))
                if lo is not None and hi is not None and hi + (1 if r[3] else 0) <= lo:
                    return True
    return False


def iswrite(x):
    n = x
    while n.parent is not None and (n.parent.k == "ParenExpr"):
        n = n.parent
    p = n.parent
    return p is not None and (p.k in ("BinaryOperator", "CompoundAssignOperator") and p.op.endswith("=") and p.op not in ("==", "<=", ">=", "!=") and p.c[0] is n or p.k == "UnaryOperator" and p.op in ("++", "--"))


def inner_upper(b, rest, x):
    """largest value of the part of an offset that does not depend on the point: constant or None"""
    tot = 0
    for m, c in rest.items():
        if m == ():
            tot += c
            continue
        if len(m) != 1 or not isinstance(m[0], tuple) or c < 0:
            return None
        up = None
        for a in x.ancestors():
            if a.k in ("ForStmt", "WhileStmt"):
                r = counter(a)
                if r is not None and r[0] == m[0][1]:
                    k = const(b.poly(r[2]))
                    if k is not None:
                        up = k - (0 if r[3] else 1)
        if up is None:
            return None
        tot += c * up
    return tot


DIM = [0, 1, 2, 2, 3, 3, 3, 3]


def classes_at(x):
    """{source of a class: element classes it can be at x}, from the labels of switches and from comparisons"""
    out = {}
    prev = x
    for a in x.ancestors():
        if a.k == "SwitchStmt":
            body = a.kids[-1]
            cur, found = [], None
            for s in body.kids:
                t = s
                while t is not None and t.k in ("CaseStmt", "DefaultStmt"):
                    cur.append(cval(t.c[0]) if t.k == "CaseStmt" else None)
                    t = t.kids[-1]
                if any(y is x for y in s.walk()):
                    found = list(cur)
                    break
                if t is not None and (t.k in ("BreakStmt", "ReturnStmt") or t.k == "CompoundStmt" and t.kids and t.kids[-1].k in ("BreakStmt", "ReturnStmt")):
                    cur = []
            if found and None not in found:
                out.setdefault(inner(a.kids[-2]).src(), found)
        elif a.k == "IfStmt" and prev is a.c[3]:
            c = inner(a.c[2])
            if c.k == "BinaryOperator" and c.op == "==":
                for i in (0, 1):
                    k = cval(c.c[i])
                    if k is not None:
                        out.setdefault(inner(c.c[1 - i]).src(), [k])
        prev = a
    return {k: v for k, v in out.items() if all(0 <= c < len(DIM) for c in v)}


def dimension_at(P, b, atom, x):
    """what a stride t8_eclass_to_dimension[X] can be at x; 1 where nothing is known about X"""
    m = re.match(r"t8_eclass_to_dimension\[(.*)\]$", atom)
    if not m:
        return None
    cl = classes_at(x).get(m.group(1).strip("()"))
    if cl:
        return min(DIM[c] for c in cl)
    cls = m.group(1).strip("()")
    for a in x.ancestors():
        if a.k == "SwitchStmt" and cls in a.kids[0].src():
            return "switch"
        if a.k == "IfStmt" and cls in a.c[2].src():
            return "guard"
    return 1


LAYOUT = {"is_inside": 1, "points": 3, "coords_out": 3}
SCHEME = re.compile(r"_scheme_(vertex|line|quad|tri|hex|tet|prism|pyramid)$")
NAMES = {"vertex": 1, "line": 1, "quad": 2, "tri": 2, "hex": 3, "tet": 3, "prism": 3, "pyramid": 3}


def geometry_dims(P):
    """{geometry class: dimension of the trees it is used for in the example meshes}, where there is only one"""
    dims = {}
    for f in P.all:
        if f.body is None or f.tmpl:
            continue
        reg = [c for c in f.calls() if c.cn == "t8_cmesh_register_geometry"]
        cl = [cval(c.args[2]) for c in f.calls() if c.cn == "t8_cmesh_set_tree_class" and len(c.args) > 2]
        if len(reg) != 1 or not cl or any(k is None or not 0 <= k < len(DIM) for k in cl):
            continue
        m = re.match(r"_Z26t8_cmesh_register_geometryI(\d+)", reg[0].get("callee") or "")
        if m:
            g = reg[0].get("callee")[m.end():][:int(m.group(1))]
            dims.setdefault(g, set()).update(DIM[k] for k in cl)
    return {g: next(iter(d)) for g, d in dims.items() if len(d) == 1}


def layout(b, i, l, rep):
    """documented number of entries per point"""
    f = b.f
    name = f.params[i]["n"]
    want = LAYOUT.get(name)
    if f.n == "element_get_reference_coords":
        m = SCHEME.search(f.cls or "")
        want = (3 if i in b.ins else NAMES[m.group(1)]) if m else want
    elif f.n == "t8_geom_evaluate":
        want = 3 if i in b.outs else b.gdim.get(f.cls)
    for co, x in l:
        k = const(co)
        if want is not None and k is not None:
            rep.ok("documented number of entries per point", "%s %s: %d" % (f.qn, name, want))
            if k != want:
                rep.bad("layout:%s:%s" % (f.qn, name), "%s: the points in %s lie %s apart, not %d" % (f.qn, name, k, want), x.where)
                return
        if k is not None and i in b.ins and (isinstance(name, str) and name == "ref_coords"):
            for s, cl in classes_at(x).items():
                if "class" in s and any(DIM[c] != k for c in cl) and f.n.startswith("t8_geom"):
                    rep.bad("layout:%s:%s" % (f.qn, name), "%s: the points in %s lie %d apart also for trees of dimension %d" % (f.qn, name, k, next(DIM[c] for c in cl if DIM[c] != k)), x.where)
                    return


def run_P30(P, rep):
    B = collect(P)
    for b in B.values():
        b.loops, b.odd = point_loops(b)
    strides = {}      # (function key, parameter index) -> [(poly, node)]
    tmp = {}
    for b in B.values():
        f = b.f
        rep.ok("function that evaluates a batch of points", "%s %s" % (f.where, [p["n"] for p in f.params]))
        single = only_one(b)
        for a, why in b.odd:
            if not single:
                rep.bad("loop:%s:%d" % (f.qn, len([x for x in b.odd if x[0].l < a.l])), "%s: the loop over the points %s" % (f.qn, why), a.where)
        nodes = {a.i for a, v in b.loops}
        for a, v in b.loops:
            if any(x.i in nodes for x in a.ancestors()):
                continue
            rep.ok("loop over the points of a batch", "%s %s" % (a.where, f.qn))
            for x in leaves(a):
                if in_macro(x, "T8_ASSERT", "SC_CHECK_ABORT"):
                    continue
                rep.bad("exit:%s" % f.qn, "%s: the loop over the points is left before the last point" % f.qn, x.where)
            for x, d, off, w, call in accesses(b, body_of(a)):
                if dead(b, x, a):
                    continue
                s = split(off, v)
                if s is None:
                    continue
                co, rest = s
                kind, idx = b.role[d]
                name = f.vardecls[d][0]["n"]
                if any("n" in m for m in off):
                    rep.bad("count:%s:%s" % (f.qn, idx), "%s: inside the loop over the points, %s is addressed by the number of points (%s)" % (f.qn, name, x.src()), x.where)
                    continue
                if not co:
                    if call is not None and any(v in vars_of(g) or dep(b, g, v) for g in call.args if g is not None and g.t is not None and g.t.k == "int"):
                        continue
                    if kind == "tmp" and any(isinstance(q, tuple) for m in rest for q in m):
                        continue
                    if call is not None and in_macro(call, "T8_ASSERT"):
                        continue
                    rep.bad("same:%s:%s" % (f.qn, idx), "%s: every point of the batch uses the same entries of %s (%s)" % (f.qn, name, x.src()[:80]), x.where)
                    continue
                rep.ok("access to the data of one point", "%s %s stride %s" % (x.where, name, show(co)))
                (strides.setdefault((f.key, idx), []) if kind != "tmp" else tmp.setdefault((f.key, d), [])).append((co, x))
                k = const(co)
                if k is not None and call is None:
                    hi = inner_upper(b, rest, x)
                    if hi is not None and (hi >= k or hi < 0):
                        rep.bad("beyond:%s:%s" % (f.qn, idx), "%s: entry %d of a point in %s, which has %d entries per point" % (f.qn, hi, name, k), x.where)
                elif k is None and call is None and len(co) == 1:
                    (m, c), = co.items()
                    hi = inner_upper(b, rest, x)
                    if hi is not None and c == 1 and len(m) == 1 and isinstance(m[0], str):
                        dm = dimension_at(P, b, m[0], x)
                        if isinstance(dm, int) and hi >= dm:
                            rep.bad("beyond:%s:%s" % (f.qn, idx), "%s: entry %d of a point in %s, which has %s entries per point" % (f.qn, hi, name, m[0]), x.where)
            # arrays that are not per point
            for x in body_of(a).walk():
                if x.k != "ArraySubscriptExpr" or b.ptr(x.c[0]) is not None:
                    continue
                y = inner(x.c[0])
                if not (y.k == "MemberExpr" or y.k == "DeclRefExpr" and y.get("dk") == "parm"):
                    continue
                s = split(b.poly(x.c[1]), v)
                rep.ok("data common to all points")
                if s is not None and s[0]:
                    rep.bad("common:%s:%s" % (f.qn, y.src()), "%s: %s is common to all points of the batch but addressed by the point (%s)" % (f.qn, y.src(), x.src()), x.where)
            for x in body_of(a).walk():
                if x.is_call:
                    for g in x.args:
                        if g is None or not isptr(inner(g).t):
                            continue
                        y = inner(g)
                        o = None
                        if y.k == "BinaryOperator" and y.op == "+":
                            base, o = inner(y.c[0]), y.c[1]
                        elif y.k == "UnaryOperator" and y.op == "&" and inner(y.c[0]).k == "ArraySubscriptExpr":
                            z = inner(y.c[0])
                            base, o = inner(z.c[0]), None
                        if o is None or b.ptr(y) is not None or not (base.k == "MemberExpr" or base.k == "DeclRefExpr" and base.get("dk") == "parm"):
                            continue
                        s = split(b.poly(o), v)
                        if s is not None and s[0]:
                            rep.bad("common:%s:%s" % (f.qn, base.src()), "%s: %s is common to all points of the batch but addressed by the point (%s)" % (f.qn, base.src(), y.src()), x.where)
            carried(P, b, a, v, rep)
            position(b, a, v, rep)
        # outside the loops: single entries belong to one point only
        if not single:
            inside = {y.i for a, v in b.loops for y in a.walk()} | {y.i for a, w in b.odd for y in a.walk()}
            for x, d, off, w, call in accesses(b, f.body):
                if x.i in inside or call is not None or in_macro(x, "T8_ASSERT", "SC_CHECK_ABORT"):
                    continue
                if any(L.k in LOOPS and (counter(L) is None or const(b.poly(counter(L)[2])) is None) for L in x.ancestors()):
                    continue
                kind, idx = b.role[d]
                if kind == "tmp" or any("n" in m for m in off):
                    continue
                rep.bad("one:%s:%s" % (f.qn, idx), "%s: outside its loop over the points, %s treats one point of the batch only" % (f.qn, x.src()[:60]), x.where)
    # outside the loops: the batch may only be handed on as a whole
    base = {k: list(v) for k, v in strides.items()}
    for b in B.values():
        single = only_one(b)
        for c in b.f.calls():
            handed(P, B, b, c, v_of(b, c), rep, base, strides, tmp, single)
    gdim = geometry_dims(P)
    for b in B.values():
        b.gdim = gdim
        agree(b, strides, tmp, rep)
        cover(P, B, b, rep)
    rep.need("function that evaluates a batch of points", 15)
    rep.need("loop over the points of a batch", 10)


def show(p):
    return " + ".join("%s%s" % ("" if c == 1 and m else c, "*".join("" + (str(q) if isinstance(q, str) else "v%s" % q[1]) for q in m)) for m, c in p.items()) or "0"


def only_one(b):
    """the function refuses batches of more than one point"""
    for x in b.f.walk():
        if x.k == "BinaryOperator" and x.op in ("!=", "==", ">", "<=") and any(varid(y) == b.nid for y in x.c) and any(cval(y) == 1 for y in x.c):
            return True
    return False


def v_of(b, c):
    anc = {a.i for a in c.ancestors()}
    return [v for a, v in b.loops if a.i in anc]


def dep(b, g, v):
    """the argument's value is computed from the point index"""
    for x in g.walk():
        if x.k == "DeclRefExpr" and x.get("dk") == "local":
            i = b.f.varinit.get(x.get("d"))
            if i is not None and (v in vars_of(i) or any(b.single(d) is not None and v in vars_of(b.single(d)) for d in vars_of(i) if d is not None)):
                return True
            s = b.single(x.get("d"))
            if s is not None and v in vars_of(s):
                return True
    return False


def callee_strides(P, B, c, i, strides, depth=0):
    """constant strides with which the functions this call reaches address argument i; None in the set: unknown"""
    out = set()
    for g in targets(P, c):
        h = B.get(g.key)
        if h is None:
            continue
        for co, x in strides.get((g.key, i), []):
            k = const(co)
            if k is None:
                k = bound_stride(h, co, c)
            out.add(k)
        if depth < 5 and i < len(g.params):
            for c2 in g.calls():
                for j, a in enumerate(c2.args):
                    if a is not None and isptr(inner(a).t):
                        r = h.ptr(a)
                        if r is not None and r[0] == g.params[i]["id"] and not v_of(h, c2) and c2 is not c:
                            out |= callee_strides(P, B, c2, j, strides, depth + 1)
    return out


def bound_stride(h, co, c):
    """a stride that depends on parameters of the callee, with the arguments of this call"""
    tot = 0
    ids = {p["id"]: i for i, p in enumerate(h.f.params)}
    for m, k in co.items():
        if m == ():
            tot += k
        elif len(m) == 1 and isinstance(m[0], tuple) and m[0][1] in ids and ids[m[0][1]] < len(c.args) and c.args[ids[m[0][1]]] is not None:
            w = cval(c.args[ids[m[0][1]]])
            if w is None:
                return None
            tot += k * w
        else:
            return None
    return tot


def handed(P, B, b, c, vs, rep, base, strides, tmp, single):
    f = b.f
    if in_macro(c, "T8_ASSERT"):
        return
    if c.cn in MEM:
        if not vs and c.args and b.ptr(c.args[0]) is not None and b.role[b.ptr(c.args[0])[0]][0] == "out":
            rep.ok("whole batch set at once", c.where)
            if not any("n" in m for m in b.poly(c.args[2])) and not single:
                rep.bad("mem:%s" % f.qn, "%s: %s does not cover all points of the batch" % (f.qn, c.src()[:80]), c.where)
        return
    gs = [B[g.key] for g in targets(P, c) if g.key in B]
    if not gs:
        return
    g = gs[0]
    if g.n >= len(c.args) or c.args[g.n] is None:
        return
    p = b.poly(c.args[g.n])
    roles = []
    for i in list(g.ins) + list(g.outs):
        if i < len(c.args) and c.args[i] is not None:
            r = b.ptr(c.args[i])
            if r is not None:
                roles.append((i, r))
    if not roles or single:
        return
    rep.ok("batch handed on", "%s %s -> %s" % (c.where, f.qn, c.cn))
    k = const(p)
    if not vs:
        d = add(p, {("n",): 1}, -1)
        if const(d) != 0 and (k is not None or b.nid in vars_of(c.args[g.n]) or not any(isinstance(q, str) and q != "n" for m in p for q in m)):
            rep.bad("part:%s:%s" % (f.qn, c.cn), "%s hands %s points to %s, not the whole batch" % (f.qn, c.args[g.n].src(), c.cn), c.where)
            return
        if const(d) != 0:
            return
        for i, (v, off) in roles:
            if not off:
                continue
            st = callee_strides(P, B, c, i, base)
            o = const(off)
            if o is None or o < 0 or any(s is not None and o >= s for s in st):
                rep.bad("offset:%s:%s" % (f.qn, c.cn), "%s hands the batch to %s displaced: %s" % (f.qn, c.cn, c.args[i].src()), c.where)
        for i, (v, off) in roles:
            st = callee_strides(P, B, c, i, base)
            if len(st) == 1 and None not in st:
                kind, idx = b.role[v]
                s = next(iter(st))
                (strides.setdefault((f.key, idx), []) if kind != "tmp" else tmp.setdefault((f.key, v), [])).append(({(): s}, c))
        # every batch argument of the callee is a batch
        for i in list(g.ins) + list(g.outs):
            if i < len(c.args) and c.args[i] is not None and not any(i == j for j, r in roles):
                y = inner(c.args[i])
                if y.k == "DeclRefExpr" and y.t is not None and y.t.k == "arr" and y.t.n:
                    st = callee_strides(P, B, c, i, base)
                    rep.bad("target:%s:%s" % (f.qn, c.cn), "%s hands a batch to %s but %s holds %d values whatever the number of points" % (f.qn, c.cn, y.src(), y.t.n), c.where)
    else:
        if k is not None and k != 1 and any(split(off, vs[-1]) and split(off, vs[-1])[0] for i, (v, off) in roles):
            rep.bad("part:%s:%s" % (f.qn, c.cn), "%s: inside its loop over the points %d points are handed to %s" % (f.qn, k, c.cn), c.where)
        elif any("n" in m for m in p):
            rep.bad("part:%s:%s" % (f.qn, c.cn), "%s: inside its loop over the points the whole count is handed to %s" % (f.qn, c.cn), c.where)


def agree(b, strides, tmp, rep):
    f = b.f
    by = {}
    for kind, table in (("p", strides), ("t", tmp)):
        for (k, i), l in table.items():
            if k == f.key:
                by.setdefault((kind, i), []).extend(l)
    for (kind, i), l in by.items():
        name = f.params[i]["n"] if kind == "p" else f.vardecls[i][0]["n"]
        if kind == "p":
            layout(b, i, l, rep)
        seen = {}
        for co, x in l:
            seen.setdefault(tuple(sorted(co.items(), key=str)), x)
        rep.ok("array with one entry per point addressed with one stride", "%s %s: %s" % (f.qn, name, show(l[0][0])))
        if len(seen) > 1:
            # a symbolic stride may equal a constant one only where the code decides the class
            ks = list(seen.items())
            syms = {k for k, x in ks if const(dict(k)) is None}
            if len(syms) and len(syms) < len(ks) and all("dimension" in str(s) for s in syms) and not any(kind == "p" and i in b.outs for _ in (0,)) and not mixed(ks):
                continue
            rep.bad("stride:%s:%s" % (f.qn, name), "%s: the points in %s lie %s" % (f.qn, name, " but also ".join("%s apart (%s)" % (show(dict(k)), x.where.split(":")[-1]) for k, x in ks)), ks[-1][1].where)


def mixed(ks):
    """a symbolic and a constant stride meet in code where the class is not decided"""
    for k, x in ks:
        if const(dict(k)) is None:
            return not any(a.k == "SwitchStmt" for a in x.ancestors())
    return False


def every_iteration(b, a, ws):
    """each pass through the body writes the output"""
    f = b.f
    body = body_of(a)
    pos = Pos.of(f)
    inside = {x.i for x in body.walk()}
    first = None
    # block of the body entry: the loop's first successor
    for B in f.cfg.b.values() if f.cfg else ():
        if B.term is not None and (B.term == a.i or isinstance(B.term, (list, tuple)) and a.i in B.term):
            first = B.succ[0] if B.succ else None
    if first is None:
        return True
    def writes(n):
        return any(x.i in ws for x in n.walk())
    st = [(first, frozenset())]; seen = set()
    while st:
        k, entered = st.pop()
        if (k, entered) in seen:
            continue
        seen.add((k, entered))
        B = f.cfg.b[k]
        stop = False
        for s in B.s:
            n = f.nodes.get(s) if s >= 0 else None
            if n is not None and n.i in inside and (n.i in ws or n.k not in LOOPS and writes(n)):
                stop = True; break
        if stop or B.noret:
            continue
        succ = [s for s in B.succ if s is not None]
        L = f.nodes.get(B.term) if isinstance(B.term, int) else None
        if L is not None and L.k in LOOPS and L.i in inside and counter(L) is not None:
            # a counting loop inside the body is passed through once
            succ = [B.succ[0]] if k not in entered else [B.succ[1]]
            entered = entered | {k}
        for s in succ:
            if s is None:
                continue
            T = f.cfg.b[s]
            if T.term == a.i or s == f.cfg.exit or T.s and not any(x in inside for x in T.s):
                return False
            st.append((s, entered))
    return True


def cover(P, B, b, rep):
    """every return is preceded by something that writes the result of every point"""
    f = b.f
    if not b.outs or only_one(b) or f.cfg is None:
        return
    marks = set()
    for a, v in b.loops:
        ws = {x.i for x, d, off, w, call in accesses(b, body_of(a)) if w and b.role[d][0] == "out" or dead(b, x, a)}
        if ws and every_iteration(b, a, ws):
            c = [x for x in a.c[:-1] if x is not None]
            for x in c:
                marks |= {y.i for y in x.walk()}
    for c in f.calls():
        for g in c.args:
            if g is not None and isptr(inner(g).t):
                r = b.ptr(g)
                if r is not None and b.role[r[0]][0] == "out" and not v_of(b, c):
                    marks.add(c.i)
    for x in f.walk():
        if x.k == "LambdaExpr":
            return
    if not marks:
        if b.loops:
            rep.bad("cover:%s" % f.qn, "%s: not every point of the batch gets a result" % f.qn, f.where)
        return
    rep.ok("every way out writes the result of every point", f.where)
    def edge(Bk, k):
        c = f.nodes.get(Bk.cond) if isinstance(Bk.cond, int) else None
        return not (c is not None and b.nid in vars_of(c) and not any(c.i in {y.i for y in a.walk()} for a, v in b.loops))
    p = reach(f, None, lambda n: n.i in marks, None, edge, True)
    if p is not None:
        rep.bad("cover:%s" % f.qn, "%s: a path returns without writing the result of every point (lines %s)" % (f.qn, p[-6:]), f.where)


def position(b, a, v, rep):
    """no decision depends on where in the batch a point stands"""
    f = b.f
    body = body_of(a)
    der = {v}
    grown = True
    while grown:
        grown = False
        for d in f.vardecls:
            if d in der:
                continue
            i = b.single(d)
            t = f.vtype(d)
            if i is not None and t is not None and t.k in ("int", "bool") and bare(i, der) is not None:
                der.add(d); grown = True
    for x in body.walk():
        c = None
        if x.k in ("IfStmt", "ForStmt", "WhileStmt", "DoStmt", "ConditionalOperator", "SwitchStmt"):
            c = x.c[2] if x.k in ("IfStmt", "ForStmt") else x.kids[-2] if x.k in ("WhileStmt", "SwitchStmt") else x.kids[-1] if x.k == "DoStmt" else x.c[0]
        elif x.k == "BinaryOperator" and x.op in ("&&", "||"):
            c = x.c[0]
        if c is None or in_macro(x, "T8_ASSERT", "SC_CHECK_ABORT"):
            continue
        rep.ok("decision that does not depend on the position in the batch", x.where)
        y = bare(c, der)
        if y is not None:
            rep.bad("position:%s" % f.qn, "%s: what is done for a point depends on its position in the batch (%s)" % (f.qn, c.src()[:80]), x.where)


def bare(n, der):
    """a use of a variable of der as a value, not as a place in an array"""
    x = inner(n)
    if x.k == "DeclRefExpr":
        return x if x.get("d") in der else None
    if x.k == "ArraySubscriptExpr":
        return bare(x.c[0], der)
    if x.k == "BinaryOperator" and x.t is not None and x.t.k == "ptr":
        return None
    if x.is_call or x.k == "LambdaExpr":
        return None
    for y in x.kids:
        r = bare(y, der)
        if r is not None:
            return r
    return None


def carried(P, b, a, v, rep):
    """nothing computed for one point is used for the next"""
    f = b.f
    body = body_of(a)
    inside = {x.i for x in body.walk()}
    mod = {}
    for x in body.walk():
        d = None
        if x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op.endswith("=") and x.op not in ("==", "<=", ">=", "!="):
            d = base_var(x.c[0])
        elif x.k == "UnaryOperator" and x.op in ("++", "--"):
            d = base_var(x.c[0])
        elif x.is_call:
            for ig, g in enumerate(x.args):
                if g is None or constarg(P, x, ig):
                    continue
                y = inner(g)
                if isptr(y.t) or y.k == "UnaryOperator" and y.op == "&":
                    e = base_var(y)
                    if e is not None and stores(P, x, ig):
                        mod.setdefault(e, []).append(x)
            continue
        if d is not None:
            mod.setdefault(d, []).append(x)
    first = None
    for B in f.cfg.b.values() if f.cfg else ():
        if B.term is not None and B.term == a.i:
            first = B.succ[0] if B.succ else None
    if first is None:
        return
    for d, ws in mod.items():
        if d == v or d in b.role or d not in f.vardecls:
            continue
        vd, st = f.vardecls[d]
        t = f.vtype(d)
        static = vd.get("static") or vd.get("sc") == "static"
        if st is not None and st.i in inside and not static:
            continue
        if t is not None and t.k == "ptr":
            continue
        if st is None:
            continue
        rep.ok("value of one point not used for another", "%s %s" % (f.qn, vd["n"]))
        r = read_first(P, f, first, inside, d, a)
        if r is not None:
            rep.bad("carried:%s:%s" % (f.qn, vd["n"]), "%s: %s, changed for one point of the batch, is used for the next (%s)" % (f.qn, vd["n"], r.src()[:60]), r.where)


def base_var(n, parm=False):
    x = inner(n)
    while True:
        if x.k == "ArraySubscriptExpr":
            x = inner(x.c[0])
        elif x.k == "UnaryOperator" and x.op in ("&", "*"):
            x = inner(x.c[0])
        elif x.k == "BinaryOperator" and x.op in ("+", "-") and x.t is not None and x.t.k == "ptr":
            x = inner(x.c[0])
        elif x.k == "MemberExpr" and x.kids and not x.get("arrow"):
            x = inner(x.kids[0])
        else:
            break
    return x.get("d") if x.k == "DeclRefExpr" and (x.get("dk") in ("local", "slocal") or parm and x.get("dk") == "parm") else None


def constarg(P, c, i):
    g = c.args[i]
    if g is not None and g.t is not None and g.t.k == "ptr" and g.t.pointee_const:
        return True
    fs = [h for h in P.resolve(c) if i < len(h.params)]
    return bool(fs) and all(isptr(h.ptype(i)) and h.ptype(i).pointee_const for h in fs)


STO = {}


def stores(P, c, i, depth=0):
    """the function called writes through its argument (unknown functions do)"""
    fs = [g for g in P.resolve(c) if i < len(g.params)]
    if not fs:
        return True
    for g in fs:
        k = (g.key, i)
        if k not in STO:
            STO[k] = False
            STO[k] = g.body is None or depth > 4 or writes_through(P, g, g.params[i]["id"], depth)
        if STO[k]:
            return True
    return False


def writes_through(P, g, d, depth):
    for x in g.body.walk():
        if x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op.endswith("=") and x.op not in ("==", "<=", ">=", "!="):
            if base_var(x.c[0], True) == d and inner(x.c[0]).k != "DeclRefExpr":
                return True
            if x.op == "=" and isptr(x.c[1].t) and base_var(x.c[1], True) == d:
                return True
        elif x.k == "UnaryOperator" and x.op in ("++", "--") and base_var(x.c[0], True) == d and inner(x.c[0]).k != "DeclRefExpr":
            return True
        elif x.is_call:
            for i, y in enumerate(x.args):
                if y is not None and isptr(inner(y).t) and base_var(y, True) == d and not constarg(P, x, i) and stores(P, x, i, depth + 1):
                    return True
        elif x.k == "DeclStmt":
            for v in x.d["decls"]:
                i = g.varinit.get(v["id"])
                if i is not None and isptr(i.t) and base_var(i, True) == d and not (i.t.pointee_const if i.t.k == "ptr" else False):
                    return True
    return False


UPD = {}


def updates(P, c, i, depth=0):
    """the function called reads what its argument points to before it writes there"""
    for g in P.resolve(c):
        if g.body is None or g.cfg is None or i >= len(g.params) or depth > 4:
            continue
        k = (g.key, i)
        if k not in UPD:
            UPD[k] = False
            d = g.params[i]["id"]
            UPD[k] = read_first(P, g, g.cfg.entry, None, d, None, True) is not None
        if UPD[k]:
            return True
    return False


def effect(P, n, d, deref=False):
    """'r', 'w' or None: what this CFG element does first to variable d (own effect, operands come earlier)"""
    place = lambda y: base_var(y, deref) == d and (not deref or inner(y).k in ("ArraySubscriptExpr", "UnaryOperator"))
    if n.k == "BinaryOperator" and n.op == "=" and place(n.c[0]):
        return "w"
    if n.k == "CompoundAssignOperator" and place(n.c[0]) or n.k == "UnaryOperator" and n.op in ("++", "--") and place(n.c[0]):
        return "r"
    if n.is_call:
        res = None
        for g in n.args:
            if g is None or base_var(g, deref) != d:
                continue
            y = inner(g)
            if isptr(y.t) or y.k == "UnaryOperator" and y.op == "&":
                if constarg(P, n, n.args.index(g)) or updates(P, n, n.args.index(g)):
                    res = "r"
                elif res is None:
                    res = "w"
            elif g.t is not None and g.k not in CASTS:
                res = res or "w"
        return res
    if n.k == "ImplicitCastExpr" and n.get("ck") == "LValueToRValue" or n.k == "ImplicitCastExpr" and n.get("cast") == "LValueToRValue":
        if base_var(n, deref) == d and (not deref or inner(n.kids[0]).k in ("ArraySubscriptExpr", "UnaryOperator")):
            return "r"
    return None


def read_first(P, f, first, inside, d, a, deref=False):
    st = [(first, frozenset())]; seen = set()
    while st:
        k, entered = st.pop()
        if (k, entered) in seen:
            continue
        seen.add((k, entered))
        B = f.cfg.b[k]
        stop = False
        for s in B.s:
            n = f.nodes.get(s) if s >= 0 else None
            if n is None or inside is not None and n.i not in inside:
                continue
            e = effect(P, n, d, deref)
            if e == "r":
                return n
            if e == "w":
                stop = True; break
        if stop or B.noret:
            continue
        succ = list(B.succ)
        L = f.nodes.get(B.term) if isinstance(B.term, int) else None
        if L is not None and L.k in LOOPS and L is not a and len(succ) == 2 and counter(L) is not None:
            # a counting loop runs at least once
            succ = [succ[0]] if k not in entered else [succ[1]]
            entered = entered | {k}
        for s in succ:
            if s is not None and (a is None or f.cfg.b[s].term != a.i):
                st.append((s, entered))
    return None
