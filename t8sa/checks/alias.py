"""P12: element operations may be used in place: with input and output the same element, no input member is read after the output member at
the same place received a new value."""
import re
from .purity import eff
from ..effects import ptr_const
from ..lib import varid, cval
from ..model import CASTS
from .. import flow
from .debugonly import ASSERTS

# documented as usable in place: operation name -> (input parameter index from the C signature, output)
DOC = re.compile(r"^(element_copy|element_get_parent|element_get_sibling|element_transform_face"
                 r"|t8_(dtri|dtet)_(copy|parent|ancestor|face_neighbour|nearest_common_ancestor|transform_face|childrenpv)"
                 r"|t8_dline_(copy|parent|ancestor|face_neighbour|nearest_common_ancestor|childrenpv)"
                 r"|t8_dprism_(copy|parent|nearest_common_ancestor|face_neighbour)|t8_dpyramid_(copy|parent))$")
PAYLOAD = {"pad8", "pad16", "p"}       # surrounding-tree bits of a quadrant, rewritten bit by bit with their own value


def is_el(t):
    return t is not None and t.k == "ptr" and t.to is not None and (t.to.k == "rec" or "t8_element" in t.to.cs or t.to.k == "ptr" and t.to.to is not None and t.to.to.k == "rec")


class A:
    def __init__(self, P):
        self.P = P; self.E = eff(P)
        self.rd = {}
        self.memo = {}
        self.obl = 0

    def idx(self, n):
        """source of the subscripts in an access (so that coords[i] and coords[j] differ)"""
        out = []
        m = n
        while m is not None:
            m = m.strip()
            if m.k == "ArraySubscriptExpr":
                out.append(m.c[1]); m = m.c[0]
            elif m.k == "CXXOperatorCallExpr" and m.op == "[]" and len(m.args) == 2:
                out.append(m.args[1]); m = m.args[0]
            elif m.k == "MemberExpr":
                m = m.kids[0] if m.kids else None
            else:
                break
        return out

    def reads(self, f, n):
        """locations read by node n alone (a maximal member access, or a dereference of a struct), with its subscripts"""
        if n.k == "MemberExpr" or n.k == "ArraySubscriptExpr" or n.k == "CXXOperatorCallExpr" and n.op == "[]":
            if n.k == "MemberExpr" and n.get("dk") is None and n.t is None:
                return ()
            p = n.parent
            q = n
            while p is not None and p.k in ("ParenExpr", "ImplicitCastExpr") and p.get("ck") not in ("LValueToRValue",):
                q, p = p, p.parent
            if p is not None:
                if p.k == "MemberExpr" and not (p.get("arrow") and q.t is not None and q.t.k == "ptr"):
                    return ()
                if p.k == "ArraySubscriptExpr" and p.c[0] is q:
                    return ()
                if p.k == "CXXOperatorCallExpr" and p.op == "[]" and p.args and p.args[0] is q:
                    return ()
                if p.k == "UnaryOperator" and p.op == "&":
                    return ()
                if p.k == "BinaryOperator" and p.op == "=" and p.c[0] is q:
                    return ()
                if p.is_call and p.k != "CXXOperatorCallExpr" and n.t is not None and n.t.k in ("arr",):
                    return ()
                if p.k == "CXXMemberCallExpr" or (p.k == "MemberExpr"):
                    return ()
            if n.t is not None and n.t.k == "arr":
                return ()
            return [(l, n) for l in self.E.lval(n)]
        if n.k == "UnaryOperator" and n.op == "*" and n.t is not None and n.t.k == "rec":
            p = n.parent
            if p is not None and p.k == "BinaryOperator" and p.op == "=" and p.c[0] is n:
                return ()
            if p is not None and p.k == "CXXOperatorCallExpr" and p.op == "=" and p.args and p.args[0].strip() is n:
                return ()
            return [(l, n) for l in self.E.lval(n)]
        return ()

    def rdsum(self, f, seen=()):
        """(param, path) that f may read"""
        s = self.rd.get(id(f))
        if s is not None:
            return s
        if f in seen:
            return set()
        out = set()
        for n in f.walk():
            if any(m in ASSERTS for m in n.m):
                continue
            for (l, _) in self.reads(f, n):
                if l[0][0] in ("p", "this"):
                    out.add(l)
            if n.is_call:
                for (root, path) in self.callreads(n, seen + (f,)):
                    if root[0] in ("p", "this"):
                        out.add((root, path))
        if not seen:
            self.rd[id(f)] = out
        return out

    def callreads(self, n, seen=()):
        fs = self.P.resolve(n)
        out = set()
        if fs:
            for g in fs:
                if g.tmpl or g.body is None:
                    continue
                for (root, path) in self.rdsum(g, seen):
                    if root[0] in ("p",):
                        out |= self.E.subst(n, g, root, path, frozenset())
            return out
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return out
        cn = str(n.cn)
        args = n.args[1:] if n.k == "CXXOperatorCallExpr" else n.args
        cp = n.get("cp") or ""
        for i, a in enumerate(args):
            if a is None or a.t is None:
                continue
            if a.t.k == "ptr" and (i < len(cp) and cp[i] == "c" or ptr_const(a.t) or cn in ("memcpy", "memmove") and i == 1):
                out |= self.E.arglocs(a, frozenset())
        return out

    def keep(self, n, locs, env):
        """the locations an access through a tracked pointer has on this path"""
        if not env:
            return locs
        m = n
        if m.k in ("BinaryOperator", "CompoundAssignOperator") and m.op.endswith("="):
            m = m.c[0]
        while m is not None:
            m = m.strip()
            if m.k in ("MemberExpr", "ArraySubscriptExpr", "UnaryOperator", "ParenExpr") and m.kids:
                m = m.kids[0]
            elif m.k == "CXXOperatorCallExpr" and m.op == "[]" and m.args:
                m = m.args[0]
            else:
                break
        if m is not None and m.k == "DeclRefExpr":
            for v, rs in env:
                if v == m.get("d"):
                    return {l for l in locs if l[0] in rs}
        return locs

    def identity(self, n, a, b, pp=False):
        """n copies a member of a to the same member of b"""
        E = self.E
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.args) == 2:
            l, r = (n.c[0], n.c[1]) if n.k == "BinaryOperator" else n.args
            la = E.lval(l)
            x = r
            while x.k in CASTS and x.kids:
                x = x.kids[-1]
            if x.k in ("CXXConstructExpr",) and len(x.args) == 1:
                x = x.args[0].strip()
            ra = E.lval(x) if x.k in ("MemberExpr", "ArraySubscriptExpr", "UnaryOperator", "CXXOperatorCallExpr") else set()
            if len(la) == 1 and len(ra) == 1:
                (lr, lp), = la; (rr, rp), = ra
                if lr == b and rr == a and lp == rp and [i.src() for i in self.idx(l)][:-1 if pp and self.idx(l) else None] == [i.src() for i in self.idx(x)]:
                    return True
        if n.is_call and str(n.cn) in ("memcpy", "memmove") and len(n.args) >= 2:
            return True
        return False

    def analyse(self, f, a, b, stack=()):
        """(violations, dirty) of f with roots a (input) and b (output) denoting the same object"""
        k = (id(f), a, b)
        if k in self.memo:
            return self.memo[k]
        if k in stack:
            return [], set()
        if len(stack) > 12 or f.cfg is None:
            return [], set()
        E, P = self.E, self.P
        viol = []
        g = f.cfg
        skip = {n.i for n in f.walk() if any(m in ASSERTS for m in n.m)}
        alldirty = set()

        def clash(path, ix, s):
            for (p2, ix2, wi) in s:
                m = min(len(path), len(p2))
                if path[:m] == p2[:m]:
                    if ix is not None and ix2 is not None and ix != ix2 and ix and ix2:
                        ca = [x for x in ix]; cb = [x for x in ix2]
                        if all(re.fullmatch(r"-?\d+", y) for y in ca + cb):
                            continue            # different constant subscripts
                    return wi
            return None

        found = {}
        pp = False
        if b[0] == "p":
            t = f.ptype(b[1])
            pp = t is not None and t.k == "ptr" and t.to is not None and t.to.k == "ptr"
        # locals that point to the input on some paths and to the output on others
        track = {}
        asg = E.assigns(f)
        for v, xs in asg.items():
            if len(xs) > 1:
                rs = [x for x in xs if x.t is not None and x.t.k == "ptr"]
                if len(rs) == len(xs):
                    track[v] = True

        def tr(n, ws):
            out = set()
            for env, s in ws:
                if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) in track:
                    v = varid(n.c[0])
                    r = {x[0] for x in self.keep(n.c[1], E.ptr(n.c[1]), env)}
                    env = frozenset(x for x in env if x[0] != v) | {(v, frozenset(r))}
                if n.k == "DeclStmt":
                    for d in n.d["decls"]:
                        if d["id"] in track and d["id"] in f.varinit:
                            x = f.varinit[d["id"]]
                            env = frozenset(y for y in env if y[0] != d["id"]) | {(d["id"], frozenset(z[0] for z in self.keep(x, E.ptr(x), env)))}
                out.add((env, tr1(n, s, env)))
            if len(out) > 48:
                m = {}
                for env, s in out:
                    m[env] = m.get(env, frozenset()) | s
                out = set(m.items())
            return frozenset(out)

        def tr1(n, s, env):
            if n.i in skip:
                return s
            # reads
            for (root, path) in self.keep(n, {l for l, m in self.reads(f, n)}, env):
                if path and path[-1] in PAYLOAD or len(path) > 1 and path[-2] in PAYLOAD:
                    continue
                if root == a and a != b:
                    ix = tuple(i.src() for i in self.idx(n))
                    w = clash(path, ix, s)
                    if w is not None:
                        found.setdefault((path, n.i), w)
            if n.is_call:
                fs = [h for h in P.resolve(n) if not h.tmpl and h.body is not None]
                done = False
                args = n.args
                if fs:
                    for h in fs:
                        ins = []; outs = []
                        for j, x in enumerate(args):
                            if x is None or x.t is None or j >= len(h.params):
                                continue
                            if x.t.k not in ("ptr",) and x.strip().t is not None and x.strip().t.k != "arr":
                                continue
                            for (root, path) in self.keep(x, E.arglocs(x, frozenset()), env):
                                if root == a:
                                    ins.append((j, path))
                                if root == b:
                                    outs.append((j, path))
                        for (i, p1) in ins:
                            w = None
                            for (root, path) in self.rdsum(h):
                                if root == ("p", i) and not set(path) & PAYLOAD:
                                    w = clash((p1 + path)[:4], None, s)
                                    if w is not None:
                                        found.setdefault((p1 + path, n.i), w)
                        for (j, p2) in outs:
                            for (i, p1) in ins:
                                if i != j and p1 == p2 and a != b:
                                    v, d = self.analyse(h, ("p", i), ("p", j), stack + (k,))
                                    for x in v:
                                        viol.append(x)
                                    for q in d:
                                        s = s | {((p2 + q)[:3], None, n.i)}
                                    done = True
                            if not done:
                                for (root, path) in list(E.of(h).eff):
                                    if root == ("p", j):
                                        s = s | {((p2 + path)[:3], None, n.i)}
                    return s
                # external
                for (root, path) in self.callreads(n):
                    if root == a and a != b and not self.identity(n, a, b):
                        w = clash(path, None, s)
                        if w is not None:
                            found.setdefault((path, n.i), w)
            if self.identity(n, a, b, pp):
                return s
            for (root, path) in self.keep(n, {l for l, via in E.node_effects(n)}, env):
                if root == b:
                    tgt = n.c[0] if n.k in ("BinaryOperator", "CompoundAssignOperator") else (n.kids[0] if n.k == "UnaryOperator" else None)
                    ix = tuple(i.src() for i in self.idx(tgt)) if tgt is not None else None
                    if pp and ix:
                        if re.fullmatch(r"[1-9]\d*", ix[-1]):
                            continue                 # another child than the one that shares the input's memory
                        ix = ix[:-1]
                    s = s | {(path, ix, n.i)}
            # index variables that change make older subscripted entries refer to other positions
            v = None
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                v = n.c[0].strip()
            elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                v = n.kids[0].strip()
            if v is not None and v.k == "DeclRefExpr":
                nm = v.get("n")
                s = frozenset(x for x in s if not (x[1] and any(re.search(r"\b%s\b" % re.escape(nm), y) for y in x[1])))
            return s

        inn = flow.forward(f, frozenset([(frozenset(), frozenset())]), tr, lambda x, y: x | y)
        ends = inn.get(g.exit, frozenset())
        alldirty = {p for env, s in ends for (p, ix, wi) in s}
        # indexed entries that were dropped still make the member dirty for the caller
        for n in f.walk():
            if n.i not in skip and not self.identity(n, a, b) and not n.is_call:
                for (root, path), via in E.node_effects(n):
                    if root == b:
                        alldirty.add(path)
        for (path, ni), wi in found.items():
            viol.append((f, f.nodes[wi], f.nodes[ni], path))
        r = (viol, alldirty)
        self.memo[k] = r
        return r


def run_P12(P, rep):
    an = A(P)
    E = an.E
    todo = []
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        if DOC.match(f.n):
            ins = [i for i in range(len(f.params)) if is_el(f.ptype(i)) and (f.ptype(i).pointee_const or ptr_const(f.ptype(i)))]
            outs = [i for i in range(len(f.params)) if is_el(f.ptype(i)) and i not in ins]
            for i in ins:
                for j in outs:
                    todo.append((f, i, j, "documented in-place operation", f.where))
        # uses in place
        for n in f.walk():
            if n.is_call and len(n.args) >= 2 and n.k in ("CallExpr", "CXXMemberCallExpr"):
                if any(m in ASSERTS for m in n.m):
                    continue
                s = {}
                for j, x in enumerate(n.args):
                    if x is None or x.t is None or x.t.k != "ptr":
                        continue
                    y = x.strip()
                    if y.k in ("DeclRefExpr", "MemberExpr") or y.k == "UnaryOperator" and y.op == "&":
                        s.setdefault(y.src(), []).append(j)
                for js in s.values():
                    if len(js) > 1:
                        for h in P.resolve(n):
                            if h.tmpl or h.body is None or h is f:
                                continue
                            for i in js:
                                for j in js:
                                    if i != j and i < len(h.params) and j < len(h.params) and is_el(h.ptype(i)) and is_el(h.ptype(j)):
                                        ci = h.ptype(i).pointee_const or ptr_const(h.ptype(i)); cj = h.ptype(j).pointee_const or ptr_const(h.ptype(j))
                                        if not cj and ci:
                                            todo.append((h, i, j, "call in place", n.where))
    seen = set()
    for f, i, j, cls, where in todo:
        rep.ok(cls, "%s (%s)" % (f.qn, where))
        if (id(f), i, j) in seen:
            continue
        seen.add((id(f), i, j))
        v, d = an.analyse(f, ("p", i), ("p", j))
        for (h, w, r, path) in v:
            rep.bad("alias:%s:%s:%s" % (f.qn, h.qn, ".".join(path)),
                    "%s used in place (%s = %s): %s reads %s at %s after %s changed it"
                    % (f.qn, f.params[i]["n"], f.params[j]["n"], h.qn, ".".join(path) or "the element", r.where, w.where + " " + w.src()[:60]), f.where)
    children(P, an, rep)
    rep.need("documented in-place operation", 20)


def children(P, an, rep):
    """all children of an element, where the first child may lie in the element's own memory: it is made last"""
    from .batch import counter
    todo = [f for f in P.all if f.n == "element_get_children" and f.body is not None and not f.tmpl and f.cls and "t8_scheme" != f.cls]
    seen = set()
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        ins = [p["id"] for i, p in enumerate(f.params) if is_el(f.ptype(i)) and (f.ptype(i).pointee_const or ptr_const(f.ptype(i))) and f.ptype(i).to.k != "ptr"]
        outs = [p["id"] for i, p in enumerate(f.params) if f.ptype(i) is not None and f.ptype(i).k == "ptr" and f.ptype(i).to is not None and f.ptype(i).to.k == "ptr"]
        if len(ins) != 1 or len(outs) != 1:
            continue
        a, c = ins[0], outs[0]
        al = {a}
        for _ in range(3):
            al |= {v for v, x in f.varinit.items() if x is not None and x.t is not None and x.t.k == "ptr" and varid(x) in al}
        co = {c} | {v for v, x in f.varinit.items() if x is not None and varid(x) == c}
        rep.ok("children computed in place", f.where)
        for n in f.walk():
            if n.is_call and any(x is not None and varid(x) in al for x in n.args) and any(x is not None and varid(x) in co for x in n.args):
                todo += [h for h in P.resolve(n) if h.body is not None and not h.tmpl]
            if n.k not in ("ForStmt", "WhileStmt"):
                continue
            r = counter(n)
            if r is None or cval(r[1]) != 0:
                continue
            v = r[0]
            wr, rd = [], []
            body = n.kids[-1]
            for x in body.walk():
                if any(m in ASSERTS for m in x.m):
                    continue
                if x.k == "ArraySubscriptExpr" and varid(x.c[0]) in co and any(y.k == "DeclRefExpr" and y.get("d") == v for y in x.c[1].walk()):
                    q = x.parent
                    while q is not None and q.k in CASTS:
                        q = q.parent
                    if q is not None and q.is_call:
                        if harmless(P, an, q, x, al):
                            continue
                        if not (x.parent.t is not None and x.parent.t.k == "ptr" and x.parent.t.pointee_const):
                            wr.append(x)
                    elif q is not None and q.k == "MemberExpr":
                        t = q
                        while t.parent is not None and t.parent.k in ("MemberExpr", "ArraySubscriptExpr"):
                            t = t.parent
                        z = t.parent
                        if z is not None and (z.k in ("BinaryOperator", "CompoundAssignOperator") and z.op.endswith("=") and z.op not in ("==", "!=", "<=", ">=") and z.c[0] is t):
                            if not an.identity(z, ("p", [p["id"] for p in f.params].index(a)), ("p", [p["id"] for p in f.params].index(c)), True):
                                wr.append(x)
                elif x.k == "DeclRefExpr" and x.get("d") in al:
                    rd.append(x)
            if wr and rd:
                rep.bad("children:%s" % f.qn, "%s makes the first child, which may lie in the memory of the element (%s = %s[0]), before the element is read for the others"
                        % (f.qn, f.vardecls[a][0]["n"], f.vardecls[c][0]["n"]), rd[0].where)
    rep.need("children computed in place", 6)


def harmless(P, an, call, x, al):
    """with the element and the child at the same place the call changes nothing but payload"""
    hs = [h for h in P.resolve(call) if h.body is not None and not h.tmpl]
    if not hs:
        return False
    for h in hs:
        j = [k for k, y in enumerate(call.args) if y is not None and any(z is x for z in y.walk())]
        i = [k for k, y in enumerate(call.args) if y is not None and varid(y) in al]
        if not j or not i:
            return False
        _, d = an.analyse(h, ("p", i[0]), ("p", j[0]))
        if any(not set(q) & PAYLOAD for q in d):
            return False
    return True
