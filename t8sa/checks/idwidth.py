"""P09: global element numbers, global tree ids and curve indices keep their 64 bits.

Rule 1 (narrowing): a 64-bit id is converted to a narrower integer only where its value is provably relative or small: a
difference of two ids, a remainder, a scaled coordinate (a*b)/c, a value widened from 32 bits, the per-process count returned
by such an expression, or (coarse mesh only) a tree number of a mesh that is held as a whole by one process.
Rule 2 (widening): no product, shift or power is formed in 32 bits and then used as an id.
"""
import re
from ..model import CASTS
from ..lib import cval, varid
from ..paths import expand

IDS = ("t8_gloidx_t", "t8_linearidx_t")
WIDE = IDS + ("int64_t", "uint64_t", "value_type", "p4est_gloidx_t")
ASSERT = ("T8_ASSERT", "SC_ASSERT", "T8_ASSERTF")
ELEM = re.compile(r"elem|child|leaf|leaves|desc|linear|family", re.I)


def tname(t):
    return t.s.replace("const ", "").strip() if t is not None else ""


def narrow(t):
    return t is not None and t.w is not None and 0 < t.w <= 32 and t.k in ("int", "enum", "bool")


class Width:
    def __init__(self, P):
        self.P = P; self.asg = {}; self.callers = None

    def assigns(self, f):
        a = self.asg.get(id(f))
        if a is None:
            a = {}
            for n in f.walk():
                if n.k == "DeclStmt":
                    for v in n.d["decls"]:
                        if v["id"] in f.varinit:
                            a.setdefault(v["id"], []).append(f.varinit[v["id"]])
                elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "+=", "-=", "*=", "<<=", "|=", "^="):
                    d = varid(n.c[0])
                    if d is not None:
                        if n.op in ("*=", "<<="):
                            a.setdefault(d, []).append(None)
                        elif n.op != "-=":
                            a.setdefault(d, []).append(n.c[1])
                        else:
                            a.setdefault(d, [])
                elif n.k == "UnaryOperator" and n.op == "&":
                    d = varid(n.kids[0])
                    if d is not None:
                        a.setdefault(d, []).append(None)
                elif n.is_call and n.k != "CXXOperatorCallExpr":
                    for tgt in self.P.resolve(n)[:1]:
                        for i, x in enumerate(n.args):
                            if x is None or i >= len(tgt.params):
                                continue
                            pt = tgt.ptype(i)
                            if pt is not None and pt.k == "ref" and not pt.pointee_const:
                                d = varid(x)
                                if d is not None:
                                    a.setdefault(d, []).append((tgt, i) if tgt.body is not None else None)
            self.asg[id(f)] = a
        return a

    def args_of(self, f, idx):
        if self.callers is None:
            self.callers = {}
            for g in self.P.all:
                for c in g.calls():
                    k = c.get("callee")
                    if k is not None:
                        self.callers.setdefault(k, []).append(c)
        return [c.args[idx] for c in self.callers.get(f.key, ()) if idx < len(c.args) and c.args[idx] is not None]

    def small(self, n, seen=frozenset()):
        """the value of n is relative / bounded by 32 bits by construction"""
        if isinstance(n, tuple):             # what a called function stores in its reference parameter
            g, i = n
            d = g.params[i]["id"]
            if (id(g), d) in seen:
                return True
            a = self.assigns(g).get(d) or []
            return None not in a and all(self.small(x, seen | {(id(g), d)}) for x in a)
        if cval(n) is not None:
            return True
        m = n
        while True:
            if narrow(m.t):
                return True
            if m.k in CASTS and m.kids:
                m = m.kids[-1]
                continue
            if m.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ConstantExpr") and m.kids:
                m = m.kids[0]
                continue
            break
        P = self.P
        if m.k == "BinaryOperator":
            a, b = m.c[0], m.c[1]
            if m.op == "-":
                if not narrow(b.strip().t) and cval(b) is None:
                    return True
                return self.small(a, seen) and self.small(b, seen)
            if m.op == "+":
                return self.small(a, seen) and self.small(b, seen)
            if m.op in ("%", "&"):
                return self.small(b, seen) or self.small(a, seen)
            if m.op == "/":
                x = a.strip()
                while x.k == "ParenExpr":
                    x = x.kids[0].strip()
                if x.k == "BinaryOperator" and x.op == "*" and all(self.small(c, seen) for c in x.c) and self.small(b, seen):
                    return True
                return self.small(a, seen)
            if m.op == "*" and all(self.small(c, seen) for c in m.c):
                return any(cval(c) is not None and abs(cval(c)) <= 16 for c in m.c)
            if m.op == ">>":
                return self.small(a, seen)
            if m.op == "=":
                return self.small(b, seen)
            if m.op == ",":
                return self.small(b, seen)
            return False
        if m.k == "ConditionalOperator":
            return self.small(m.c[1], seen) and self.small(m.c[2], seen)
        if m.k == "UnaryOperator" and m.op in ("-", "+", "++", "--", "~"):
            return self.small(m.kids[0], seen)
        if m.k == "DeclRefExpr":
            d = m.get("d")
            if m.get("dk") == "local":
                if (id(m.fn), d) in seen:
                    return True
                a = self.assigns(m.fn).get(d)
                if not a or None in a:
                    return False
                return all(self.small(x, seen | {(id(m.fn), d)}) for x in a)
            if m.get("dk") == "parm":
                if (id(m.fn), d) in seen:
                    return True
                ix = [i for i, p in enumerate(m.fn.params) if p["id"] == d]
                if not ix:
                    return False
                sites = self.args_of(m.fn, ix[0])
                extra = self.assigns(m.fn).get(d) or []
                if not sites or None in extra:
                    return False
                return all(self.small(x, seen | {(id(m.fn), d)}) for x in list(sites) + list(extra))
        if m.is_call:
            if str(m.cn).split("::")[-1] in ("min",):
                return any(self.small(x, seen) for x in m.args if x is not None)
            fs = P.resolve(m)
            if len(fs) == 1 and fs[0].body and fs[0].key not in seen:
                rs = [x.kids[0] for x in fs[0].walk() if x.k == "ReturnStmt" and x.kids]
                return bool(rs) and all(self.small(r, seen | {fs[0].key}) for r in rs)
        return False

    def leaves(self, n, seen=frozenset()):
        """names of the 64-bit quantities n is computed from"""
        m = n.strip()
        out = set()
        if narrow(m.t) or cval(m) is not None:
            return out
        if m.k == "DeclRefExpr":
            d = m.get("d")
            if m.get("dk") == "local" and (id(m.fn), d) in seen:
                return out
            xs = (self.assigns(m.fn).get(d) or []) if m.get("dk") == "local" else []
            for x in xs:
                if x is not None and not isinstance(x, tuple):
                    out |= self.leaves(x, seen | {(id(m.fn), d)})
            # a variable that only stands for other quantities is those quantities
            if not out or any(x is None or isinstance(x, tuple) for x in xs):
                out.add(m.get("n"))
            return out
        if m.k == "MemberExpr":
            return {m.get("n")}
        if m.k == "ArraySubscriptExpr":
            return self.leaves(m.c[0], seen)
        if m.is_call:
            out = {str(m.cn)}
            if m.k == "CXXOperatorCallExpr" and m.args:
                out |= self.leaves(m.args[0], seen)
            else:
                for a in m.args:
                    if a is not None and a.t is not None and a.t.k in ("ptr", "rec"):
                        s = a.strip()
                        if s.k == "MemberExpr":
                            out.add(s.get("n"))
            return out
        for c in m.kids:
            out |= self.leaves(c, seen)
        return out


def is_hash(f):
    r = tname(f.ret)
    if f.ret is not None and (f.ret.k == "bool" or f.ret.cs.replace("const ", "") == "int"):
        return False               # compares
    return "hash" in f.n or (r in ("unsigned int", "unsigned") and len(f.params) == 2 and all((f.ptype(i) or 0) and f.ptype(i).k == "ptr" for i in range(2)))


def is_compare(f):
    """a comparison function: two operands of the same pointer or reference type, the order as a result"""
    if f.ret is None or f.ret.cs.replace("const ", "") not in ("int", "bool") or len(f.params) not in (2, 3):
        return False
    a, b = f.ptype(0), f.ptype(1)
    return a is not None and b is not None and a.k in ("ptr", "ref") and a.cs == b.cs and (a.pointee_const or a.k == "ref") \
        and all(p["n"] for p in f.params[:2]) and re.search("comp|cmp|less|order|equal", f.n) is not None


# numbers of a coarse mesh that is held as a whole by one process (before commit, broadcast, generators, readers)
WHOLE = {"id", "id1", "id2", "attr_id", "num_trees", "num_trees_per_eclass", "global_number_of_vertices", "tree_offsets_partition", "operator[]"}
GENERATORS = ("src/t8_cmesh/t8_cmesh_examples.cxx", "src/t8_cmesh/t8_cmesh_helpers.cxx", "src/t8_cmesh/t8_cmesh_io/")


def replicated_branch(n):
    """n is guarded by a test of whether the mesh is partitioned, or follows one that returns"""
    c = n
    for a in n.ancestors():
        if a.k in ("IfStmt", "ConditionalOperator", "BinaryOperator") and a.kids and a.kids[0] is not c:
            if any(x.k == "MemberExpr" and x.get("n") == "set_partition" or x.is_call and x.cn == "t8_cmesh_is_partitioned" for x in expand(n.fn, a.kids[0])):
                return True
        if a.k == "CompoundStmt":
            for b in a.kids:
                if b is c:
                    break
                if b.k == "IfStmt" and any(x.k == "MemberExpr" and x.get("n") == "set_partition" or x.is_call and x.cn == "t8_cmesh_is_partitioned" for x in expand(n.fn, b.kids[0])) \
                        and any(x.k == "ReturnStmt" for x in b.walk()):
                    return True
        c = a
    return False


def tree_quantity(f, names, n=None):
    if any(ELEM.search(x or "") for x in names):
        return False
    if f.relfile.startswith(GENERATORS):
        return True
    if f.relfile.startswith("src/t8_cmesh/") or "cmesh" in f.n:
        return names <= WHOLE or (n is not None and (replicated_branch(n) or f.d.get("internal") and called_replicated(f)))
    return False


def called_replicated(f):
    cs = CALLS.get(f.key, ())
    return bool(cs) and all(replicated_branch(c) for c in cs)


CALLS = {}


def tree_product(f, names):
    return (f.relfile.startswith("src/t8_cmesh/") or "cmesh" in f.n) and not any(ELEM.search(x or "") for x in names)


def product32(n):
    """a 32-bit product, shift or power inside n that n's value is made of"""
    st = [n.strip()]
    while st:
        m = st.pop()
        if m.t is not None and m.t.w and m.t.w >= 64 and m.k not in CASTS:
            continue
        if cval(m) is not None:
            continue
        if m.k == "BinaryOperator":
            if m.op in ("*", "<<"):
                return m
            if m.op in ("+", "-", "|", "^"):
                st.extend(c.strip() for c in m.c)
            continue
        if m.k == "ConditionalOperator":
            st.extend(c.strip() for c in m.c[1:])
            continue
        if m.k in ("ParenExpr",):
            st.append(m.kids[0].strip())
            continue
        if m.is_call and m.cn in ("sc_intpow", "sc_intpowu"):
            return m
        if m.k == "DeclRefExpr" and m.get("dk") == "local":
            i = m.fn.varinit.get(m.get("d"))
            if i is not None and m.get("_seen") is None and i is not n:
                s = i.strip()
                if s.k == "BinaryOperator" and s.op in ("*", "<<") and s.t is not None and s.t.w and s.t.w < 64 and cval(s) is None:
                    return s
                if s.is_call and s.cn in ("sc_intpow", "sc_intpowu"):
                    return s
    return None


def wide_diff(n):
    return any(m.k == "BinaryOperator" and m.op == "-" and not narrow(m.t) and cval(m.c[1]) is None for m in expand(n.fn, n))


def run_P09(P, rep):
    W = Width(P)
    done = set()
    CALLS.clear()
    for f in P.all:
        for c in f.calls():
            k = c.get("callee")
            if k is not None:
                CALLS.setdefault(k, []).append(c)
    for f in P.all:
        hashf = is_hash(f)
        cmpf = is_compare(f)
        for n in f.walk():
            if any(m in ASSERT for m in n.m):
                continue
            # --- narrowing
            src = dst = None
            if n.k in CASTS and n.kids and n.t is not None and n.t.k == "int" and n.t.w and n.t.w < 64 and n.t.w > 1:
                s = n.kids[-1]
                if s.t is not None and s.t.k == "int" and s.t.w == 64 and cval(n) is None:
                    src, dst = s, n.t
            elif n.k == "CompoundAssignOperator" and n.c[0].t is not None and n.c[0].t.k == "int" and (n.c[0].t.w or 64) < 64 \
                    and n.c[1].t is not None and n.c[1].t.w == 64 and n.op in ("+=", "-=", "*=", "|=", "=", "^="):
                src, dst = n.c[1], n.c[0].t
            if src is not None:
                isid = tname(src.t) in WIDE and not (tname(src.t) == "value_type" and src.t.cs.replace("const ", "") == "unsigned long")
                m = src.strip()
                if m.k == "BinaryOperator" and any(tname(x.t) in IDS for x in m.kids):
                    isid = True
                if isid:
                    key = (n.where, src.src())
                    if key in done:
                        continue
                    done.add(key)
                    if hashf or "coord" in dst.s or W.small(src) and not (cmpf and wide_diff(src)):
                        rep.ok("narrowed id")
                    else:
                        nm = W.leaves(src)
                        if tree_quantity(f, nm, n) and not cmpf:
                            rep.ok("tree number of a whole mesh")
                        else:
                            rep.bad("narrow:%s:%s" % (f.qn, src.src()[:80]),
                                    "%s is a 64-bit id or count (%s) but is stored as '%s'" % (src.src()[:90], tname(src.t), dst.s), n.where)
            # --- widening
            if n.k in CASTS and n.kids and tname(n.t) in IDS + ("int64_t", "uint64_t") and n.t.w == 64:
                s = n.kids[-1]
                if s.t is not None and s.t.k == "int" and s.t.w and s.t.w < 64 and cval(n) is None:
                    key = ("w", n.where, n.src())
                    if key in done:
                        continue
                    done.add(key)
                    p = product32(s)
                    if p is None:
                        rep.ok("widened value")
                    elif tree_product(f, {x.get("n") for x in s.walk() if x.k in ("DeclRefExpr", "MemberExpr")}):
                        rep.ok("tree number of a whole mesh")
                    else:
                        rep.bad("widen:%s:%s" % (f.qn, p.src()[:80]),
                                "'%s' is computed in %d bits and then used as %s" % (p.src()[:90], (p.t.w if p.t else 32) or 32, tname(n.t)), n.where)
    rep.need("narrowed id", 30)
