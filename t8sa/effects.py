"""Interprocedural mod analysis: for every function the set of locations, reachable from its parameters, its object or
globals, that a call may write. Flow-insensitive, field-sensitive (access paths up to 3 fields), fixpoint over the call graph."""
from .model import CASTS
from .lib import cval, varid
from . import flow

FRESH = {"sc_malloc", "sc_calloc", "sc_realloc", "malloc", "calloc", "sc_array_new", "sc_array_new_count", "sc_array_new_size", "sc_array_new_view",
         "sc_mempool_new", "sc_mempool_alloc", "sc_hash_new", "sc_hash_array_new", "sc_list_new", "strdup", "sc_strdup", "fopen", "sc_shmem_malloc",
         "make_unique", "make_shared"}
DERIVE0 = {"sc_array_index", "sc_array_index_int", "sc_array_index_ssize_t", "sc_array_index_begin", "sc_array_index_null", "sc_array_index_size_t",
           "p4est_quadrant_array_index", "p8est_quadrant_array_index", "sc_array_bsearch", "sc_shmem_get_array"}
PURE = {"memcmp", "strcmp", "strlen", "strncmp", "sc_array_bsearch", "sc_hash_lookup", "sc_hash_array_lookup", "sc_hash_array_is_valid", "sc_refcount_is_last", "sc_refcount_is_active", "sc_list_first",
        "sc_array_is_sorted", "sc_array_is_equal", "sc_memory_used", "bsearch", "sc_package_is_registered", "sc_get_package_id", "p4est_quadrant_is_extended",
        "p4est_connectivity_is_valid", "p4est_quadrant_is_familypv", "p8est_quadrant_is_familypv", "p8est_connectivity_is_valid"}
ACCESS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "operator[]", "at", "front", "back", "find", "size", "empty", "operator*", "operator->", "get", "count", "c_str",
          "value", "has_value", "operator bool", "lower_bound", "upper_bound", "equal_range", "contains", "length", "key_eq", "hash_function", "capacity", "underlying", "base", "operator()", "use_count"}
MAXPATH = 3
# external functions that take non-const pointers but write only these arguments
ONLY = {"sc_array_init_view": (0,), "sc_array_init_data": (0,), "sc_array_copy": (0,), "sc_array_split": (1,), "sc_array_init_reshape": (0,),
        "MPI_Send": (), "MPI_Isend": (6,), "MPI_Allreduce": (1,), "MPI_Bcast": (0,), "sc_shmem_allgather": (3,), "sc_shmem_prefix": (1,), "sc_shmem_memcpy": (0,),
        "sc_list_insert": (0,), "sc_list_append": (0,), "sc_list_prepend": (0,), "sc_hash_insert_unique": (0,), "sc_hash_array_insert_unique": (0,), "sc_hash_lookup": (),
        "sc_hash_array_lookup": (2,), "memcpy": (0,), "memmove": (0,), "memset": (0,), "sc_memcpy": (0,)}


def ptr_const(t):
    if t.pointee_const:
        return True
    if t.k == "ref":
        return False
    s = t.s
    i = s.rfind("*")
    j = s.rfind("*", 0, i) if i > 0 else -1
    return i > 0 and j < 0 and "const" in s[:i].split()
LOG = ("t8_log", "t8_logf", "sc_log", "sc_logf", "t8_debugf", "t8_global_errorf", "t8_errorf", "sc_abort", "sc_abort_verbose", "sc_abort_verbosef", "printf", "fprintf", "snprintf")


_rest = {}


def restoring(fn, d):
    """static local d has its initial constant value again on every path out of fn"""
    k = (id(fn), d)
    if k not in _rest:
        _rest[k] = _restoring(fn, d)[0]
    return _rest[k]


def _ref(n):
    n = n.strip()
    return n.get("d") if n.k == "DeclRefExpr" else None


def _restoring(fn, d):
    init = fn.varinit.get(d)
    v0 = init.strip().v if init is not None else 0
    if v0 is None or fn.cfg is None:
        return False, None
    for n in fn.walk():
        if n.k == "UnaryOperator" and n.op == "&" and _ref(n.kids[0]) == d:
            return False, n

    def tr(n, s):
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            if _ref(n.c[0]) == d:
                ok = n.op == "=" and cval(n.c[1]) == v0
                return frozenset() if ok else frozenset([n.i])
        if n.k == "UnaryOperator" and n.op in ("++", "--") and _ref(n.kids[0]) == d:
            return frozenset([n.i])
        return s
    inn = flow.forward(fn, frozenset(), tr, lambda a, b: a | b)
    g = fn.cfg
    s = inn.get(g.exit, frozenset())
    return (not s), (fn.nodes[sorted(s)[0]] if s else None)


class FnEff:
    __slots__ = ("eff", "ret", "why")

    def __init__(self):
        self.eff = {}      # (root, path) -> (node where, via)
        self.ret = set()


class Effects:
    def __init__(self, P, scheme_by_const=True):
        self.P = P
        self.s = {}
        self.fns = [f for f in P.all if not f.tmpl]
        self.asg = {}
        self.opaque_scheme = scheme_by_const
        self.facts = {}
        self.solve()

    # ---- pointer assignments per function
    def assigns(self, f):
        a = self.asg.get(id(f))
        if a is None:
            a = {}
            for n in f.walk():
                if n.k == "DeclStmt":
                    for v in n.d["decls"]:
                        if v["id"] in f.varinit:
                            a.setdefault(v["id"], []).append(f.varinit[v["id"]])
                elif n.k == "BinaryOperator" and n.op == "=":
                    d = varid(n.c[0])
                    if d is not None:
                        a.setdefault(d, []).append(n.c[1])
                elif n.k == "CXXForRangeStmt" and "var" in n.d:
                    kids = n.kids
                    # range expression: first child that is not the body
                    for x in kids[:-1]:
                        a.setdefault(n.d["var"]["id"], []).append(x)
                elif n.is_call and n.k == "CallExpr":
                    # out parameter of pointer type: f (&p): p may point into what the callee knows; treat as fresh
                    pass
            self.asg[id(f)] = a
        return a

    def is_ref(self, t):
        return t is not None and (t.k == "ref" or t.s.rstrip().endswith("&"))

    def ext(self, locs, field):
        out = set()
        for r, p in locs:
            if r[0] in ("fresh",):
                out.add((r, ()))
            elif len(p) >= MAXPATH:
                out.add((r, p))
            else:
                out.add((r, p + (field,)))
        return out

    def lval(self, n, seen=frozenset()):
        """locations the lvalue n denotes"""
        n0 = n
        while n.k in CASTS and n.kids:
            if n.get("ck") == "LValueToRValue" and False:
                break
            n = n.kids[-1]
        k = n.k
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXDefaultArgExpr") and n.kids:
            return self.lval(n.kids[0], seen)
        if k == "DeclRefExpr":
            dk = n.get("dk"); d = n.get("d")
            if dk == "parm":
                for i, p in enumerate(n.fn.params):
                    if p["id"] == d:
                        t = n.fn.ptype(i)
                        if self.is_ref(t):
                            if t.to is not None and t.to.k == "ptr":
                                return {(("pr", i), ())}      # the caller's pointer itself, not what it points to
                            return {(("p", i), ())}
                        return {(("l", d), ())}
                return {(("l", d), ())}
            if dk == "local":
                vd = n.fn.vardecls.get(d)
                t = n.fn.vtype(d)
                if vd is not None and vd[0].get("static"):
                    return {(("g", n.get("n")), ())}
                if self.is_ref(t):
                    if (id(n.fn), d) in seen:
                        return set()
                    out = set()
                    for x in self.assigns(n.fn).get(d, []):
                        out |= self.lval(x, seen | {(id(n.fn), d)})
                    return out or {(("l", d), ())}
                return {(("l", d), ())}
            if dk == "slocal":
                if restoring(n.fn, d):
                    return {(("l", d), ())}        # every path out of the function puts the initial value back
                return {(("g", n.get("n")), ())}
            if dk in ("global", "static", "field") or n.get("global"):
                return {(("g", n.get("n")), ())}
            return {(("g", n.get("n")), ())} if dk == "var" else {(("l", d), ())}
        if k == "MemberExpr":
            b = n.kids[0] if n.kids else None
            if b is None:
                return {(("this",), (n.get("n"),))}
            base = self.ptr(b, seen) if n.get("arrow") else self.lval(b, seen)
            return self.ext(base, n.get("n"))
        if k == "ArraySubscriptExpr":
            return self.ptr(n.c[0], seen)
        if k == "UnaryOperator":
            if n.op == "*":
                return self.ptr(n.kids[0], seen)
            if n.op in ("++", "--"):
                return self.lval(n.kids[0], seen)
            return set()
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("="):
            return self.lval(n.c[0], seen)
        if k == "ConditionalOperator":
            return self.lval(n.c[1], seen) | self.lval(n.c[2], seen)
        if k == "CXXThisExpr":
            return {(("this",), ())}
        if n.is_call:
            return self.callret(n, seen)
        if k == "BinaryOperator" and n.op == ",":
            return self.lval(n.c[1], seen)
        return set()

    def ptr(self, n, seen=frozenset()):
        """locations the pointer value n may point to"""
        while True:
            if n.k in CASTS and n.kids:
                n = n.kids[-1]
            elif n.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr") and n.kids:
                n = n.kids[0]
            else:
                break
        k = n.k
        t = n.t
        if t is not None and t.k == "arr":
            return self.lval(n, seen)
        if k == "CXXThisExpr":
            return {(("this",), ())}
        if k == "UnaryOperator" and n.op == "&":
            return self.lval(n.kids[0], seen)
        if k == "UnaryOperator" and n.op in ("++", "--"):
            return self.ptr(n.kids[0], seen)
        if k == "UnaryOperator" and n.op == "*":
            # pointer loaded from memory: deep in the same object
            return {(r, p) for r, p in self.ptr(n.kids[0], seen)}
        if k == "BinaryOperator":
            if n.op in ("+", "-"):
                out = set()
                for c in n.c:
                    u = c.strip().t
                    if u is not None and u.k in ("ptr", "arr"):
                        out |= self.ptr(c, seen)
                return out
            if n.op == "=":
                return self.ptr(n.c[1], seen)
            if n.op == ",":
                return self.ptr(n.c[1], seen)
            return set()
        if k == "CompoundAssignOperator":
            return self.ptr(n.c[0], seen)
        if k == "ConditionalOperator":
            return self.ptr(n.c[1], seen) | self.ptr(n.c[2], seen)
        if k == "DeclRefExpr":
            dk = n.get("dk"); d = n.get("d")
            if dk == "parm":
                for i, p in enumerate(n.fn.params):
                    if p["id"] == d:
                        out = {(("p", i), ())}
                        if (id(n.fn), d) not in seen:
                            for x in self.assigns(n.fn).get(d, []):
                                out |= self.ptr(x, seen | {(id(n.fn), d)})
                        return out
                return set()
            if dk == "local":
                if (id(n.fn), d) in seen:
                    return set()
                vd = n.fn.vardecls.get(d)
                if vd is not None and vd[0].get("static"):
                    return {(("g", n.get("n")), ())}
                out = set()
                defs = flow.reaching(n.fn)(n, d) if len(self.assigns(n.fn).get(d, [])) > 1 else None
                if defs is None:
                    defs = self.assigns(n.fn).get(d, [])
                for x in defs:
                    out |= self.ptr(x, seen | {(id(n.fn), d)})
                if self.is_ref(n.fn.vtype(d)):
                    for x in self.assigns(n.fn).get(d, []):
                        out |= self.lval(x, seen | {(id(n.fn), d)})
                if t is not None and t.k == "rec":
                    out.add((("l", d), ()))
                return out
            return {(("g", n.get("n")), ())}
        if k in ("MemberExpr", "ArraySubscriptExpr"):
            out = set()
            for r, p in self.lval(n, seen):
                if r[0] == "l":
                    out |= self.stored(n.fn, r[1], seen)
                else:
                    out.add((r, p))
            return out
        if k == "CXXNewExpr":
            return {(("fresh",), ())}
        if n.is_call:
            return self.callret(n, seen)
        if k == "InitListExpr":
            return set()
        return set()

    def stored(self, fn, d, seen):
        """what pointers stored in the local aggregate d may point to"""
        if (id(fn), d, "s") in seen:
            return set()
        seen = seen | {(id(fn), d, "s")}
        m = self.facts.get((id(fn), "st"))
        if m is None:
            m = {}
            for n in fn.walk():
                if n.k == "BinaryOperator" and n.op == "=" and n.t is not None and n.t.k == "ptr":
                    b = n.c[0].strip()
                    if b.k in ("MemberExpr", "ArraySubscriptExpr"):
                        while b.k in ("MemberExpr", "ArraySubscriptExpr") and b.kids:
                            b = b.kids[0].strip()
                        if b.k == "DeclRefExpr" and b.get("dk") == "local":
                            m.setdefault(b.get("d"), []).append(n.c[1])
            self.facts[(id(fn), "st")] = m
        out = set()
        for x in m.get(d, []):
            out |= self.ptr(x, seen)
        for x in self.assigns(fn).get(d, []):
            s = x.strip()
            if s.k == "InitListExpr":
                for y in s.kids:
                    if y.t is not None and y.t.k == "ptr":
                        out |= self.ptr(y, seen)
            elif s.is_call and s.t is not None and s.t.k == "rec":
                for y in s.args:
                    if y is not None and y.t is not None and y.t.k == "ptr":
                        out |= self.ptr(y, seen)
        return out

    def obj(self, call):
        if call.k == "CXXMemberCallExpr" and call.c[0] is not None and call.c[0].strip().kids:
            m = call.c[0].strip()
            return m.kids[0], bool(m.get("arrow"))
        if call.k == "CXXOperatorCallExpr" and call.args:
            return call.args[0], False
        return None, False

    def objlocs(self, call, seen):
        o, arrow = self.obj(call)
        if o is None:
            if call.k == "CXXMemberCallExpr":
                return {(("this",), ())}
            return set()
        return self.ptr(o, seen) if arrow or (o.t is not None and o.t.k == "ptr") else self.lval(o, seen)

    def arglocs(self, a, seen):
        t = a.t
        if t is not None and t.k == "ptr":
            return self.ptr(a, seen)
        s = a.strip()
        if s.t is not None and s.t.k in ("ptr", "arr"):
            return self.ptr(a, seen)
        return self.lval(a, seen)

    def subst(self, call, callee, root, path, seen):
        if root[0] == "g":
            return {(root, path)}
        if root[0] == "this":
            base = self.objlocs(call, seen)
        elif root[0] == "p":
            args = call.args
            i = root[1]
            if call.k == "CXXOperatorCallExpr" and callee.cls:
                i += 1
            if i >= len(args) or args[i] is None:
                return set()
            base = self.arglocs(args[i], seen)
        elif root[0] == "pr":
            i = root[1] + (1 if call.k == "CXXOperatorCallExpr" and callee.cls else 0)
            if i >= len(call.args) or call.args[i] is None:
                return set()
            base = self.lval(call.args[i], seen)
        else:
            return {(root, path)}
        out = set()
        for r, p in base:
            if r[0] == "fresh":
                out.add((r, ()))
            else:
                out.add((r, (p + path)[:MAXPATH]))
        return out

    def scheme_method(self, call):
        c = call.get("callee") or ""
        return self.opaque_scheme and "t8_scheme::" in c

    def callret(self, n, seen):
        if ("r", id(n)) in seen:
            return set()
        seen = seen | {("r", id(n))}
        cn = str(n.cn).split("::")[-1]
        if cn in FRESH:
            return {(("fresh",), ())}
        if cn in DERIVE0 and n.args:
            return self.arglocs(n.args[0], seen)
        if cn in ("move", "forward", "addressof", "as_const", "max", "min", "get_if") and n.args:
            return self.arglocs(n.args[0], seen)
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            out = {(("fresh",), ())}
            for a in n.args:
                if a is not None and a.t is not None and a.t.k in ("ptr", "rec"):
                    out |= self.arglocs(a, seen)
            return out
        fs = self.P.resolve(n)
        if fs:
            out = set()
            for f in fs:
                S = self.s.get(id(f))
                if S is None:
                    continue
                for r, p in S.ret:
                    out |= self.subst(n, f, r, p, seen)
            return out
        if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self.objlocs(n, seen)
        return {(("fresh",), ())}

    # ---- effects of one node
    def node_effects(self, n):
        """yield (loc, via) written by this node alone"""
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "<=", ">=", "!="):
            for l in self.lval(n.c[0]):
                yield l, None
            return
        if n.k == "UnaryOperator" and n.op in ("++", "--"):
            for l in self.lval(n.kids[0]):
                yield l, None
            return
        if n.k == "CXXDeleteExpr" and n.kids:
            for l in self.ptr(n.kids[0]):
                yield l, "delete"
            return
        if not n.is_call:
            return
        cn = str(n.cn).split("::")[-1]
        if cn in LOG or any(m.startswith(("SC_LOG", "SC_GEN_LOG")) for m in n.m):
            if cn == "snprintf" and n.args:
                for l in self.arglocs(n.args[0], frozenset()):
                    yield l, cn
            return
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            fs = self.P.resolve(n)
            for f in fs:
                S = self.s.get(id(f))
                if S:
                    for (r, p) in list(S.eff):
                        if r[0] in ("p", "pr", "g"):
                            for l in self.subst(n, f, r, p, frozenset()):
                                yield l, f.qn
            return
        if self.scheme_method(n):
            for a in n.args:
                if a is not None and a.t is not None and a.t.k == "ptr" and not ptr_const(a.t):
                    for l in self.arglocs(a, frozenset()):
                        yield l, cn
            return
        fs = self.P.resolve(n)
        if fs:
            for f in fs:
                S = self.s.get(id(f))
                if S is None:
                    continue
                for (r, p) in list(S.eff):
                    for l in self.subst(n, f, r, p, frozenset()):
                        yield l, f.qn
            if all(f.body is not None for f in fs):
                return
        if cn in PURE or cn in DERIVE0 or cn in FRESH and cn not in ("sc_realloc",):
            return
        if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
            if cn not in ACCESS or (cn == "operator[]" and "map" in (self.objtype(n) or "")):
                if not fs and not self.const_object(n):
                    isop = n.k == "CXXOperatorCallExpr" and n.op in ("==", "!=", "<", ">", "<=", ">=", "-", "+", "<<", ">>", "()")
                    if not isop:
                        for l in self.objlocs(n, frozenset()):
                            yield l, cn
            args = n.args[1:] if n.k == "CXXOperatorCallExpr" else n.args
        else:
            args = n.args
        if fs:
            return
        cp = n.get("cp")
        for i, a in enumerate(args):
            if a is None or a.t is None:
                continue
            if cp is not None and n.k != "CXXOperatorCallExpr" and i < len(cp) and cp[i] != "w":
                continue
            if n.get("callee") is None and a.t.s.replace("const ", "").strip() in ("t8_forest_t", "t8_cmesh_t"):
                continue            # user callback: gets the mesh handle to read it
            if a.t.k == "ptr" and not ptr_const(a.t) and a.t.to is not None and a.t.to.k != "fn" and "(" not in (a.t.to.cs or "") \
                    and not a.t.s.startswith(("MPI_", "sc_MPI_")):
                if cn in ONLY and args.index(a) not in ONLY[cn]:
                    continue
                for l in self.arglocs(a, frozenset()):
                    yield l, cn

    def objtype(self, n):
        o, _ = self.obj(n)
        return o.strip().t.cs if o is not None and o.strip().t is not None else None

    def const_object(self, n):
        if n.get("mconst"):
            return True
        o, arrow = self.obj(n)
        if o is None or o.t is None:
            return False
        t = o.t
        if t.k == "ptr":
            return t.pointee_const
        return bool(t.const) or t.s.startswith("const ")

    def solve(self):
        for f in self.fns:
            self.s[id(f)] = FnEff()
        # interesting nodes per function
        nodes = {}
        callers = {}
        for f in self.fns:
            ns = []; rs = []
            for n in f.walk():
                if n.is_call or n.k in ("CompoundAssignOperator", "CXXDeleteExpr") or (n.k == "BinaryOperator" and n.op == "=") \
                        or (n.k == "UnaryOperator" and n.op in ("++", "--")):
                    ns.append(n)
                    if n.is_call:
                        for g in self.P.resolve(n):
                            callers.setdefault(id(g), set()).add(id(f))
                elif n.k == "ReturnStmt" and n.kids:
                    rs.append(n.kids[0])
            nodes[id(f)] = (f, ns, rs)
        work = list(nodes)
        inq = set(work)
        rounds = 0
        while work and rounds < 60000:
            rounds += 1
            fid = work.pop(0); inq.discard(fid)
            f, ns, rs = nodes[fid]
            S = self.s[fid]
            ch = False
            rt = f.ret
            if rt is not None and (rt.k in ("ptr", "rec") or self.is_ref(rt)):
                for r in rs:
                    v = self.ptr(r) if rt.k == "ptr" else (self.lval(r) | (self.ptr(r) if rt.k == "rec" else set()))
                    for x in v:
                        if x[0][0] in ("p", "this", "g", "fresh") and x not in S.ret:
                            if len(S.ret) < 40:
                                S.ret.add(x); ch = True
            for n in ns:
                for l, via in self.node_effects(n):
                    if l[0][0] in ("p", "pr", "this", "g") and l not in S.eff:
                        if len(S.eff) < 150:
                            S.eff[l] = (n, via); ch = True
            if ch:
                for c in callers.get(fid, ()):
                    if c not in inq:
                        work.append(c); inq.add(c)
                if fid not in inq and any(fid == c for c in callers.get(fid, ())):
                    work.append(fid); inq.add(fid)

    def of(self, f):
        return self.s.get(id(f))

    def trace(self, f, loc, depth=6):
        """call chain that performs the write"""
        out = []
        seen = set()
        while f is not None and depth:
            S = self.s.get(id(f))
            if S is None or loc not in S.eff:
                break
            n, via = S.eff[loc]
            out.append("%s %s" % (n.where, n.src()[:70]))
            if via is None or not n.is_call or (id(f), loc) in seen:
                break
            seen.add((id(f), loc))
            nxt = None
            for g in self.P.resolve(n):
                G = self.s.get(id(g))
                if G is None:
                    continue
                for (r, p) in G.eff:
                    if loc in self.subst(n, g, r, p, frozenset()):
                        nxt = (g, (r, p)); break
                if nxt:
                    break
            if not nxt:
                break
            f, loc = nxt
            depth -= 1
        return out
