"""P14: what a function acquires it releases, hands on or keeps on every path; nothing is used after its release.
P29: destroying an object releases everything it owns."""
import re
from ..lib import varid, in_macro, cval
from ..paths import explore, canon, is_null, TooMany, guards
from ..model import CASTS

# call name -> kind of resource (the returned pointer)
RET = {"sc_malloc": "memory", "sc_calloc": "memory", "sc_realloc": "memory", "sc_strdup": "memory", "malloc": "memory", "calloc": "memory", "realloc": "memory",
       "strdup": "memory", "fopen": "file", "sc_array_new": "array", "sc_array_new_size": "array", "sc_array_new_count": "array", "sc_hash_new": "hash",
       "sc_mempool_new": "mempool", "sc_mempool_new_zero_and_persist": "mempool", "sc_list_new": "list", "sc_hash_array_new": "hash array", "sc_keyvalue_new": "key-value store"}
# call name -> (argument index, kind) of a resource handed out through a pointer argument
OUT = {"element_new": (-1, "element"), "t8_element_new": (-1, "element"), "t8_cmesh_init": (0, "coarse mesh"), "t8_forest_init": (0, "forest"),
       "t8_shmem_array_init": (0, "shared array"), "t8_stash_init": (0, "stash"), "MPI_Comm_dup": (1, "communicator"), "MPI_Comm_split": (3, "communicator"),
       "sc_array_init": (0, "array"), "sc_array_init_size": (0, "array"), "sc_array_init_count": (0, "array"), "t8_element_array_init": (0, "element array"),
       "t8_element_array_init_size": (0, "element array"), "t8_element_array_init_copy": (0, "element array"), "getline": (0, "memory"),
       "t8_cmesh_trees_init": (0, "trees")}
# releasing calls: argument index
REL = {"sc_free": 1, "free": 0, "fclose": 0, "sc_array_destroy": 0, "sc_array_reset": 0, "sc_hash_destroy": 0, "sc_mempool_destroy": 0, "sc_mempool_destroy_null": 0,
       "sc_array_destroy_null": 0, "sc_hash_destroy_null": 0, "sc_list_destroy": 0, "sc_hash_array_destroy": 0, "sc_keyvalue_destroy": 0, "element_destroy": -1, "t8_element_destroy": -1,
       "MPI_Comm_free": 0, "t8_element_array_reset": 0, "sc_realloc": 1, "realloc": 0, "sc_hash_array_rip": 0, "p4est_connectivity_destroy": 0, "p8est_connectivity_destroy": 0,
       "t8_cmesh_destroy": 0, "t8_cmesh_unref": 0, "t8_forest_unref": 0, "t8_shmem_array_destroy": 0, "t8_stash_destroy": 0, "t8_cmesh_trees_destroy": 0, "sc_shmem_free": 1, "sc_mempool_free": 1}
STORES = {"sc_list_append", "sc_list_prepend", "sc_list_insert", "sc_hash_insert_unique", "sc_keyvalue_set_pointer", "sc_hash_array_rip"}
PLAIN_FREE = {"sc_free", "free", "fclose", "sc_array_destroy", "sc_hash_destroy", "sc_mempool_destroy", "sc_list_destroy", "sc_hash_array_destroy", "element_destroy", "t8_element_destroy"}


def pos(call, i):
    a = call.args
    if i < 0:
        i += len(a)
    return a[i] if 0 <= i < len(a) else None


def borrowing_external(name):
    return name is not None and name not in STORES and (name.startswith(("MPI_", "PMPI_", "sc_", "mem", "str", "f", "sn", "vsn", "print", "ss", "qsort", "get", "ato", "__")) )


def lv(n):
    """variable id, or (variable id, member, ...) for a member of a local record"""
    n = n.strip()
    if n.k == "DeclRefExpr":
        return varid(n)
    if n.k == "MemberExpr" and not n.get("arrow") and n.kids:
        b = lv(n.kids[0])
        if b is not None:
            return (b if isinstance(b, tuple) else (b,)) + (n.get("n"),)
    return None


def base_var(n):
    """variable denoted by v, &v, *(&v), casts"""
    n = n.strip()
    if n.k == "UnaryOperator" and n.op == "&":
        s = n.c[0].strip()
        if s.k == "ArraySubscriptExpr":
            return None, False
        return lv(s), True
    if n.k in ("DeclRefExpr", "MemberExpr"):
        return lv(n), False
    if n.k == "CXXMemberCallExpr" and n.cn == "data" and n.c[0] is not None and n.c[0].kids:
        return varid(n.c[0].kids[0]), True
    return None, False


def choice(n):
    """variables whose value an expression may have"""
    s = n.strip()
    if s.k == "ConditionalOperator":
        return choice(s.c[1]) | choice(s.c[2])
    if s.k == "UnaryOperator" and s.op == "*" and s.t is not None and s.t.k == "ptr" and varid(s.c[0]) is not None:
        return {varid(s.c[0])}
    b = base_var(n)[0]
    return {b} if b is not None else set()


class Takes:
    """which parameters a function keeps, releases or hands on"""
    def __init__(self, P):
        self.P = P; self.memo = {}; self.busy = set()

    def aliases(self, f, d):
        out = {d}
        ch = True
        while ch:
            ch = False
            for n in f.walk():
                if n.k == "BinaryOperator" and n.op == "=":
                    a = lv(n.c[0])
                    if a is not None and a not in out and any(b in out for b in choice(n.c[1])):
                        out.add(a); ch = True
                elif n.k == "DeclStmt":
                    for v in n.d["decls"]:
                        i = f.varinit.get(v["id"])
                        if i is not None and v["id"] not in out and any(b in out for b in choice(i)):
                            out.add(v["id"]); ch = True
        return out

    def call(self, n, a_idx, kind=None):
        """effect of call n on the resource in argument a_idx: 'rel', 'take' or None (borrowed)"""
        name = n.cn
        if name in REL:
            i = REL[name]
            if i < 0:
                i += len(n.args)
            if i == a_idx:
                return "rel"
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return "take"
        fs = self.P.resolve(n)
        fs = [f for f in fs if f.body is not None]
        if kind is not None and kind != "element" and (name or "").startswith(("element_", "elements_are", "t8_element_get", "t8_element_new", "t8_element_copy")):
            return None
        if kind == "element" and (name or "").startswith(("element_", "t8_element_", "t8_dtri", "t8_dtet", "t8_forest_element", "children")):
            return "rel" if any(a_idx < len(f.params) and self.param(f, a_idx) == "rel" for f in fs) else None
        if kind in ("coarse mesh", "forest") and name is not None:
            if name in HANDLE_TAKERS:
                return "take"
            if fs:
                return "rel" if any(a_idx < len(f.params) and self.param(f, a_idx) == "rel" for f in fs) else None
        if fs:
            r = None
            for f in fs:
                if a_idx >= len(f.params) and f.d.get("variadic", True) and name.startswith("t8_"):
                    continue
                if a_idx < len(f.params):
                    e = self.param(f, a_idx)
                    if e == "rel":
                        return "rel"
                    r = r or e
                else:
                    r = "take"
            return r
        if borrowing_external(name):
            return None
        if name is None or n.get("callee") is None and n.k == "CallExpr":
            return None          # user callbacks do not take over what they are shown
        if n.get("callee") is None:
            return "take"
        if name in BORROW or name.startswith(("t8_debugf", "t8_global", "t8_errorf", "t8_infof", "t8_product", "t8_essential", "t8_log")):
            return None
        return "take"

    def param(self, f, i):
        k = (f.key, f.file, f.l, i)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return None
        self.busy.add(k)
        r = None
        if f.body is None or f.tmpl:
            r = "take"
        else:
            al = self.aliases(f, f.params[i]["id"])
            for n in f.walk():
                e = effect(self, n, al, f)
                if e == "rel":
                    r = "rel"
                    break
                if e == "take":
                    r = "take"
        self.busy.discard(k)
        self.memo[k] = r
        return r


HANDLE_TAKERS = {"t8_cmesh_set_derive", "t8_forest_set_cmesh", "t8_forest_set_copy", "t8_forest_set_adapt", "t8_forest_set_partition", "t8_forest_set_balance",
                 "t8_forest_new_uniform", "t8_forest_new_adapt", "t8_forest_set_user_data"}
BORROW = {"operator<<", "t8_eclass_to_string"}


ELEMDEL = ("element_destroy", "t8_element_destroy")


def effect(T, n, al, f, el=None, kind=None):
    """effect of node n on a resource held in one of the variables al (el: elements / not elements / either)"""
    if n.is_call and el is not None and (n.cn in REL or n.cn in OUT):
        if el != (n.cn in ELEMDEL) and n.cn in REL:
            return None
    if n.is_call:
        for i, a in enumerate(n.args):
            if a is None:
                continue
            d, amp = base_var(a)
            if d in al:
                e = T.call(n, i, kind)
                if e:
                    return e
            elif a.strip().k == "UnaryOperator" and a.strip().op == "*" and varid(a.strip().c[0]) in al:
                # *pp of a pointer-to-pointer parameter
                e = T.call(n, i, kind)
                if e:
                    return e
        if n.k == "CXXMemberCallExpr" and n.cn in ("unref",) and n.c[0] is not None and n.c[0].kids:
            if base_var(n.c[0].kids[0])[0] in al:
                return "rel"
    elif n.k == "CXXDeleteExpr":
        if n.kids and base_var(n.kids[0])[0] in al:
            return "rel"
    elif n.k == "ReturnStmt":
        if n.kids and mentions(n.kids[0], al):
            return "take"
    elif n.k == "BinaryOperator" and n.op == "=":
        if lv(n.c[0]) is None and mentions(n.c[1], al):
            return "take"
        if varid(n.c[0]) is not None and n.c[0].t is not None and n.c[0].t.k == "rec" and mentions(n.c[1], al):
            return "take"
    elif n.k == "LambdaExpr":
        for x in n.walk():
            if x.k == "DeclRefExpr" and x.get("d") in al:
                return "take"
    elif n.k in ("InitListExpr",):
        for x in n.kids:
            if base_var(x)[0] in al:
                return "take"
    elif n.k == "DeclStmt":
        for v in n.d["decls"]:
            i = f.varinit.get(v["id"])
            if i is not None and i.k not in ("LambdaExpr",) and i.t is not None and i.t.k == "rec" and mentions(i, al):
                return "take"
    return None


def mentions(n, al):
    """n is one of the variables, its address, an offset from it or a choice with it - not something read through it"""
    n = n.strip()
    if n.k in ("DeclRefExpr", "MemberExpr"):
        return lv(n) is not None and lv(n) in al
    if n.k == "UnaryOperator" and n.op in ("&", "*", "++", "--"):
        if n.op == "*":
            # dereferencing a pointer-to-pointer still denotes the resource
            return n.c[0].strip().k == "DeclRefExpr" and n.c[0].t is not None and n.t is not None and n.t.k == "ptr" and varid(n.c[0]) in al
        return mentions(n.c[0], al)
    if n.k == "BinaryOperator" and n.op in ("+", "-", ",", "="):
        return mentions(n.c[0], al) or mentions(n.c[1], al)
    if n.k == "ConditionalOperator":
        return mentions(n.c[1], al) or mentions(n.c[2], al)
    if n.k in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
        return any(mentions(x, al) for x in n.kids)
    return False


class Owned:
    """functions that return something the caller has to release"""
    def __init__(self, P):
        self.P = P; self.memo = {}

    def kind(self, call):
        if call.cn in RET:
            return RET[call.cn]
        if call.k == "CXXNewExpr":
            return "object"
        if not call.is_call or call.k not in ("CallExpr",):
            return None
        fs = [f for f in self.P.resolve(call) if f.body is not None and not f.tmpl]
        if len(fs) != 1 or call.get("virt"):
            return None
        return self.fn(fs[0])

    def outs(self, call):
        """argument index -> kind of what the callee allocates and hands out through that argument"""
        fs = [f for f in self.P.resolve(call) if f.body is not None and not f.tmpl]
        if len(fs) != 1 or call.get("virt") or call.cn in OUT:
            return {}
        f = fs[0]
        k = (f.key, f.file, f.l, "out")
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {}
        r = {}
        pp = {p["id"]: i for i, p in enumerate(f.params) if f.ptype(i) is not None and f.ptype(i).k == "ptr" and f.ptype(i).to is not None and f.ptype(i).to.k == "ptr"}
        if not pp:
            return r
        held = {}
        for n in f.walk():
            if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) is not None:
                kd = acq(self, n.c[1])
                if kd:
                    held[varid(n.c[0])] = kd
            elif n.k == "DeclStmt":
                for v in n.d["decls"]:
                    i = f.varinit.get(v["id"])
                    kd = acq(self, i) if i is not None else None
                    if kd:
                        held[v["id"]] = kd
        for n in f.walk():
            if n.k == "BinaryOperator" and n.op == "=":
                l = n.c[0].strip()
                if l.k == "UnaryOperator" and l.op == "*" and varid(l.c[0]) in pp:
                    kd = acq(self, n.c[1]) or held.get(varid(n.c[1]))
                    if kd and kd not in ("object",):
                        r[pp[varid(l.c[0])]] = kd
        self.memo[k] = r
        return r

    def fn(self, f):
        k = (f.key, f.file, f.l)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        if f.ret is None or f.ret.k != "ptr":
            return None
        held = {}
        rets = []
        for n in f.walk():
            if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) is not None:
                kd = acq(self, n.c[1])
                if kd:
                    held[varid(n.c[0])] = kd
            elif n.k == "DeclStmt":
                for v in n.d["decls"]:
                    i = f.varinit.get(v["id"])
                    if i is not None:
                        kd = acq(self, i)
                        if kd:
                            held[v["id"]] = kd
            elif n.k == "ReturnStmt" and n.kids:
                rets.append(n.kids[0])
            elif n.is_call and n.cn in OUT:
                i, kd = OUT[n.cn]
                a = pos(n, i)
                if a is not None:
                    d, amp = base_var(a)
                    if d is not None and not isinstance(d, tuple) and amp and f.vardecls[d][1] is not None:
                        held[d] = kd
        params = {p["id"] for p in f.params}
        r = None
        for x in rets:
            d = varid(x)
            kd = held.get(d) if d is not None and d not in params else acq(self, x)
            if kd:
                r = kd
            elif not is_null(x):
                r = None
                break
        # the value must not also be kept elsewhere
        if r:
            T = TAKES
            for d, kd in held.items():
                if not any(varid(x) == d for x in rets):
                    continue
                al = T.aliases(f, d)
                for n in f.walk():
                    if n.k != "ReturnStmt" and effect(T, n, al, f) == "take":
                        r = None
        self.memo[k] = r
        return r


TAKES = None


def acq(O, n):
    n = n.strip()
    if n.is_call or n.k == "CXXNewExpr":
        return O.kind(n)
    return None


def run_P14(P, rep):
    global TAKES
    T = TAKES = Takes(P)
    O = Owned(P)
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        check_fn(P, rep, f, T, O)
    run_fields(P, rep, T, O)
    run_stale(P, rep, T)
    run_handle(P, rep, T)
    run_conditional(P, rep, T, O)
    rep.need("acquired resource", 40)
    rep.need("owned member of an object", 10)


def sites(f, O):
    """(variable, kind, node) of every acquisition into a local variable"""
    out = []
    local_ = {d for d, (v, n) in f.vardecls.items() if n is not None and not v.get("static")}

    class L:
        def __contains__(self, d):
            if isinstance(d, tuple):
                t = f.vtype(d[0])
                return d[0] in local_ and t is not None and t.k == "rec" and not t.cs.endswith("&") and "std::" not in t.cs
            return d in local_
    local = L()
    for n in f.walk():
        if n.k == "BinaryOperator" and n.op == "=":
            d = lv(n.c[0])
            if d is not None and d in local:
                k = acq(O, n.c[1])
                if k:
                    out.append((d, k, n))
        elif n.k == "DeclStmt":
            for v in n.d["decls"]:
                i = f.varinit.get(v["id"])
                if i is not None and v["id"] in local:
                    k = acq(O, i)
                    if k:
                        out.append((v["id"], k, n))
        elif n.is_call and n.cn in OUT:
            i, k = OUT[n.cn]
            a = pos(n, i)
            if a is not None:
                d, amp = base_var(a)
                if d is not None and d in local:
                    t = f.vtype(d) if not isinstance(d, tuple) else None
                    if not amp and t is not None and t.k == "ptr" and k not in ("element",):
                        continue
                    if not amp and offset_of(f, d):
                        continue          # a place inside another array
                    out.append((d, k, n))
        elif n.k == "CallExpr":
            for i, k in O.outs(n).items():
                a = pos(n, i)
                if a is not None:
                    d, amp = base_var(a)
                    if amp and d is not None and d in local:
                        out.append((d, k, n))
    return out


def offset_of(f, d):
    """every value of the local pointer d is a place inside something else (x + i, &x[i], &x->m)"""
    vs = []
    if f.varinit.get(d) is not None:
        vs.append(f.varinit[d])
    vs += [x.c[1] for x in f.walk() if x.k == "BinaryOperator" and x.op == "=" and varid(x.c[0]) == d]

    def inside(v):
        v = v.strip()
        if v.k == "BinaryOperator" and v.op in ("+", "-"):
            return v.t is not None and v.t.k == "ptr"
        if v.k == "UnaryOperator" and v.op == "&":
            return v.c[0].strip().k in ("ArraySubscriptExpr", "MemberExpr")
        return False
    return bool(vs) and all(inside(v) for v in vs)


def fields_of(f, a):
    """(record, member) of x->m, &x->m or of a local variable that stands for it"""
    fl = field_of(a)
    if fl is not None:
        return {fl}
    d = varid(a)
    if d is None or f.vardecls.get(d, (None, None))[1] is None:
        return set()
    out = set()
    vs = [x.c[1] for x in f.walk() if x.k == "BinaryOperator" and x.op == "=" and varid(x.c[0]) == d]
    if f.varinit.get(d) is not None:
        vs.append(f.varinit[d])
    for v in vs:
        fl = field_of(v)
        if fl is not None:
            out.add(fl)
    return out


def check_fn(P, rep, f, T, O):
    ss = sites(f, O)
    if not ss:
        return
    for d, el in sorted({(d, k == "element") for d, k, n in ss}, key=str):
        mine = [(k, n) for dd, k, n in ss if dd == d and (k == "element") == el]
        acqn = {n.i: k for k, n in mine}
        kind = mine[0][0]
        d0 = d[0] if isinstance(d, tuple) else d
        name = ".".join([f.vardecls[d0][0]["n"]] + list(d[1:] if isinstance(d, tuple) else ()))
        t = f.vtype(d) if d is d0 else None
        if t is not None and t.k == "rec" and not t.cs.startswith(("sc_array", "struct sc_array", "t8_element_array")) and kind not in ("array", "element array", "element"):
            continue          # an owning C++ object
        if t is not None and "std::" in t.cs and kind != "element":
            continue
        if f.vardecls[d0][1].k == "LambdaExpr":
            continue
        al = T.aliases(f, d)
        if d is not d0 and any(x.k == "ReturnStmt" and x.kids and varid(x.kids[0]) == d0 or x.k == "BinaryOperator" and x.op == "=" and varid(x.c[1]) == d0 for x in f.walk()):
            continue          # the record itself is handed on
        # element arrays: the array and its elements are two resources
        rep.ok("acquired resource", "%s %s in %s" % (kind, name, f.n))
        leaks = []
        uaf = []
        declstart = {}

        def step(n, s, d=d, al=al, acqn=acqn, el=el, kind=kind):
            if isinstance(n, tuple):
                # declaration out of a group
                _, v, ini = n
                if v == d:
                    return "held" if acq(O, ini) else ("none" if s != "held" else s)
                return s
            if n.i in acqn:
                if n.is_call and n.cn == "getline":
                    return "held"
                if s == "held" and not (n.k == "BinaryOperator" and realloc_of(n.c[1], al)):
                    if len(al) == 1 and kind_strict(acqn[n.i]):
                        leaks.append(("over", n))
                return "held"
            if s == "held":
                e = effect(T, n, al, f, el, kind)
                if e == "take":
                    return "gone"
                if e == "rel":
                    return "freed" if n.is_call and n.cn in PLAIN_FREE and not addr_of_var(n, d) or n.k == "CXXDeleteExpr" else "gone"
                if n.k == "BinaryOperator" and n.op == "=" and lv(n.c[0]) == d and len(al) == 1:
                    if not mentions_any(n.c[1], d0):
                        leaks.append(("over", n))
                        return "gone"
            elif s == "freed":
                if n.k in ("BinaryOperator",) and n.op == "=" and lv(n.c[0]) == d:
                    return "none"
                if n.k == "DeclStmt" and any(v["id"] == d for v in n.d["decls"]):
                    return "none"
                if len(al) == 1 and uses(n, d, acqn) and not (el and n.is_call and n.cn in ("sc_free", "free")):
                    uaf.append(n)
                    return "gone"
            return s

        def edge(cn, v, s, d=d):
            if s == "held" and lv(cn) == d and not v:
                return "none"
            # a loop that hands the resource on is taken to run at least once
            if s == "held" and not v and cn.i in loopc:
                return "gone"
            return s

        def at_exit(s, trail):
            if s == "held":
                leaks.append(("exit", trail))
        rk = rank_key(f)
        rel = [n for n in f.walk() if n.i in acqn or effect(T, n, al, f, el, kind)]
        gs = guards(rel, rk)
        loopc = set()
        for n in rel:
            if n.i in acqn:
                continue
            if leaves(n):
                continue
            for a in n.ancestors():
                if a.k in ("ForStmt", "WhileStmt", "CXXForRangeStmt") and not any(x.i in acqn for x in a.walk()):
                    c = a.c[1] if a.k == "ForStmt" else a.c[0]
                    if c is not None:
                        loopc.update(x.i for x in c.walk())
        try:
            if not explore(f, "none", step, edge, at_exit, only=lambda k: k in gs, rekey=rk):
                continue
        except TooMany:
            rep.note("%s: too many paths" % f.n)
            continue
        if f.n == "main":
            continue
        for kd, x in leaks[:1]:
            if kd == "exit":
                rep.bad(nkey(rep, "leak:%s:%s" % (f.n, kind)), "%s: the %s in '%s' is not released, returned or stored on the path through lines %s" % (f.n, kind, name, list(x)[-12:]), mine[0][1].where)
            else:
                rep.bad(nkey(rep, "leak:%s:%s" % (f.n, kind)), "%s: '%s' is overwritten in line %d while it still holds a %s" % (f.n, name, x.l, kind), x.where)
        for x in uaf[:1]:
            rep.bad("uaf:%s:%s" % (f.n, name), "%s: '%s' is used in line %d after it was released on some path" % (f.n, name, x.l), x.where)


def nkey(rep, k):
    """the n-th leak of a kind of resource in a function, however the variable is called"""
    i = 1
    while (k if i == 1 else "%s#%d" % (k, i)) in rep._keys:
        i += 1
    return k if i == 1 else "%s#%d" % (k, i)


def rank_key(f):
    """the process that may write a shared array is the one with rank 0 on its node"""
    ranks = set()
    writer = False
    for n in f.walk():
        if n.is_call and n.cn == "MPI_Comm_rank" and len(n.args) > 1:
            d, amp = base_var(n.args[1])
            if amp:
                ranks.add(d)
        elif n.is_call and n.cn == "t8_shmem_array_start_writing":
            writer = True
    if not writer or not ranks:
        return None

    def rk(c):
        n = c[4]
        if n.is_call and n.cn == "t8_shmem_array_start_writing":
            return ("@writer", c[1], frozenset(), frozenset(), n)
        if varid(n) in ranks:
            return ("@writer", not c[1], c[2], c[3], n)
        return c
    return rk


def leaves(n):
    """the statements after n in its block leave the function"""
    x = n
    while x is not None and not (x.parent is not None and x.parent.k == "CompoundStmt"):
        x = x.parent
    if x is None:
        return False
    return any(y.k in ("ReturnStmt", "GotoStmt") for y in x.parent.kids)


def kind_strict(k):
    return True


def addr_of_var(n, d):
    """freed through its address (the callee resets the variable)"""
    if n.cn in ("element_destroy", "t8_element_destroy"):
        return False
    for a in n.args:
        if a is not None:
            v, amp = base_var(a)
            if v == d and amp:
                return True
    return False


def realloc_of(n, al):
    n = n.strip()
    return n.is_call and n.cn in ("sc_realloc", "realloc") and any(a is not None and base_var(a)[0] in al for a in n.args)


def mentions_any(n, d):
    return any(x.k == "DeclRefExpr" and x.get("d") == d for x in n.walk())


def uses(n, d, acqn):
    """n reads through d or hands it on (only the node itself, not its parts)"""
    if n.k in ("ArraySubscriptExpr",) and varid(n.c[0]) == d:
        return True
    if n.k == "UnaryOperator" and n.op == "*" and varid(n.c[0]) == d:
        return True
    if n.k == "MemberExpr" and n.get("arrow") and n.kids and varid(n.kids[0]) == d:
        return True
    if n.is_call and n.i not in acqn:
        return any(a is not None and varid(a) == d for a in n.args)
    if n.k == "CXXDeleteExpr":
        return bool(n.kids) and varid(n.kids[0]) == d
    return False


def rec_of(n):
    t = n.t
    while t is not None and t.k in ("ptr", "ref"):
        t = t.to
    return t.cs.replace("struct ", "").replace("const ", "") if t is not None else None


def field_of(n):
    """(record, member) an expression x->m, &x->m denotes"""
    n = n.strip()
    if n.k == "UnaryOperator" and n.op == "&":
        n = n.c[0].strip()
    if n.k == "MemberExpr":
        b = n.kids[0] if n.kids else None
        return (rec_of(b) if b is not None and b.k != "CXXThisExpr" else n.fn.cls or rec_of(b) if b is not None else n.fn.cls, n.get("n"))
    return None


def owned_fields(P, T, O):
    own = {}
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        ss = None
        for n in f.walk():
            if n.k == "BinaryOperator" and n.op == "=":
                fl = field_of(n.c[0])
                if fl and lv(n.c[0]) is None:
                    k = acq(O, n.c[1])
                    if k:
                        own.setdefault(fl, (k, n.where))
                    else:
                        d = varid(n.c[1])
                        if d is not None:
                            if ss is None:
                                ss = sites(f, O)
                            for dd, kk, nn in ss:
                                if dd == d:
                                    own.setdefault(fl, (kk, n.where))
            elif n.is_call:
                o = {OUT[n.cn][0]: OUT[n.cn][1]} if n.cn in OUT else O.outs(n) if n.k == "CallExpr" else {}
                for i, k in o.items():
                    a = pos(n, i)
                    fl = field_of(a) if a is not None else None
                    if fl and lv(a.strip().c[0] if a.strip().k == "UnaryOperator" else a) is None:
                        own.setdefault(fl, (k, n.where))
    return own


def destroyers(P, T):
    """functions that release an object handed to them, and everything they call"""
    D = set(); st = []
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        if f.n.startswith("~") or re.search("destroy|free|reset|clean|finish|_end$", f.n) or f.params and any(T.param(f, i) == "rel" for i in range(len(f.params)) if f.ptype(i) is not None and f.ptype(i).k == "ptr"):
            st.append(f)
    while st:
        f = st.pop()
        if id(f) in D:
            continue
        D.add(id(f))
        for n in f.walk():
            if n.is_call:
                for g in P.resolve(n):
                    if g.body is not None and not g.tmpl and id(g) not in D:
                        st.append(g)
    return D


def run_fields(P, rep, T, O):
    own = owned_fields(P, T, O)
    D = destroyers(P, T)
    # functions used as destructor callbacks (hash foreach etc.)
    rel = {}
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for n in f.walk():
            if n.is_call:
                for i, a in enumerate(n.args):
                    if a is None:
                        continue
                    for fl in fields_of(f, a) & own.keys():
                        if T.call(n, i) == "rel":
                            rel.setdefault(fl, []).append(f)
                            if base_var(a)[0] is not None:
                                D.add(id(f))          # the record is a local variable of this function
                if n.k == "CXXMemberCallExpr" and n.cn == "unref" and n.c[0] is not None and n.c[0].kids:
                    for fl in fields_of(f, n.c[0].kids[0]) & own.keys():
                        rel.setdefault(fl, []).append(f)
            elif n.k == "CXXDeleteExpr" and n.kids:
                for fl in fields_of(f, n.kids[0]) & own.keys():
                    rel.setdefault(fl, []).append(f)
    for fl, (k, w) in sorted(own.items(), key=str):
        rep.ok("owned member of an object", "%s.%s (%s)" % (fl[0], fl[1], k))
        r = rel.get(fl, [])
        if not r:
            rep.bad("field:%s.%s" % fl, "the %s that '%s' of %s owns (%s) is released nowhere" % (k, fl[1], fl[0], w), w)
        elif not any(id(f) in D for f in r):
            rep.bad("field:%s.%s" % fl, "the %s that '%s' of %s owns (%s) is released only in %s, not when the object is destroyed"
                    % (k, fl[1], fl[0], w, ", ".join(sorted({f.n for f in r}))), w)


def run_stale(P, rep, T):
    """a member whose target was released is set anew, or its object goes as well, before the function ends"""
    from ..flow import reach
    callers = None
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None or f.n.startswith("~"):
            continue
        for n in f.walk():
            a = None
            if n.is_call and n.cn in PLAIN_FREE and n.cn not in ELEMDEL:
                a = pos(n, REL[n.cn])
            elif n.k == "CXXDeleteExpr" and n.kids:
                a = n.kids[0]
            if a is None:
                continue
            s = a.strip()
            if s.k != "MemberExpr" or not s.kids:
                continue
            b = s.kids[0].strip()
            if b.k == "CXXThisExpr":
                root = None
            elif varid(b) is not None and s.get("arrow"):
                root = varid(b)
            else:
                continue
            txt = s.src()
            al = {root} if root is not None else set()
            if root is not None:
                al = T.aliases(f, root)
                i = f.varinit.get(root)
                if i is not None and not isinstance(root, tuple):
                    al |= choice(i)
                for x in f.walk():
                    if x.k == "BinaryOperator" and x.op == "=" and varid(x.c[0]) == root:
                        al |= choice(x.c[1])

            def stop(x):
                if x.k == "BinaryOperator" and x.op == "=" and x.c[0].strip().src() == txt:
                    return True
                if x.is_call and any(y is not None and y.strip().k == "UnaryOperator" and y.strip().op == "&" and y.strip().c[0].strip().src() == txt for y in x.args):
                    return True
                if al and effect(T, x, al, f) == "rel":
                    return True
                # an element of a container: the container goes
                if x.is_call and x.cn in REL and field_of(pos(x, REL[x.cn]) or x) is not None and root is not None and f.vardecls[root][1] is not None:
                    return True
                return False
            if root is not None and any(d in {q["id"] for i, q in enumerate(f.params) if f.ptype(i) is not None and f.ptype(i).cs.replace("const ", "").startswith("void *")} for d in al):
                continue          # a callback over the entries of a container that goes afterwards
            if callers is None:
                callers = {}
                for g in P.all:
                    if not g.tmpl and g.body is not None:
                        for c in g.walk():
                            if c.is_call and c.get("callee"):
                                callers.setdefault(c.cn, set()).add(g)
            cs = callers.get(f.n, set()) - {f}
            if cs and all(any(T.param(g, i) == "rel" for i in range(len(g.params))) or g.n.startswith("~") for g in cs):
                continue          # part of the destruction of the object
            rep.ok("released member", "%s in %s" % (txt, f.n))
            p = reach(f, n, stop)
            if p is not None:
                rep.bad("stale:%s:%s" % (f.n, txt), "%s releases '%s' and can leave it pointing to the released memory (lines %s)" % (f.n, txt, p[-8:]), n.where)


def run_handle(P, rep, T):
    """a function that releases the object behind the handle it is given the address of does not leave the handle pointing there"""
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None or f.internal:
            continue
        for i, q in enumerate(f.params):
            t = f.ptype(i)
            if t is None or t.k not in ("ptr", "ref"):
                continue
            cs = t.cs.replace("const ", "").replace(" const", "").strip()
            if not (re.search(r"\*\s*\*$", cs) or re.search(r"\*\s*&$", cs)) or cs.startswith("void"):
                continue
            isref = cs.endswith("&")

            def target(x):
                x = x.strip()
                if isref:
                    return varid(x) == q["id"]
                return x.k == "UnaryOperator" and x.op == "*" and varid(x.c[0]) == q["id"]
            al = set()
            for x in f.walk():
                if x.k == "BinaryOperator" and x.op == "=" and varid(x.c[0]) is not None and target(x.c[1]):
                    al.add(varid(x.c[0]))
                elif x.k == "DeclStmt":
                    for v in x.d["decls"]:
                        y = f.varinit.get(v["id"])
                        if y is not None and target(y):
                            al.add(v["id"])

            def released(n):
                a = None
                if n.is_call and n.cn in PLAIN_FREE and n.cn not in ELEMDEL:
                    a = pos(n, REL[n.cn])
                elif n.k == "CXXDeleteExpr" and n.kids:
                    a = n.kids[0]
                elif n.is_call and n.get("callee"):
                    gs = P.resolve(n)
                    for j, x in enumerate(n.args):
                        if x is not None and gs and (target(x) or varid(x) in al) and x.t is not None and x.t.k == "ptr":
                            if all(T.param(g, j) == "rel" and g.ptype(j) is not None and g.ptype(j).k == "ptr" for g in gs if j < len(g.params)):
                                return True
                return a is not None and (target(a) or varid(a) in al)
            rel = {n.i for n in f.walk() if released(n)}
            if not rel:
                continue
            rep.ok("object released through the address of its handle", "%s in %s" % (q["n"], f.n))
            bad = []

            def step(n, s):
                if isinstance(n, tuple):
                    return s
                if n.i in rel:
                    return "reset" if s == "reset" else "stale"
                if n.k == "BinaryOperator" and n.op == "=" and target(n.c[0]):
                    return "reset"
                if s == "stale" and n.is_call and n.cn not in PLAIN_FREE and any(x is not None and varid(x) == q["id"] for x in n.args):
                    return "reset"      # handed on to a function that may set it
                return s

            def at_exit(s, trail):
                if s == "stale" and not bad:
                    bad.append(trail)
            try:
                explore(f, "none", step, None, at_exit, limit=20000)
            except TooMany:
                continue
            if bad:
                n = f.nodes[min(rel)]
                rep.bad("handle:%s" % f.n, "%s releases what '%s' refers to and can leave the caller's handle pointing to the released memory (lines %s)" % (f.n, q["n"], list(bad[0])[-8:]), n.where)


def run_conditional(P, rep, T, O):
    """what a member or argument owns is released whatever its size or content: the release hangs on no condition but whether it is there
    and owned"""
    from ..paths import expand
    from ..lib import cval
    own = owned_fields(P, T, O)
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        pid = {q["id"] for i, q in enumerate(f.params) if f.ptype(i) is not None and f.ptype(i).k == "ptr"}
        for n in f.walk():
            a = None
            if n.is_call and n.cn in PLAIN_FREE and n.cn not in ELEMDEL:
                a = pos(n, REL[n.cn])
            elif n.k == "CXXDeleteExpr" and n.kids:
                a = n.kids[0]
            if a is None:
                continue
            fl = fields_of(f, a) & own.keys()
            d = varid(a)
            if not fl and d not in pid:
                continue
            rep.ok("release that depends on ownership only", "%s in %s" % (a.src()[:40], f.n))
            x = n
            for p in n.ancestors():
                if p.k == "IfStmt" and p.kids and p.kids[0] is not x:
                    for y in expand(f, p.kids[0]):
                        why = None
                        if y.k == "BinaryOperator" and y.op in ("==", "!=", "<", ">", "<=", ">="):
                            for u, v, op in ((y.c[0], y.c[1], y.op), (y.c[1], y.c[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(y.op, y.op))):
                                c = cval(v)
                                if c is None or u.t is None or u.t.k != "int" or v.strip().k not in ("IntegerLiteral", "UnaryOperator", "UnaryExprOrTypeTraitExpr"):
                                    continue
                                if (op, c) not in ((">", 0), ("!=", 0), ("==", 0), (">=", 1), ("<", 1), ("<=", 0)) and not same_object_gone(f, u, n):
                                    why = y.src()
                        if d is not None and y.k == "UnaryOperator" and y.op == "*" and varid(y.c[0]) == d:
                            why = y.src()
                        if why:
                            rep.bad("conditional:%s" % f.n, "%s releases '%s' only if %s: otherwise it is leaked" % (f.n, a.src()[:40], p.kids[0].src()[:60]), n.where)
                            break
                x = p


def same_object_gone(f, u, n):
    """the tested expression is a rank, a level or a count of references, not a property of what is released"""
    return any((x.get("n") or "").startswith(("rc", "refcount", "mpirank", "rank")) for x in u.walk()) or any(x.is_call for x in u.walk())
