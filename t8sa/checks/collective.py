"""P07: every process takes part in every collective operation, in the same order and with the same root.
P22: shared arrays are written between start and end of writing only."""
from ..lib import varid, cval, in_macro
from ..paths import explore, canon, unflag, flags, expand, TooMany

MPI = {"MPI_Bcast": 3, "MPI_Barrier": None, "MPI_Allreduce": None, "MPI_Reduce": 5, "MPI_Allgather": None, "MPI_Allgatherv": None, "MPI_Gather": 6, "MPI_Gatherv": 7,
       "MPI_Scatter": 6, "MPI_Scan": None, "MPI_Exscan": None, "MPI_Alltoall": None, "MPI_Alltoallv": None, "MPI_Comm_dup": None, "MPI_Comm_split": None, "MPI_Comm_free": None,
       "MPI_Comm_create": None, "MPI_Reduce_scatter": None, "MPI_Comm_split_type": None, "MPI_Win_fence": None,
       "sc_shmem_malloc": None, "sc_shmem_free": None, "sc_shmem_write_start": None, "sc_shmem_write_end": None, "sc_shmem_memcpy": None, "sc_shmem_allgather": None,
       "sc_shmem_prefix": None, "sc_stats_compute": None, "sc_stats_compute1": None, "sc_mpi_comm_get_and_attach": None, "sc_mpi_comm_attach_node_comms": None,
       "sc_mpi_comm_detach_node_comms": None, "sc_notify": None, "sc_notify_allgather": None, "sc_notify_ext": None, "MPI_File_open": None, "MPI_File_close": None}
# parts of a mesh that differ from process to process
LOCAL = {"mpirank", "num_local_trees", "num_ghosts", "first_tree", "first_tree_shared", "first_local_tree", "last_local_tree", "local_num_leaf_elements", "local_num_elements", "global_tree_offset",
         "num_local_trees_per_eclass", "elements_offset", "num_ghosts_elements", "num_remote_elements"}


class Coll:
    def __init__(self, P):
        self.P = P; self.memo = {}; self.retm = {}; self.rootp = {}; self.comms = {}

    def name(self, n):
        """what a call takes part in: its name if it is collective, else None"""
        if not n.is_call or n.cn is None:
            return None
        if n.cn in MPI:
            if self.private_comm(n):
                return None
            return n.cn
        if n.cn in ("t8_cmesh_destroy", "t8_cmesh_unref"):
            return None          # collective only for committed partitioned meshes; a mesh that was never committed is destroyed by its process alone
        if n.cn.startswith("vtk") or n.get("callee") is None:
            return None
        if any(self.fn(g) for g in self.P.resolve(n)):
            return n.cn
        return None

    def fn(self, f):
        """does a function take part in a collective operation on some path"""
        k = id(f)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        if f.body is None or f.tmpl:
            return False
        r = False
        for n in f.walk():
            if n.is_call and self.name(n):
                r = True
                break
        self.memo[k] = r
        return r

    def private_comm(self, n):
        """an operation on a communicator that the process obtained for itself or its node"""
        f = n.fn
        own = self.own_comms(f)
        for a in n.args:
            if a is None:
                continue
            s = a.strip()
            if s.k == "UnaryOperator" and s.op == "&":
                s = s.c[0].strip()
            if s.k == "DeclRefExpr" and (varid(s) in own or str(s.get("n")) == "ompi_mpi_comm_self" or self.node_param(f, s)):
                return True
        return False

    def own_comms(self, f):
        s = self.comms.get(id(f))
        if s is None:
            s = self.comms[id(f)] = set()
            for x in f.walk():
                if x.is_call and x.cn in ("sc_mpi_comm_get_node_comms", "MPI_Comm_split"):
                    for a in x.args:
                        if a is not None and a.strip().k == "UnaryOperator" and a.strip().op == "&":
                            s.add(varid(a.strip().c[0]))
        return s

    def node_param(self, f, s):
        """a parameter that is given a node communicator by every caller"""
        if s.get("dk") != "parm":
            return False
        i = next((i for i, p in enumerate(f.params) if p["id"] == s.get("d")), None)
        if i is None:
            return False
        cs = self.callers().get(f.n, ())
        cs = [c for c in cs if f in self.P.resolve(c)]
        if not cs:
            return False
        for c in cs:
            if i >= len(c.args) or c.fn is f:
                return False
            d = varid(c.args[i])
            if d is None or d not in self.own_comms(c.fn):
                return False
        return True

    def callers(self):
        if not hasattr(self, "_cal"):
            self._cal = {}
            for f in self.P.all:
                if f.body is None or f.tmpl:
                    continue
                for n in f.walk():
                    if n.is_call and n.get("callee"):
                        self._cal.setdefault(n.cn, []).append(n)
        return self._cal

    def alts(self, name, depth):
        """sequences of collective operations a function may stand for"""
        k = (name, "alts")
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {(name,)}
        r = {(name,)}
        fs = [f for f in self.P.byname.get(name, []) if not f.tmpl and f.body is not None and self.fn(f)]
        if name not in MPI and len(fs) == 1 and depth < 5 and fs[0].cfg is not None:
            f = fs[0]
            ops = {n.i: c for n in f.walk() for c in [self.name(n)] if c is not None and not in_macro(n, "T8_ASSERT")}
            out = set()

            def step(n, s):
                if not isinstance(n, tuple) and n.i in ops and ops[n.i] not in s:
                    return s + (ops[n.i],)
                return s
            try:
                explore(f, (), step, None, lambda s, t: out.add(s), only=lambda k: False, limit=20000)
                if len(out) <= 8:
                    for t in out:
                        r |= self.expand(t, depth + 1)
            except TooMany:
                pass
        self.memo[k] = r
        return r

    def expand(self, tr, depth=0):
        out = {()}
        for x in tr:
            a = self.alts(x, depth)
            if len(out) * len(a) > 64:
                a = {(x,)}
            out = {o + y for o in out for y in a}
        return out

    # values that differ between processes
    def local_vars(self, f):
        c = getattr(f, "_localv", None)
        if c is not None:
            return c
        f._localv = out = set()
        f._localif = {}
        defs = {}
        for n in f.walk():
            if n.is_call and n.cn == "MPI_Comm_rank" and len(n.args) > 1:
                s = n.args[1].strip()
                if s.k == "UnaryOperator" and s.op == "&" and varid(s.c[0]) is not None:
                    out.add(varid(s.c[0]))
            elif n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) is not None:
                defs.setdefault(varid(n.c[0]), []).append(n.c[1])
            elif n.k == "DeclStmt":
                for v in n.d["decls"]:
                    if v["id"] in f.varinit:
                        defs.setdefault(v["id"], []).append(f.varinit[v["id"]])
        # what is summed up or gathered is the process's own
        for n in f.walk():
            if n.is_call and n.cn in ("MPI_Allreduce", "MPI_Scan", "MPI_Exscan", "MPI_Allgather", "MPI_Gather", "t8_shmem_array_allgather", "t8_shmem_array_prefix"):
                s = n.args[0].strip()
                if s.k == "UnaryOperator" and s.op == "&" and varid(s.c[0]) is not None:
                    out.add(varid(s.c[0]))
        # made equal again by a collective
        same = set()
        for n in f.walk():
            if n.is_call and n.cn in ("MPI_Allreduce", "MPI_Bcast", "MPI_Allgather"):
                a = n.args[0 if n.cn == "MPI_Bcast" else 1 if n.cn == "MPI_Allreduce" else 3]
                s = a.strip()
                if s.k == "UnaryOperator" and s.op == "&":
                    s = s.c[0].strip()
                if varid(s) is not None:
                    same.add(varid(s))
        ch = True
        while ch:
            ch = False
            for d, rs in defs.items():
                if d in out or d in same:
                    continue
                t = f.vtype(d)
                if t is None or t.k not in ("int", "bool", "enum"):
                    continue
                if any(self.is_local(r) for r in rs):
                    out.add(d); ch = True
                    continue
                ifs = {a.i for r in rs for a in [self.under_local(r)] if a is not None}
                if ifs - f._localif.get(d, set()):
                    f._localif.setdefault(d, set()).update(ifs); ch = True
        return out

    def under_local(self, n):
        """assigned only on processes for which a condition holds"""
        for a in n.ancestors():
            c = a.c[2] if a.k == "IfStmt" and len(a.c) > 2 else None
            if c is not None and not in_macro(c, "T8_ASSERT", "SC_CHECK_ABORT", "SC_CHECK_MPI", "SC_ASSERT") and self.is_local(c):
                return a
        return None

    def is_local(self, n):
        """may the value of n differ between processes"""
        lv = self.local_vars(n.fn)
        for x in n.walk():
            if x.k == "DeclRefExpr" and x.get("d") in lv:
                return True
            if x.k == "DeclRefExpr" and x.get("d") in n.fn._localif:
                up = {a.i for a in x.ancestors()}
                if n.fn._localif[x.get("d")] - up:
                    return True          # given its value only on some processes, and asked outside of that branch
            if x.k == "MemberExpr" and x.get("n") in LOCAL and x.t is not None and x.t.k in ("int", "bool"):
                return True
            if x.is_call and x.cn in ("t8_shmem_array_start_writing", "sc_shmem_write_start"):
                return True
            if x.is_call and x.get("callee") and x.t is not None and x.t.k in ("int", "bool"):
                fs = self.P.resolve(x)
                if fs and any(self.ret_local(g) for g in fs):
                    return True
        return False

    def ret_local(self, f):
        k = id(f)
        if k in self.retm:
            return self.retm[k]
        self.retm[k] = False
        if f.body is None or f.tmpl:
            return False
        r = False
        for n in f.walk():
            if n.k == "ReturnStmt" and n.kids and self.is_local(n.kids[0]):
                r = True
        self.retm[k] = r
        return r


def run_P07(P, rep):
    C = Coll(P)
    for f in P.all:
        if f.tmpl or f.body is None or f.cfg is None:
            continue
        ops = {}
        for n in f.walk():
            c = C.name(n)
            if c is not None and not in_macro(n, "T8_ASSERT"):
                ops[n.i] = c
        if not ops:
            continue
        rep.ok("function that takes part in collective operations", f.n)
        traces(C, rep, f, ops)
        roots(C, rep, f)
    for f in P.all:
        if not f.tmpl and f.body is not None:
            world(C, rep, f)
    rep.need("function that takes part in collective operations", 20)


def world(C, rep, f):
    """a function that is given a communicator or a forest communicates over that one"""
    has = None
    for i, p in enumerate(f.params):
        t = f.ptype(i)
        cs = t.cs if t is not None else ""
        if "ompi_communicator_t" in cs or "t8_forest" in cs and t.k == "ptr":
            has = p["n"]
            break
    if has is None:
        return
    for n in f.walk():
        if not n.is_call or n.cn is None or in_macro(n, "T8_ASSERT"):
            continue
        for a in n.args:
            if a is None or a.t is None or "ompi_communicator_t" not in a.t.cs:
                continue
            rep.ok("communicator handed on", None)
            x = unflag(f, a).strip()
            d = varid(x)
            if d is not None and f.varinit.get(d) is not None:
                from ..lib import assigned
                if not assigned(f, d):
                    x = f.varinit[d].strip()
            if x.k == "UnaryOperator" and x.op == "&":
                x = x.c[0].strip()
            if x.k == "DeclRefExpr" and str(x.get("n")) in ("ompi_mpi_comm_world", "ompi_mpi_comm_self"):
                rep.bad("world:%s:%s" % (f.n, n.cn), "%s: %s in line %d goes over %s although the function is given its processes by '%s'" %
                        (f.n, n.cn, n.l, {"ompi_mpi_comm_world": "all processes", "ompi_mpi_comm_self": "this process only"}[x.get("n")], has), n.where)


def atoms(f, C):
    """conditions of f whose outcome may differ between processes: node id of the condition -> key"""
    out = {}
    for b in f.cfg.b.values():
        if b.cond is None or b.cond not in f.nodes or len(b.succ) < 2:
            continue
        raw = f.nodes[b.cond]
        c = canon(raw)
        if c is None:
            continue
        n = c[4]
        if in_macro(raw, "T8_ASSERT", "SC_CHECK_ABORT", "SC_CHECK_MPI", "SC_ASSERT"):
            continue
        if C.is_local(unflag(f, n)) or C.is_local(n):
            out[n.i] = plain(f, n)[0]
    return out


def plain(f, n):
    """(key, whether it has the same truth value) of the condition a tested flag stands for"""
    c = canon(n)
    key, pol, core = c[0], True, c[4]
    for _ in range(4):
        if core.k != "DeclRefExpr" or core.get("d") not in flags(f):
            break
        init = flags(f)[core.get("d")]
        x = init.strip()
        while x.k == "UnaryOperator" and x.op == "!":
            x = x.c[0].strip()
        d = canon(init)
        if d is None or x.k == "BinaryOperator" and x.op in ("&&", "||"):
            break
        key, core = d[0], d[4]
        if not d[1]:
            pol = not pol
    return key, pol, core


def traces(C, rep, f, ops):
    at = atoms(f, C)
    rep.ok("condition that may differ between processes", None, n=len(at))
    if not at:
        return
    res = {}
    # conditions that go the same way on all processes and matter for the operations
    cond = {}
    for b in f.cfg.b.values():
        if b.cond is not None and b.cond in f.nodes and len(b.succ) == 2:
            c = canon(f.nodes[b.cond])
            if c is not None and not in_macro(f.nodes[b.cond], "T8_ASSERT", "SC_CHECK_ABORT", "SC_CHECK_MPI", "SC_ASSERT"):
                cond[c[4].i] = plain(f, c[4])[0]
    keep = relevant(f, ops)
    cond = {i: k for i, k in cond.items() if i in keep}
    at = {i: k for i, k in at.items() if i in keep}
    if not at:
        return
    used = {canon(f.nodes[i])[0] for i in cond} | set(cond.values())
    branch = {canon(f.nodes[b.cond])[4].i for b in f.cfg.b.values() if b.cond in f.nodes and len(b.succ) == 2 and canon(f.nodes[b.cond])}
    bc = {}
    for n in f.walk():
        if n.is_call and n.cn == "MPI_Bcast":
            x = n.args[0].strip()
            if x.k == "UnaryOperator" and x.op == "&" and varid(x.c[0]) is not None:
                bc[n.i] = varid(x.c[0])
    bvars = set(bc.values())
    keyof = {}
    for i, k in cond.items():
        d = varid(plain(f, f.nodes[i])[2])
        if d in bvars:
            keyof[d] = k

    def put(facts, k, v):
        old = dict(facts).get(k)
        if old is None:
            return facts | {(k, (v,))}
        if v in old:
            return facts
        return frozenset(x for x in facts if x[0] != k) | {(k, (False, True))}

    def step(n, s):
        tr, facts, diff, const = s
        if isinstance(n, tuple):
            if n[1] in bvars:
                const = frozenset(x for x in const if x[0] != n[1]) | ({(n[1], cval(n[2]))} if cval(n[2]) is not None else frozenset())
                return (tr, facts, diff, const)
            return s
        if n.k == "DeclStmt":
            for v in n.d["decls"]:
                if v["id"] in bvars and f.varinit.get(v["id"]) is not None:
                    s = step(("decl", v["id"], f.varinit[v["id"]]), s)
            return s
        if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) in bvars:
            d = varid(n.c[0])
            const = frozenset(x for x in const if x[0] != d) | ({(d, cval(n.c[1]))} if cval(n.c[1]) is not None else frozenset())
            return (tr, facts, diff, const)
        if n.i in ops:
            if n.i in bc and ("root" in dict(diff)):
                # what the root broadcasts is what all others go on with
                d = bc[n.i]
                v = dict(const).get(d)
                if v is not None and d in keyof:
                    facts = put(facts, keyof[d], v != 0)
            if n.i in bc:
                const = frozenset(x for x in const if x[0] != bc[n.i])
            e = (ops[n.i], n.i)
            if e not in tr:
                tr = tr + (e,)
            return (tr, facts, diff, const)
        return s

    def edge(cn, v, s):
        tr, facts, diff, const = s
        if not plain(f, cn)[1]:
            v = not v
        if cn.i in at:
            k = at[cn.i]
            if is_root_test(C, f, plain(f, cn)[2]):
                if v:
                    diff = put(diff, "root", True)
            return (tr, facts, put(diff, k, v), const)
        k = cond.get(cn.i)
        if k is None and cn.i not in branch:
            # follows from a flag
            k = plain(f, cn)[0]
            if k in set(at.values()) or C.is_local(cn):
                if is_root_test(C, f, plain(f, cn)[2]) and v:
                    diff = put(diff, "root", True)
                return (tr, facts, put(diff, k, v), const)
            if k not in set(cond.values()):
                k = None
        if k is not None:
            return (tr, put(facts, k, v), diff, const)
        return s

    def at_exit(s, trail):
        res.setdefault((s[0], s[1]), s[2])
    try:
        explore(f, ((), frozenset(), frozenset(), frozenset()), step, edge, at_exit, only=lambda k: k in used, limit=120000)
    except TooMany:
        rep.note("%s: too many paths" % f.n)
        return
    rep.ok("function whose processes may take different paths around collective operations", f.n)

    def names(tr):
        return tuple(x for x, i in tr)
    byt = {}
    for (tr, facts), diff in res.items():
        byt.setdefault(names(tr), []).append((dict(facts), tr, diff))
    ts = sorted(byt)
    for i, a in enumerate(ts):
        for b in ts[i + 1:]:
            if C.expand(a) & C.expand(b):
                continue
            for fa, ta, da in byt[a]:
                for fb, tb, db in byt[b]:
                    if all(fb.get(k, v) == v for k, v in fa.items()):
                        dd = [k for k, v in da if dict(db).get(k, v) != v] or [k for k, v in da ^ db]
                        dd = [k for k in dd if k != "root"]
                        if not dd:
                            continue
                        k = sorted(dd)[0]
                        node = f.nodes[next(x for x, kk in at.items() if kk == k)]
                        rep.bad("diverge:%s" % f.n, "%s: processes that differ in '%s' go through different collective operations: %s and %s" %
                                (f.n, node.src(), show(f, ta), show(f, tb)), node.where)
                        return


def relevant(f, ops):
    """conditions between whose branches and the place where they meet again something collective happens or the function ends"""
    g = f.cfg
    hot = set()
    bv = set()
    for n in f.walk():
        if n.is_call and n.cn == "MPI_Bcast":
            x = n.args[0].strip()
            if x.k == "UnaryOperator" and x.op == "&":
                bv.add(varid(x.c[0]))
    for b in g.b.values():
        for x in b.s:
            n = f.nodes.get(x) if x >= 0 else None
            if n is not None and (n.i in ops or n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) in bv):
                hot.add(b.id)
    # post-dominators
    live = [b for b in g.b if not g.b[b].noret]
    pd = {b: set(g.b) for b in g.b}
    pd[g.exit] = {g.exit}
    ch = True
    order = sorted(g.b)
    while ch:
        ch = False
        for b in order:
            if b == g.exit:
                continue
            ss = [t for t in g.b[b].succ if t is not None and not g.b[t].noret]
            n = set.intersection(*[pd[t] for t in ss]) | {b} if ss else {b} | (set(g.b) if g.b[b].noret else set())
            if n != pd[b]:
                pd[b] = n; ch = True
    out = set()
    for b in g.b.values():
        if b.cond is None or b.cond not in f.nodes or len(b.succ) != 2:
            continue
        c = canon(f.nodes[b.cond])
        if c is None:
            continue
        join = pd[b.id] - {b.id}
        seen = set(); st = [t for t in b.succ if t is not None and not g.b[t].noret]
        hit = False
        while st:
            x = st.pop()
            if x in seen or x in join and x != g.exit:
                continue
            seen.add(x)
            if x in hot:
                hit = True
                break
            st += [t for t in g.b[x].succ if t is not None and not g.b[t].noret]
        if hit:
            out.add(c[4].i)
    return out


def show(f, tr):
    return ", ".join("%s (line %d)" % (x, f.nodes[i].l) for x, i in tr) or "none"


def is_root_test(C, f, n):
    return n.k == "BinaryOperator" and n.op in ("==", "!=") and (is_rank(C, f, n.c[0]) or is_rank(C, f, n.c[1])) or is_rank(C, f, n)


def comm_of(n):
    """text of the communicator a call is given"""
    for a in n.args:
        if a is not None and a.t is not None and "ompi_communicator_t" in a.t.cs:
            return a.strip().src()
    return None


def roots(C, rep, f):
    """one root per exchange (function and communicator), and it is the process that is treated separately"""
    rs = []
    for n in f.walk():
        if n.is_call and n.cn in MPI and MPI[n.cn] is not None:
            a = n.args[MPI[n.cn]]
            rs.append((value(f, a), n, comm_of(n)))
        elif n.is_call and n.get("callee") and C.name(n):
            for g in C.P.resolve(n):
                i = rooted_param(C, g)
                if i is not None and i < len(n.args):
                    rs.append((value(f, n.args[i]), n, comm_of(n)))
    for comm in sorted({c for v, n, c in rs}, key=str):
        root1(C, rep, f, [(v, n) for v, n, c in rs if c == comm], comm)


def root1(C, rep, f, rs, comm):
    rep.ok("rooted collective operation", "%s in %s" % (rs[0][1].cn, f.n), n=len(rs))
    vals = sorted({v for v, n in rs})
    if len(vals) > 1:
        odd = min(vals, key=lambda v: (sum(1 for w, n in rs if w == v), v))
        n = next(n for v, n in rs if v == odd)
        rep.bad("root:%s:%s" % (f.n, n.cn), "%s: %s in line %d has root '%s', other operations of the same exchange have '%s'" % (f.n, n.cn, n.l, odd, [v for v in vals if v != odd][0]), n.where)
        return
    other = {varid(n.args[1].strip().c[0]) for n in f.walk() if n.is_call and n.cn == "MPI_Comm_rank" and n.args[1].strip().k == "UnaryOperator" and comm_of(n) != comm}
    for n in f.walk():
        if n.k == "BinaryOperator" and n.op in ("==", "!=", "<", ">", "<=", ">="):
            for x, y in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                if is_rank(C, f, x) and varid(x) not in other:
                    v = value(f, y)
                    rep.ok("comparison of the process number in an exchange with a root", "%s in %s" % (n.src(), f.n))
                    if v == "0" and any(x.is_call and x.cn == "MPI_Exscan" for x in f.walk()):
                        continue          # an exclusive scan gives process 0 no result
                    if v != vals[0]:
                        rep.bad("root:%s:rank %s" % (f.n, v), "%s: the root of %s is '%s' but process '%s' is treated separately in line %d" % (f.n, rs[0][1].cn, vals[0], v, n.l), n.where)


def is_rank(C, f, x):
    s = x.strip()
    if s.k == "MemberExpr":
        return s.get("n") == "mpirank"
    d = varid(s)
    if d is None:
        return False
    for n in f.walk():
        if n.is_call and n.cn == "MPI_Comm_rank" and len(n.args) > 1:
            y = n.args[1].strip()
            if y.k == "UnaryOperator" and y.op == "&" and varid(y.c[0]) == d:
                return True
    i = f.varinit.get(d)
    return i is not None and is_rank(C, f, i) if i is not None and i.strip().k == "MemberExpr" else False


def value(f, n, depth=0):
    """text of a root with constant variables resolved"""
    c = cval(n)
    if c is not None:
        return str(c)
    s = n.strip()
    d = varid(s)
    if d is not None and depth < 4:
        from ..lib import assigned
        i = f.varinit.get(d)
        if i is not None and not assigned(f, d):
            return value(f, i, depth + 1)
    if s.k == "BinaryOperator":
        return "(%s %s %s)" % (value(f, s.c[0], depth + 1), s.op, value(f, s.c[1], depth + 1))
    return s.src()


def rooted_param(C, g):
    """index of the parameter a function uses as root"""
    k = id(g)
    if k in C.rootp:
        return C.rootp[k]
    C.rootp[k] = None
    if g.body is None or g.tmpl:
        return None
    ids = {p["id"]: i for i, p in enumerate(g.params)}
    r = None
    for n in g.walk():
        a = None
        if n.is_call and n.cn in MPI and MPI[n.cn] is not None:
            a = n.args[MPI[n.cn]]
        elif n.is_call and n.get("callee"):
            for h in C.P.resolve(n):
                j = rooted_param(C, h)
                if j is not None and j < len(n.args):
                    a = n.args[j]
        if a is not None and varid(a) in ids:
            r = ids[varid(a)]
    C.rootp[k] = r
    return r
