"""P21: results depend on the arguments only: no hidden mutable state survives a call, and neither clock, random numbers nor environment
influence a result."""
from .purity import eff
from ..effects import restoring, _restoring, LOG
from ..lib import varid

# the two settings a program makes once, and the registry that hands a callback object to the forest it belongs to
SETTINGS = {"t8_package_id": "package registered by the initialisation", "external_log_fcn": "log function chosen by the user",
            "map": "adapt callbacks registered per forest"}
CLOCK = {"MPI_Wtime", "PMPI_Wtime", "time", "clock", "gettimeofday", "clock_gettime", "now", "sc_MPI_Wtime"}
RANDOM = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "srand48", "rand_r", "getpid", "getenv", "secure_getenv", "getrandom", "gethostname", "localtime", "gmtime"}


def profile(n):
    return any(x.k == "MemberExpr" and (x.get("n") in ("profile", "stats") or "runtime" in x.get("n") or "time" in x.get("n").lower()) for x in n.walk())


PROG = None


def run_P21(P, rep):
    global PROG
    PROG = P
    E = eff(P)
    mut = {}
    for g in P.globals_all:
        t = g["_tu"].type(g["t"])
        e = t
        while e is not None and e.k == "arr":
            e = e.to
        if e is not None and not (e.const or t.const or t.s.startswith("const ")):
            mut[g["qn"].split("::")[-1]] = g
            rep.ok("mutable global", g["qn"])
        else:
            rep.ok("constant global")
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        for n in f.walk():
            if n.k == "DeclStmt":
                for v in n.d["decls"]:
                    if v.get("static"):
                        rep.ok("static local", "%s in %s" % (v["n"], f.qn))
            w = n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") or n.k == "UnaryOperator" and n.op in ("++", "--") or n.is_call
            if not w:
                continue
            for (root, path), via in E.node_effects(n):
                if root[0] != "g" or (n.is_call and P.resolve(n)):
                    continue
                nm = root[1]
                if nm in SETTINGS:
                    rep.ok("setting", "%s in %s" % (nm, f.qn))
                    continue
                if nm not in mut:
                    continue
                st = [d for d, v in f.vardecls.items() if v[0].get("static") and v[0]["n"] == nm]
                extra = ""
                if st:
                    x = _restoring(f, st[0])[1]
                    extra = "; the value set at %s is still there on a path out of the function" % x.where if x is not None else ""
                rep.bad("state:%s:%s" % (f.qn, nm), "%s changes %s, which survives the call and can influence later results: %s%s"
                        % (f.qn, nm, n.src()[:70], extra), n.where)
            if n.is_call and n.cn:
                cn = str(n.cn)
                if cn in RANDOM:
                    rep.ok("random or environment", n.where)
                    if "random" not in f.n:
                        rep.bad("random:%s:%s" % (f.qn, cn), "%s uses %s: the result depends on more than the arguments" % (f.qn, cn), n.where)
                elif cn in CLOCK:
                    rep.ok("clock", n.where)
                    clock(f, n, rep, set())
        for d, v in f.vardecls.items():
            if v[0].get("static") and any(x.k == "DeclRefExpr" and x.get("d") == d for x in f.walk()) and restoring(f, d):
                rep.ok("recursion guard restored or static never changed", "%s in %s" % (v[0]["n"], f.qn))
    rep.need("constant global", 20)


def clock(f, n, rep, seen):
    """the time read at n must end in a profile, a log message or a local that does"""
    x = n
    p = n.parent
    while p is not None:
        if p.k in ("BinaryOperator", "CompoundAssignOperator") and p.op in ("=", "+=", "-=") and p.c[1] is x:
            if profile(p.c[0]):
                return
            d = varid(p.c[0])
            if d is None and p.c[0].strip().k == "UnaryOperator" and p.c[0].strip().op == "*":
                return                       # handed to the caller as run time
            if d is not None:
                return var(f, d, rep, seen)
            break
        if p.k == "DeclStmt":
            for v in p.d["decls"]:
                if f.varinit.get(v["id"]) is x:
                    return var(f, v["id"], rep, seen)
            break
        if p.is_call:
            if str(p.cn) in LOG or str(p.cn).endswith(("productionf", "essentialf", "infof", "debugf", "errorf", "logf", "statisticsf")) or any(m.startswith(("SC_LOG", "SC_GEN_LOG")) for m in p.m) or str(p.cn) in ("sc_stats_set1", "sc_stats_accumulate", "srand") and ("stat" in str(p.cn) or "random" in f.n):
                return
            fs = [g for g in PROG.resolve(p) if g.body is not None and not g.tmpl]
            ix = next((i for i, a in enumerate(p.args) if a is x), None)
            if fs and ix is not None and all(ix < len(g.params) for g in fs) and len(seen) < 40:
                for g in fs:
                    var(g, g.params[ix]["id"], rep, seen)      # a part of the work under a name of its own
                return
            break
        if p.k == "ReturnStmt" and f.d.get("internal"):
            cs = [(h, c) for h in PROG.all if h.body is not None for c in h.calls() if any(g is f for g in PROG.resolve(c))]
            if cs and (f.key, "ret") not in seen:
                seen.add((f.key, "ret"))
                for h, c in cs:
                    clock(h, c, rep, seen)
                return
            if cs:
                return
        if p.k in ("IfStmt", "WhileStmt", "ForStmt", "SwitchStmt", "ConditionalOperator", "ReturnStmt"):
            break
        if p.k == "CompoundStmt":
            return
        x, p = p, p.parent
    if "random" in f.n:
        return
    rep.bad("clock:%s" % f.qn, "%s: the time read at line %d influences %s" % (f.qn, n.l, p.src()[:70] if p is not None else "?"), n.where)


def var(f, d, rep, seen):
    if (f.key, d) in seen or "random" in f.n:
        return
    seen.add((f.key, d))
    for n in f.walk():
        if n.k == "DeclRefExpr" and n.get("d") == d:
            p = n.parent
            if p is not None and p.k == "BinaryOperator" and p.op == "=" and p.c[0] is n:
                continue
            if p is not None and p.k == "CompoundAssignOperator" and p.c[0] is n:
                continue
            clock(f, n, rep, seen)
