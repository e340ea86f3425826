"""P28: no pointer to a finished call's local storage survives; temporarily replaced state is put back on every path."""
from ..lib import varid, castchain, assigned, cval
from ..flow import reach
from .forward import origin


def local_root(n, fn):
    """DeclRefExpr of the local object (not behind a pointer) an lvalue lives in, else None"""
    n = n.strip()
    while True:
        if n.k == "MemberExpr" and n.kids and not n.get("arrow"):
            n = n.kids[0].strip(); continue
        if n.k == "ArraySubscriptExpr":
            b = n.c[0]
            if any(x.t is not None and x.t.k == "arr" for x in castchain(b)):
                n = b.strip(); continue
            return None
        break
    if n.k == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
        v = fn.vardecls.get(n.get("d"))
        t = n.t
        if v and not v[0].get("static") and not (t is not None and (t.k == "ref" or t.s.endswith("&"))):
            vt = fn.tu.type(v[0]["t"])
            if vt is not None and (vt.k == "ref" or vt.s.rstrip().endswith("&")):
                return None
            if n.get("dk") == "parm" and vt is not None and vt.k == "ptr" and t is not None and t.k == "arr":
                return None
            return n
    return None


def stack_addr(a, fn, depth=0):
    """local whose address the expression yields"""
    s = a.strip()
    if s.k == "UnaryOperator" and s.op == "&":
        return local_root(s.kids[0], fn)
    if s.k == "DeclRefExpr":
        vd = fn.vardecls.get(s.get("d"))
        vt = fn.tu.type(vd[0]["t"]) if vd else None
        if vt is not None and vt.k == "arr" and s.get("dk") == "local":
            return local_root(s, fn)
        if s.get("dk") == "local" and depth < 4 and vt is not None and vt.k == "ptr":
            i = fn.varinit.get(s.get("d"))
            if i is not None and not assigned(fn, s.get("d"), addr=False):
                return stack_addr(i, fn, depth + 1)
    if s.k == "ConditionalOperator" and depth < 6:
        return stack_addr(s.c[1], fn, depth + 1) or stack_addr(s.c[2], fn, depth + 1)
    if s.k == "ArraySubscriptExpr" or s.k == "MemberExpr":
        if s.t is not None and s.t.k == "arr":
            return local_root(s, fn)
    if s.k == "CXXMemberCallExpr" and s.cn in ("data", "c_str") and s.c[0].strip().kids:
        r = local_root(s.c[0].strip().kids[0], fn)
        if r is not None and r.t is not None and not any(w in r.t.cs for w in ("span<", "string_view", "iterator")):
            return r
    return None


def base_var(l):
    """root variable of a pointer access path"""
    n = l.strip()
    while n.k in ("MemberExpr", "ArraySubscriptExpr", "UnaryOperator") and n.kids:
        n = n.kids[0].strip()
    return n


def lasting(l, fn):
    """does an assignment to l outlive the function: behind a pointer, or a global / member"""
    l = l.strip()
    if l.k in ("MemberExpr", "ArraySubscriptExpr") or (l.k == "UnaryOperator" and l.op == "*"):
        return local_root(l, fn) is None
    return l.k == "DeclRefExpr" and l.get("dk") not in ("local", "parm", "fn")


def created_here(fn, r):
    """the object behind pointer variable r was created in this function"""
    if r.k != "DeclRefExpr" or r.get("dk") != "local":
        return False
    d = r.get("d")
    for c in fn.calls():
        for a in c.args:
            if a is not None:
                s = a.strip()
                if s.k == "UnaryOperator" and s.op == "&" and varid(s.kids[0]) == d and (c.cn or "").endswith("init"):
                    return True
    i = fn.varinit.get(d)
    vals = [i] if i is not None else []
    vals += [w.c[1] for w in assigned(fn, d) if w.k == "BinaryOperator" and w.op == "="]
    for v in vals:
        s = v.strip()
        if s.k == "CXXNewExpr" or (s.is_call and s.cn in ("sc_malloc", "sc_calloc", "malloc", "calloc", "sc_mempool_alloc")):
            return True
        # pointer into a local object: t = &local, or an element of a local array
        if stack_addr(v, fn) is not None:
            return True
    return False


# library calls that keep a pointer they are given: argument index
EXT = {"sc_hash_insert_unique": 1, "sc_list_append": 1, "sc_list_prepend": 1, "sc_list_insert": 2, "sc_keyvalue_set_pointer": 2, "sc_hash_array_insert_unique": None}


def flag(n, pid_all):
    """(parameter index, truth) if the condition is a parameter or its negation"""
    x = n.strip(); t = True
    while True:
        if x.k == "ParenExpr":
            x = x.kids[0].strip()
        elif x.k == "UnaryOperator" and x.op == "!":
            t = not t; x = x.kids[0].strip()
        elif x.k == "BinaryOperator" and x.op in ("==", "!=") and cval(x.c[1]) == 0:
            t = (not t) if x.op == "==" else t
            x = x.c[0].strip()
        else:
            break
    return (pid_all[x.get("d")], t) if x.k == "DeclRefExpr" and x.get("d") in pid_all else None


def conditional(P, cand):
    """(function, parameter) -> (flag parameter, truth): kept only when the flag says so"""
    out = {}
    for f, pid in cand:
        allp = {p["id"]: i for i, p in enumerate(f.params)}
        for n in f.walk():
            if not (n.k == "BinaryOperator" and n.op == "=" and n.c[1].t is not None and n.c[1].t.k == "ptr" and lasting(n.c[0], f)):
                continue
            x = n.c[1].strip()
            while x.k == "ParenExpr":
                x = x.kids[0].strip()
            if x.k == "ConditionalOperator":
                for br, truth in ((1, True), (2, False)):
                    o = origin(x.c[br])
                    if o in pid:
                        fl = flag(x.c[0], allp)
                        if fl is not None:
                            out[(f.key, pid[o])] = (fl[0], fl[1] == truth)
            elif origin(x) in pid:
                prev = n
                for a in n.ancestors():
                    if a.k == "IfStmt":
                        fl = flag(a.c[2], allp)
                        if fl is not None:
                            out[(f.key, pid[origin(x)])] = (fl[0], fl[1] == (prev is a.c[3]))
                            break
                    prev = a
    ch = True
    while ch:
        ch = False
        for f, pid in cand:
            allp = {p["id"]: i for i, p in enumerate(f.params)}
            for n in f.calls():
                for g in P.resolve(n):
                    for i, a in enumerate(n.args):
                        if a is None or (g.key, i) not in out or origin(a) not in pid:
                            continue
                        j, t = out[(g.key, i)]
                        if j >= len(n.args) or n.args[j] is None:
                            continue
                        fl = flag(n.args[j], allp)
                        k = (f.key, pid[origin(a)])
                        if fl is not None and k not in out:
                            out[k] = (fl[0], fl[1] == t); ch = True
    return out


def summaries(P):
    stored = {}
    cand = []
    for f in P.all:
        if not f.body:
            continue
        pid = {p["id"]: i for i, p in enumerate(f.params) if f.ptype(i) is not None and f.ptype(i).k == "ptr"}
        if pid:
            cand.append((f, pid))
    calls = {}
    for f, pid in cand:
        lst = calls[id(f)] = []
        for n in f.walk():
            if n.k == "BinaryOperator" and n.op == "=" and n.c[1].t is not None and n.c[1].t.k == "ptr":
                o = origin(n.c[1])
                if o in pid and lasting(n.c[0], f):
                    r = base_var(n.c[0])
                    if not created_here(f, r):
                        stored.setdefault((f.key, pid[o]), n.where)
            elif n.is_call:
                oo = [(i, pid[origin(a)]) for i, a in enumerate(n.args) if a is not None and origin(a) in pid]
                k = EXT.get(n.cn)
                for i, j in oo:
                    if i == k:
                        stored.setdefault((f.key, j), n.where)
                if oo:
                    lst.append((n, oo))
        for fld, n, w in f.inits:
            o = origin(n)
            if o in pid and n.t is not None and n.t.k == "ptr":
                stored.setdefault((f.key, pid[o]), n.where)
    cond = conditional(P, cand)
    for k in cond:
        stored.pop(k, None)
    ch = True
    while ch:
        ch = False
        for f, pid in cand:
            for n, oo in calls[id(f)]:
                for g in P.resolve(n):
                    for i, j in oo:
                        if (g.key, i) in cond and (f.key, j) not in stored and (f.key, j) not in cond:
                            q, t = cond[(g.key, i)]
                            c = cval(n.args[q]) if q < len(n.args) and n.args[q] is not None else None
                            if c is not None and bool(c) == t:
                                stored[(f.key, j)] = n.where; ch = True
                        if (g.key, i) in stored and (f.key, j) not in stored:
                            # constructor results that stay local are handled at the call
                            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.within(("CXXNewExpr",)) is None:
                                continue
                            stored[(f.key, j)] = n.where; ch = True
    return stored, cond


def resets(P, x, field):
    """a call that assigns a field of this name (a helper that puts the value back)"""
    if not x.is_call:
        return False
    for g in P.resolve(x):
        if g.body and any(y.k == "BinaryOperator" and y.op == "=" and y.c[0].strip().k == "MemberExpr" and y.c[0].strip().get("n") == field for y in g.walk()):
            return True
    return False


def run_P28(P, rep):
    stored, cond = summaries(P)
    rep.ok("parameter kept beyond the call", n=len(stored))
    for f in P.all:
        if not f.body or f.inst and f.tmpl:
            continue
        for n in f.walk():
            if n.is_call:
                if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.within(("CXXNewExpr",)) is None:
                    continue
                gs = [(g.key, stored) for g in P.resolve(n)]
                if n.cn in EXT and not gs:
                    gs = [(n.cn, {(n.cn, EXT[n.cn]): "the library"})]
                for key, kept in gs:
                    for i, a in enumerate(n.args):
                        if a is not None and (key, i) in cond and (key, i) not in kept:
                            q, t = cond[(key, i)]
                            c = cval(n.args[q]) if q < len(n.args) and n.args[q] is not None else None
                            rep.ok("pointer argument kept on request", "%s: %s" % (n.where, n.cn))
                            # needed until the mesh is committed
                            if c is not None and bool(c) == t and reach(f, n, lambda x: x.is_call and x.cn == "t8_cmesh_commit") is not None:
                                kept = dict(kept)
                                kept[(key, i)] = "with this flag"
                        if a is None or (key, i) not in kept:
                            continue
                        r = stack_addr(a, f)
                        if r is None:
                            rep.ok("pointer argument that is kept", "%s: %s" % (n.where, n.cn))
                            continue
                        # object the pointer is kept in: receiver or another argument created here is fine
                        recv = None
                        if n.k == "CXXMemberCallExpr" and n.c[0].strip().kids:
                            recv = n.c[0].strip().kids[0]
                        elif n.args and i > 0:
                            recv = n.args[0]
                        if recv is not None:
                            if stack_addr(recv, f) is not None or local_root(recv, f) is not None and recv.strip().t.k != "ptr" or created_here(f, base_var(recv)):
                                rep.ok("address of a local kept in a local object")
                                continue
                        rep.bad("stackkeep:%s:%s:%s" % (f.qn, n.cn, r.get("n")), "%s passes the address of its local '%s' to %s, which keeps it beyond the call (stored at %s)"
                                % (f.qn, r.get("n"), n.cn, kept[(key, i)]), n.where)
            elif n.k == "ReturnStmt" and n.kids and f.ret is not None and f.ret.k == "ptr" and n.within(("LambdaExpr",)) is None:
                r = stack_addr(n.kids[0], f)
                if r is not None:
                    rep.bad("stackret:%s:%s" % (f.qn, r.get("n")), "%s returns the address of its local '%s'" % (f.qn, r.get("n")), n.where)
                else:
                    rep.ok("returned pointer")
            elif n.k == "ReturnStmt" and n.kids and f.ret is not None and (f.ret.k == "ref" or f.ret.s.endswith("&")) and n.within(("LambdaExpr",)) is None:
                r = local_root(n.kids[0], f)
                if r is not None:
                    rep.bad("stackret:%s:%s" % (f.qn, r.get("n")), "%s returns a reference to its local '%s'" % (f.qn, r.get("n")), n.where)
                else:
                    rep.ok("returned reference")
            elif n.k == "BinaryOperator" and n.op == "=" and n.c[1].t is not None and n.c[1].t.k == "ptr" and lasting(n.c[0], f):
                r = stack_addr(n.c[1], f)
                if r is None:
                    continue
                b = base_var(n.c[0])
                if created_here(f, b):
                    rep.ok("address of a local kept in a local object")
                    continue
                key = n.c[0].strip().src()
                p = reach(f, n, lambda x: x is not n and (x.k == "BinaryOperator" and x.op == "=" and x.c[0].strip().src() == key
                                                                  or resets(P, x, n.c[0].strip().get("n"))))
                if p is not None:
                    rep.bad("stackstore:%s:%s" % (f.qn, key), "%s leaves the address of its local '%s' in %s when it returns (path over lines %s)"
                            % (f.qn, r.get("n"), key, p), n.where)
                else:
                    rep.ok("temporary address removed on every path", "%s: %s" % (f.qn, key))
    save_restore(P, rep)
    rep.need("pointer argument that is kept", 20)


def save_restore(P, rep):
    for f in P.all:
        if f.inst or not f.body or not f.cfg:
            continue
        saves = []
        asg = {}
        for n in f.walk():
            if n.k == "DeclStmt":
                for v in n.d["decls"]:
                    i = f.varinit.get(v["id"])
                    if i is not None and i.strip().k == "MemberExpr":
                        saves.append((v["id"], v["n"], i.strip(), n))
            elif n.k == "BinaryOperator" and n.op == "=":
                if varid(n.c[0]) is not None and n.c[1].strip().k == "MemberExpr":
                    saves.append((varid(n.c[0]), n.c[0].strip().get("n"), n.c[1].strip(), n))
                if n.c[0].strip().k == "MemberExpr":
                    asg.setdefault(n.c[0].strip().src(), []).append(n)
        for d, nm, src, sn in saves:
            pth = src.src()
            if pth not in asg or not lasting(src, f) or created_here(f, base_var(src)):
                continue
            res = [n for n in asg[pth] if varid(n.c[1]) == d]
            oth = [n for n in asg[pth] if varid(n.c[1]) != d]
            if not oth:
                continue
            uses = [n for n in f.walk() if n.k == "DeclRefExpr" and n.get("d") == d and not any(n in list(r.c[1].walk()) for r in res)
                    and not (sn.k == "BinaryOperator" and n in list(sn.c[0].walk()))]
            if uses:
                continue            # the saved value has another purpose: not a save/restore pair
            if not res:
                # value is saved and never used
                rep.bad("norestore:%s:%s" % (f.qn, pth), "%s saves %s in '%s', replaces it and never puts it back" % (f.qn, pth, nm), sn.where)
                continue
            for o in oth:
                p = reach(f, o, lambda x: any(x is r for r in res))
                if p is not None:
                    rep.bad("norestore:%s:%s" % (f.qn, pth), "%s replaces %s (saved in '%s') but returns without putting it back on the path over lines %s"
                            % (f.qn, pth, nm, p), o.where)
                else:
                    rep.ok("temporarily replaced state restored", "%s: %s" % (f.qn, pth))
