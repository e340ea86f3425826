"""P06: every nonblocking request is completed on every path, and its buffer stays untouched and alive until then."""
from ..lib import varid, castchain, assigned
from ..model import LOOPS
from ..flow import reach, Pos
from ..paths import unflag, explore
from .forward import origin

START = {"MPI_Isend": (0, 6, "w"), "MPI_Issend": (0, 6, "w"), "MPI_Irecv": (0, 6, "r"), "MPI_Ibcast": (0, 5, "r")}
WAITS = {"MPI_Wait": 0, "sc_MPI_Wait": 0, "MPI_Waitall": 1, "sc_MPI_Waitall": 1}
WEAK = {"MPI_Waitsome", "sc_MPI_Waitsome", "MPI_Waitany", "MPI_Test", "MPI_Testall", "MPI_Testany"}
FREES = {"sc_free": 1, "free": 0, "sc_realloc": 1, "realloc": 0}
MEMBER_PASS = ("data", "back", "front", "at", "begin", "get")


def roots(n, fn, depth=0, seen=None):
    """{(kind, id, field)} storage an expression may point into"""
    out = set()
    if n is None or depth > 12:
        return out
    seen = seen or set()
    n = n.strip()
    if n.k == "UnaryOperator" and n.op in ("&", "*"):
        return roots(n.kids[0], fn, depth + 1, seen)
    if n.k == "ArraySubscriptExpr":
        return roots(n.c[0], fn, depth + 1, seen)
    if n.k == "CXXOperatorCallExpr" and n.op in ("[]", "*", "->"):
        return roots(n.args[0], fn, depth + 1, seen)
    if n.k == "BinaryOperator" and n.op in ("+", "-"):
        a = n.c[0]
        if a.t is not None and a.t.k in ("ptr", "arr"):
            return roots(a, fn, depth + 1, seen)
        return roots(n.c[1], fn, depth + 1, seen)
    if n.k == "BinaryOperator" and n.op == "=":
        return roots(n.c[0], fn, depth + 1, seen) | roots(n.c[1], fn, depth + 1, seen)
    if n.k == "ConditionalOperator":
        return roots(n.c[1], fn, depth + 1, seen) | roots(n.c[2], fn, depth + 1, seen)
    if n.k == "MemberExpr":
        b = n.kids[0] if n.kids else None
        if b is None or b.strip().k == "CXXThisExpr":
            return {("this", 0, n.get("n"))}
        r = roots(b, fn, depth + 1, seen)
        return {(k, i, f or n.get("n")) for k, i, f in r}
    if n.k == "CXXMemberCallExpr" and n.cn in MEMBER_PASS and n.c[0].strip().kids:
        return roots(n.c[0].strip().kids[0], fn, depth + 1, seen)
    if n.is_call and n.cn in ("sc_array_index", "sc_array_index_int", "sc_array_index_ssize_t", "t8_sc_array_index_locidx", "move"):
        return roots(n.args[0], fn, depth + 1, seen)
    if n.k == "DeclRefExpr":
        d = n.get("d")
        if n.get("dk") == "parm":
            for i, p in enumerate(fn.params):
                if p["id"] == d:
                    return {("param", i, "")}
            return set()
        if n.get("dk") == "local":
            out.add(("local", d, ""))
            if d in seen:
                return out
            seen.add(d)
            t = fn.vtype(d)
            if t is not None and (t.k in ("ptr", "ref") or t.s.endswith("&")):
                if d in fn.varinit:
                    out |= roots(fn.varinit[d], fn, depth + 1, seen)
                for w in assigned(fn, d, addr=False):
                    if w.k == "BinaryOperator" and w.op == "=":
                        out |= roots(w.c[1], fn, depth + 1, seen)
                    elif w.k == "CompoundAssignOperator":
                        pass
            # stored into a longer-lived slot: p->f = v  /  v = p->f = ...
            for a in slots(fn).get(d, ()):
                out |= roots(a, fn, depth + 1, seen)
            return out
    return out


_slots = {}


def slots(fn):
    """local pointer variable -> places its value is stored in"""
    if id(fn) not in _slots:
        m = {}
        for n in fn.walk():
            if n.k == "BinaryOperator" and n.op == "=":
                d = varid(n.c[1])
                if d is not None and n.c[1].t is not None and n.c[1].t.k == "ptr" and varid(n.c[0]) is None:
                    m.setdefault(d, []).append(n.c[0])
            elif n.k == "CXXMemberCallExpr" and n.cn in ("push_back", "emplace_back", "insert") and n.c[0].strip().kids or \
                    n.is_call and n.get("dep") and n.cn in ("push_back", "emplace_back") and n.c[0] is not None and n.c[0].strip().kids:
                for a in n.args:
                    s = a.strip() if a is not None else None
                    while s is not None and s.is_call and s.args and s.args[0] is not None:
                        s = s.args[0].strip()
                    d = varid(s) if s is not None else None
                    if d is not None:
                        m.setdefault(d, []).append(n.c[0].strip().kids[0])
        _slots[id(fn)] = (fn, m)
    return _slots[id(fn)][1]


def match(a, b):
    for k, i, f in a:
        for k2, i2, f2 in b:
            if k == k2 and i == i2 and (f == f2 or not f or not f2):
                return True
    return False


def is_auto(fn, r):
    """storage of the root is an automatic object (not a pointer)"""
    k, i, f = r
    if k == "local":
        t = fn.vtype(i)
        return t is not None and t.k != "ptr" and not (t.k == "ref" or t.s.endswith("&"))
    if k == "param":
        t = fn.ptype(i)
        return t is not None and t.k != "ptr" and not (t.k == "ref" or t.s.endswith("&"))
    return False


class Analysis:
    def __init__(self, P, rep):
        self.P = P; self.rep = rep
        self.done = set()
        self.callers = {}
        for f in P.all:
            if not f.body:
                continue
            for c in f.calls():
                for g in P.resolve(c):
                    self.callers.setdefault(g.key, []).append((f, c))
                if c.get("callee") is None and c.cn:
                    # dependent call: by name
                    self.callers.setdefault("?" + c.cn, []).append((f, c))
        self._waits = {}

    def waits_param(self, g, i, field, depth=0):
        """does g complete the requests behind its parameter i (field) on every path"""
        k = (g.key, i, field)
        if k in self._waits:
            return self._waits[k]
        self._waits[k] = False
        R = {("param", i, field)}
        r = reach(g, None, lambda n: self.is_wait(g, n, R, depth + 1), edge=self.guard(g, R), from_entry=True) is None if g.cfg else False
        self._waits[k] = r
        return r

    def is_wait(self, fn, n, R, depth=0):
        if not n.is_call:
            return False
        if n.cn in WAITS:
            return match(roots(n.args[WAITS[n.cn]], fn), R)
        if depth < 4:
            for g in self.P.resolve(n):
                if not g.body:
                    continue
                for i, a in enumerate(n.args):
                    if a is None or i >= len(g.params):
                        continue
                    for k, d, f in roots(a, fn):
                        for k2, d2, f2 in R:
                            if k == k2 and d == d2 and (not f or not f2 or f == f2):
                                if self.waits_param(g, i, f2 if not f else "", depth):
                                    return True
        return False

    def guard(self, fn, R):
        """edges that skip a wait because nothing was posted: if (count > 0) Waitall"""
        bad = set()
        for n in fn.walk():
            if n.k == "IfStmt":
                kids = n.kids
                cond, then = unflag(fn, kids[0]), kids[1] if len(kids) > 1 else None
                ws = [w for w in then.walk() if w.is_call and self.is_wait(fn, w, R)] if then is not None else []
                if not ws:
                    continue
                cv = {x.get("d") for x in cond.walk() if x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm")}
                ok = False
                for w in ws:
                    cnt = set()
                    if w.cn not in WAITS:
                        cnt = {x.get("d") for a in w.args if a is not None for x in a.walk() if x.k == "DeclRefExpr"}
                    elif WAITS[w.cn] == 1:
                        cnt = {x.get("d") for x in w.args[0].walk() if x.k == "DeclRefExpr"}
                    if cv and cv <= cnt:
                        ok = True
                    # number of messages the sending function reported
                    for d in cv:
                        src = [fn.varinit.get(d)] + [a.c[1] for a in assigned(fn, d, addr=False) if a.k == "BinaryOperator"]
                        for s in src:
                            if s is not None and s.strip().is_call and any(a is not None and match(roots(a, fn), R) for a in s.strip().args):
                                ok = True
                if ok and compares_zero(cond):
                    bad.add(n.i)

        def edge(B, k):
            return not (B.term in bad and k == 1)
        return edge if bad else None

    def run(self, fn, start, R, B, mode, chain):
        key = (fn.key, start.i, tuple(sorted(map(str, R))), tuple(sorted(map(str, B))))
        if key in self.done or len(chain) > 6:
            return
        self.done.add(key)
        rep = self.rep
        site = chain[0]
        stop = lambda n: n is not start and self.is_wait(fn, n, R)
        ed = self.guard(fn, R)

        # 1. buffer released while pending
        def frees(n):
            if n is start or not n.is_call:
                return False
            if n.cn in FREES and len(n.args) > FREES[n.cn]:
                return match(roots(n.args[FREES[n.cn]], fn), B)
            if n.k == "CXXDeleteExpr" and n.kids:
                return match(roots(n.kids[0], fn), B)
            return False
        hit = []

        def g1(n):
            if frees(n):
                hit.append(n)
                return True
            return False
        p = reach(fn, start, stop, goal=g1, edge=ed)
        if p is not None:
            rep.bad("freed:%s:%s" % (site, fn.n), "the buffer of the nonblocking operation at %s is released in %s (%s) before the request is completed"
                    % (site, fn.n, hit[0].src()[:80]), hit[0].where)
        else:
            rep.ok("buffer alive until completion", "%s in %s" % (site, fn.n))
        # a release hidden in a callee that gets the buffer but runs before the wait
        def g2(n):
            if n is start or not n.is_call:
                return False
            for g in self.P.resolve(n):
                if not g.body or not g.cfg:
                    continue
                GB, GR = set(), set()
                for i, a in enumerate(n.args):
                    if a is None or i >= len(g.params):
                        continue
                    ra = roots(a, fn)
                    for k, d, f in ra:
                        for k2, d2, f2 in B:
                            if (k, d) == (k2, d2) and (not f or not f2 or f == f2):
                                GB.add(("param", i, f2 if not f else ""))
                        for k2, d2, f2 in R:
                            if (k, d) == (k2, d2) and (not f or not f2 or f == f2):
                                GR.add(("param", i, f2 if not f else ""))
                if GB:
                    q = reach(g, None, lambda x: bool(GR) and self.is_wait(g, x, GR), edge=self.guard(g, GR) if GR else None, from_entry=True,
                              goal=lambda x: x.is_call and x.cn in FREES and len(x.args) > FREES[x.cn] and match(roots(x.args[FREES[x.cn]], g), GB))
                    if q is not None:
                        hit.append((n, g))
                        return True
            return False
        del hit[:]
        p = reach(fn, start, lambda n: n is not start and n.is_call and n.cn in WAITS and stop(n), goal=g2, edge=ed)
        if p is not None:
            rep.bad("freed2:%s:%s" % (site, hit[0][1].n), "the buffer of the nonblocking operation at %s is released by %s before the request is completed"
                    % (site, hit[0][1].n), hit[0][0].where)

        # 2. automatic storage must not go out of scope
        out_path = reach(fn, start, stop, edge=ed)
        for r in B:
            if is_auto(fn, r):
                if r[0] == "local":
                    vd = fn.vardecls.get(r[1])
                    C = vd[1].parent if vd and vd[1] is not None else None
                    # scope of the buffer variable
                    while C is not None and C.k != "CompoundStmt":
                        C = C.parent
                    if C is not None and C is not fn.body:
                        inside = {x.i for x in C.walk()}
                        q = reach(fn, start, stop, goal=lambda n: n.i not in inside, edge=ed)
                        if q is not None:
                            rep.bad("scope:%s:%s" % (site, fn.n), "the buffer of the nonblocking operation at %s is a variable that goes out of scope before the request is completed" % site, start.where)
                    if out_path is not None:
                        rep.bad("scope:%s:%s" % (site, fn.n), "%s returns while the request of %s still uses its local buffer" % (fn.n, site), start.where)
                elif out_path is not None:
                    rep.bad("scope:%s:%s" % (site, fn.n), "%s returns while the request of %s still uses a by-value parameter" % (fn.n, site), start.where)
        # 3. contents
        self.touch(fn, start, B, mode, stop, ed, site)
        # 4. completion
        if out_path is None:
            rep.ok("request completed on every path", "%s in %s" % (site, fn.n))
            return
        up = self.escalate(fn, R, B)
        if up is None:
            rep.bad("pending:%s:%s" % (site, fn.n), "the request started at %s is not completed when %s returns (path over lines %s)" % (site, fn.n, out_path), start.where)
            return
        for h, c, R2, B2 in up:
            self.run(h, c, R2, B2, mode, chain + [c.where])

    def escalate(self, fn, R, B):
        """roots of the same objects in the callers; None if the request cannot be reached from outside"""
        def outward(X):
            o = set()
            for k, i, f in X:
                if k == "param" and not is_auto(fn, (k, i, f)):
                    o.add((k, i, f))
                elif k == "this":
                    o.add((k, i, f))
                elif k == "local" and returned_var(fn, i):
                    o.add(("ret", 0, f))
            return o
        R1, B1 = outward(R), outward(B)
        if not R1:
            return None
        res = []
        cs = self.callers.get(fn.key, []) + (self.callers.get("?" + fn.n, []) if fn.cls else [])
        seen = set()
        for h, c in cs:
            if id(c) in seen or h is fn or h.tmpl and any(h2.l == h.l and h2.file == h.file and h2.inst for h2, _ in cs):
                continue
            seen.add(id(c))

            def inward(X):
                o = set()
                for k, i, f in X:
                    if k == "param" and i < len(c.args) and c.args[i] is not None:
                        o |= {(k2, d2, f2 or f) for k2, d2, f2 in roots(c.args[i], h)}
                    elif k == "ret":
                        a = c.parent
                        while a is not None and a.k in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
                            a = a.parent
                        if a is not None and a.k == "DeclStmt":
                            for v in a.d["decls"]:
                                if h.varinit.get(v["id"]) is not None and any(x is c for x in h.varinit[v["id"]].walk()):
                                    o.add(("local", v["id"], f))
                        elif a is not None and a.k == "BinaryOperator" and a.op == "=":
                            o |= {(k2, d2, f2 or f) for k2, d2, f2 in roots(a.c[0], h)}
                        elif a is not None and a.k == "ReturnStmt":
                            o.add(("retcall", c.i, f))
                    elif k == "this":
                        m = c.c[0].strip() if c.k == "CXXMemberCallExpr" else None
                        if m is not None and m.kids:
                            o |= {(k2, d2, f2 or f) for k2, d2, f2 in roots(m.kids[0], h)}
                return o
            R2, B2 = inward(R1), inward(B1)
            if any(k == "retcall" for k, _, _ in R2):
                self.rep.note("request of %s handed to the caller of %s" % (fn.n, h.n))
                continue
            if R2:
                res.append((h, c, R2, B2))
            else:
                self.rep.note("request of %s: argument of %s not traced in %s" % (fn.n, c.cn, h.n))
        return res

    def touch(self, fn, start, B, mode, stop, ed, site):
        loops = [a for a in start.ancestors() if a.k in LOOPS]
        heads = set()
        for l in loops:
            body = l.kids[-1] if l.k != "DoStmt" else l.kids[0]
            inb = {x.i for x in body.walk()}
            for x in l.walk():
                if x.i not in inb:
                    heads.add(x.i)
        own = {x.i for x in start.walk()}
        Bl = {(k, i, f) for k, i, f in B if k == "local"}
        stop2 = lambda n: stop(n) or n.i in heads

        def writes(n):
            if n.i in own:
                return False
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "<=", ">=", "!="):
                l = n.c[0].strip()
                if l.k == "DeclRefExpr":
                    return ("local", l.get("d"), "") in Bl and is_auto(fn, ("local", l.get("d"), ""))
                if l.t is not None and l.t.k == "ptr":
                    return False
                if l.k in ("ArraySubscriptExpr", "UnaryOperator") or (l.k == "CXXOperatorCallExpr" and l.op == "[]"):
                    return match({r for r in roots(l, fn)} & B, B) if B else False
            if n.is_call and n.cn in ("memcpy", "memset", "memmove"):
                return bool(roots(n.args[0], fn) & B)
            return False

        def reads(n):
            return n.k == "DeclRefExpr" and n.i not in own and ("local", n.get("d"), "") in Bl and is_auto(fn, ("local", n.get("d"), ""))
        hit = []

        def goal(n):
            if writes(n) or (mode == "r" and reads(n)):
                hit.append(n)
                return True
            return False
        if not any(x.is_call and x.cn in START for x in [start]):
            return
        p = reach(fn, start, stop2, goal=goal, edge=ed)
        if p is not None:
            rep = self.rep
            rep.bad("touch:%s" % site, "the buffer of the nonblocking operation at %s is %s before the request is completed: %s"
                    % (site, "used" if mode == "r" else "modified", hit[0].src()[:60]), hit[0].where)
        else:
            self.rep.ok("buffer untouched until completion", site)


def compares_zero(cond):
    c = cond.strip()
    if c.k == "BinaryOperator" and c.op in (">", "!=", "<", ">="):
        vals = [x.v for x in (c.c[0], c.c[1])]
        return (c.op in (">", "!=") and (vals[1] == 0)) or (c.op in ("<", "!=") and vals[0] == 0) or (c.op == ">=" and vals[1] == 1)
    return c.k in ("DeclRefExpr", "MemberExpr")


def returned_var(fn, d):
    return any(n.k == "ReturnStmt" and n.kids and varid(n.kids[0]) == d for n in fn.walk())


def counts(P, rep):
    """a Waitall must cover the whole request array"""
    for f in P.all:
        if not f.body:
            continue
        for c in f.calls():
            if c.cn in WAITS and WAITS[c.cn] == 1:
                e = c.args[0].strip()
                k = 0
                while e.k == "DeclRefExpr" and e.get("d") in f.varinit and not assigned(f, e.get("d")) and k < 5:
                    e = f.varinit[e.get("d")].strip(); k += 1
                bad = None
                if e.v is not None and c.args[0].v is not None:
                    t = c.args[1].strip()
                    if not (t.t is not None and t.t.k == "arr" and t.t.n == e.v):
                        bad = "the constant %d" % e.v
                if e.k == "BinaryOperator" and e.op in ("-", "/", "%", ">>"):
                    bad = e.src()
                if bad:
                    rep.bad("count:%s" % f.qn, "%s completes %s requests only, not the whole request array" % (f.qn, bad), c.where)
                else:
                    rep.ok("completion covers the array", "%s: %s" % (f.qn, e.src()[:60]))


def starts(P):
    """[(function, call, request argument)] of nonblocking operations, also through functions that start one on a request they are given"""
    out = []
    memo = {}
    for f in P.all:
        if not f.body or not f.cfg:
            continue
        if f.tmpl and any(g.inst for g in P.byname.get(f.n, []) if g.l == f.l and g.file == f.file):
            continue
        for c in f.calls():
            k = (c.cn or "").replace("sc_", "")
            if k in START and len(c.args) > START[k][1]:
                out.append((f, c, c.args[START[k][1]]))
    work = list(out)
    callers = {}
    for f in P.all:
        if f.body:
            for c in f.calls():
                for g in P.resolve(c):
                    callers.setdefault(g.key, []).append((f, c))
    seen = set()
    while work:
        f, c, a = work.pop()
        if a.strip().k not in ("DeclRefExpr", "UnaryOperator") or a.strip().k == "UnaryOperator" and varid(a.strip().c[0]) is None:
            continue                   # the function selects the request itself
        for k, i, fld in roots(a, f):
            if k == "param" and not fld and (f.key, i) not in seen and "vector" not in f.ptype(i).s:
                seen.add((f.key, i))
                for h, d in callers.get(f.key, ()):
                    if h is not f and h.cfg and i < len(d.args) and d.args[i] is not None:
                        out.append((h, d, d.args[i])); work.append((h, d, d.args[i]))
    return out


def stepof(n):
    """variable a node advances"""
    if n.k == "UnaryOperator" and n.op in ("++", "--"):
        return varid(n.c[0])
    if n.k == "CompoundAssignOperator" and n.op in ("+=", "-="):
        return varid(n.c[0])
    if n.k == "BinaryOperator" and n.op == "=":
        d = varid(n.c[0])
        r = n.c[1].strip()
        if d is not None and r.k == "BinaryOperator" and r.op in ("+", "-") and any(varid(x) == d for x in r.c):
            return d
    return None


def slotvars(fn, a, loop):
    """variables the place of a request depends on (through locals that are set once or within the loop)"""
    out = set()
    st = [a]; seen = set()
    while st:
        for x in st.pop().walk():
            if x.k == "DeclRefExpr" and x.get("dk") in ("local", "parm"):
                d = x.get("d")
                if d in seen:
                    continue
                seen.add(d); out.add(d)
                if d in fn.varinit and fn.varinit[d] is not None:
                    st.append(fn.varinit[d])
                for w in assigned(fn, d, addr=False):
                    if w.k == "BinaryOperator" and w.op == "=" and stepof(w) is None:
                        st.append(w.c[1])
    return out


def is_own_test(n, v):
    """a comparison of v with the own rank"""
    return n.k == "BinaryOperator" and n.op in ("==", "!=") and any(
        varid(x) == v and "rank" in (y.strip().get("n") or "") for x, y in ((n.c[0], n.c[1]), (n.c[1], n.c[0])))


def slot_states(P, rep):
    """each request of an array is started or set to the null request before the loop goes on to the next one, and no two operations that
    are started in a loop share a request"""
    touched = {}
    A = Analysis(P, rep)
    for f, c, a in starts(P):
        loops = [l for l in c.ancestors() if l.k in LOOPS]
        if not loops:
            continue
        L = loops[0]
        vs = slotvars(f, a, L)
        inL = {x.i for x in L.walk()}
        R = roots(a, f)
        if not R:
            continue
        # 1. an own request per operation
        changing = False
        for d in vs:
            dd = f.vardecls.get(d)
            if dd and dd[1] is not None and dd[1].i in inL:
                changing = True
            if any(w.i in inL for w in assigned(f, d, addr=False)):
                changing = True
        if any(x.is_call and x.cn in ("emplace_back", "push_back", "back") for x in L.walk()):
            changing = True
        if L.k == "CXXForRangeStmt":
            changing = changing or bool(vs & {v["id"] for x in L.walk() if x.k == "DeclStmt" for v in x.d["decls"]})
        if not changing:
            # completed within the iteration
            body = L.kids[-1] if L.k != "DoStmt" else L.kids[0]
            pos = Pos.of(f)
            again = reach(f, c, lambda n: n is not c and A.is_wait(f, n, R), goal=lambda n: n is c)
            if again is not None:
                rep.bad("shared:%s:%s" % (f.n, c.cn), "the nonblocking operations that the loop of %s starts with %s all use the same request, so only the last one is completed"
                        % (f.qn, c.cn), c.where)
                continue
        rep.ok("own request of each operation", "%s: %s" % (f.qn, a.src()[:60]))
        # 2. every slot set before the index moves on
        t = a.strip().t
        for d in sorted(vs):
            Ls = [l for l in loops if any(stepof(x) == d for x in l.walk())]
            if not Ls:
                continue
            Ld = Ls[0]
            steps = [x for x in Ld.walk() if stepof(x) == d]
            own = {x.i for x in c.walk()}
            if any(x.i in own for x in steps):
                continue                       # slot = counter++
            # a counter of started operations moves on behind the start only
            if slot_of_counter(f, d, c, steps, Ld):
                continue
            if any(l is not Ld and l.i in {y.i for y in Ld.walk()} and l not in loops and
                   any(w.k == "BinaryOperator" and w.op == "=" and stepof(w) is None and varid(w.c[0]) == d for w in l.walk()) for l in Ld.walk() if l.k in LOOPS):
                continue
            sid = {x.i for x in steps}
            outer = {x.i for x in Ld.walk()}

            def sets(n):
                if n is c:
                    return True
                if n.k == "BinaryOperator" and n.op == "=" and n.c[0].strip().k != "DeclRefExpr" and n.c[0].t is not None \
                        and "equest" in n.c[0].t.s and match(roots(n.c[0], f), R):
                    return True
                if n.k == "CXXOperatorCallExpr" and n.op == "=" and match(roots(n.args[0], f), R):
                    return True
                if n.is_call and (n.cn or "").replace("sc_", "") in START:
                    return match(roots(n.args[START[n.cn.replace("sc_", "")][1]], f), R)
                if n.is_call and any(x is not None and x.t is not None and "equest" in x.t.s and match(roots(x, f), R) for x in n.args):
                    return any(g.body for g in P.resolve(n))
                return False
            hit = []

            def step(n, s):
                if isinstance(n, tuple):
                    return "open" if n[1] == d else s
                if n.i in sid:
                    if s == "open":
                        hit.append(n)
                        return None
                    return "open"
                if n.k == "BinaryOperator" and n.op == "=" and varid(n.c[0]) == d:
                    return "open" if entering(n) else "done"
                if sets(n):
                    return "done"
                return s

            def entering(n):
                return n.i in outer or Ld.k == "ForStmt" or n.l <= Ld.l

            def edge(n, truth, s):
                if s == "open" and truth and is_own_test(n, d):
                    return "done"
                return s
            explore(f, "done", step, edge)
            if hit:
                rep.bad("unset:%s:%s" % (f.n, c.cn), "%s goes on to the next request (%s) on a path that neither started an operation on the current one nor set it to the null request"
                        % (f.qn, hit[0].src()[:40]), hit[0].where)
            else:
                rep.ok("request set before the next one", "%s: %s" % (f.qn, a.src()[:60]))


def slot_of_counter(f, d, c, steps, L):
    """the index counts the operations: it is advanced on the paths behind the start only"""
    for s in steps:
        q = reach(f, None, lambda n: n is c, goal=lambda n: n is s, from_entry=True)
        if q is not None:
            return False
    # and never without one in between
    for s in steps:
        q = reach(f, s, lambda n: n is c, goal=lambda n: n in steps)
        if q is not None:
            return False
    return L.k != "ForStmt"


def alloc_counts(P, rep):
    """the number of completed requests is the number that was allocated"""
    ALL = ("sc_malloc", "sc_calloc")
    for f in P.all:
        if not f.body:
            continue
        for c in f.calls():
            if not (c.cn in WAITS and WAITS[c.cn] == 1):
                continue
            R = roots(c.args[1], f)
            cnt = c.args[0].strip()
            k = 0
            while cnt.k == "DeclRefExpr" and cnt.get("d") in f.varinit and f.varinit[cnt.get("d")] is not None and not assigned(f, cnt.get("d")) and k < 4:
                cnt = f.varinit[cnt.get("d")].strip(); k += 1
            cv = varid(cnt)
            if cv is None:
                continue
            for d in f.calls():
                for g in P.resolve(d):
                    if not g.body:
                        continue
                    for i, x in enumerate(d.args):
                        if x is None or i >= len(g.params) or not match(roots(x, f), R):
                            continue
                        for b in g.walk():
                            if b.k == "BinaryOperator" and b.op == "=" and ("param", i, "") in roots(b.c[0], g) and b.c[0].strip().k == "UnaryOperator" \
                                    and b.c[0].t is not None and b.c[0].t.k == "ptr":
                                r = b.c[1].strip()
                                while not r.is_call and r.kids and r.k in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr", "CXXStaticCastExpr"):
                                    r = r.kids[-1].strip()
                                if not (r.is_call and r.cn in ALL):
                                    continue
                                N = r.args[-1] if r.cn == "sc_malloc" else r.args[-2]
                                js = [j for j, p in enumerate(g.params) for y in N.walk() if y.k == "UnaryOperator" and y.op == "*" and varid(y.c[0]) == p["id"]]
                                if len(js) != 1 or js[0] >= len(d.args) or d.args[js[0]] is None:
                                    continue
                                o = d.args[js[0]].strip()
                                ov = varid(o.c[0]) if o.k == "UnaryOperator" and o.op == "&" else None
                                if ov is None:
                                    continue
                                if ov != cv:
                                    rep.bad("allocated:%s" % f.qn, "%s completes %s requests, but %s of them were allocated and may be in use" % (f.qn, c.args[0].src(), o.src()), c.where)
                                else:
                                    rep.ok("completion covers the allocated requests", f.qn)


def run_P06(P, rep):
    A = Analysis(P, rep)
    n = 0
    for f in P.all:
        if not f.body or not f.cfg:
            continue
        if f.tmpl and any(g.inst for g in P.byname.get(f.n, []) if g.l == f.l and g.file == f.file):
            continue
        for c in f.calls():
            if c.cn not in START and c.cn is not None and c.cn.replace("sc_", "") not in START:
                continue
            if c.cn is None:
                continue
            s = START[c.cn if c.cn in START else c.cn.replace("sc_", "")]
            if len(c.args) <= s[1]:
                continue
            n += 1
            R, B = roots(c.args[s[1]], f), roots(c.args[s[0]], f)
            if not R:
                rep.bad("request:%s" % f.qn, "the request of this nonblocking operation cannot be traced", c.where)
                continue
            rep.ok("nonblocking operation", "%s in %s" % (c.where, f.qn))
            A.run(f, c, R, B, s[2], [f.n + ":" + c.cn])
    counts(P, rep)
    slot_states(P, rep)
    alloc_counts(P, rep)
    rep.need("nonblocking operation", 4)
