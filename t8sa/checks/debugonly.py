"""P08: debug and release builds compute the same: code that exists only in debug builds (assertions, debug regions) leaves no trace
that code of the release build reads, and does not divert control flow."""
import re
from .purity import eff
from ..lib import varid, cval, assigned
from ..model import CASTS
from .. import flow

DBGFIELDS = set()
FRESHEL = re.compile(r"^element_(new|init)$")
TABLES = {"element_offsets", "tree_offsets", "global_first_desc"}

ASSERTS = ("T8_ASSERT", "T8_ASSERTF", "SC_ASSERT", "P4EST_ASSERT")
COND = re.compile(r"^\s*(defined\s*\(?\s*)?T8_ENABLE_DEBUG\s*\)?\s*$")


def regions(P):
    """file -> [(first, last, has_else)] of preprocessor regions present only in debug builds"""
    out = {}
    for tu in P.tus:
        for p in tu.pp:
            c = p["cond"]
            if "T8_ENABLE_DEBUG" in c and not c.startswith("!") and p["taken"]:
                out.setdefault(p["f"], {})[(p["a"], p["b"])] = False
    for tu in P.tus:
        for p in tu.pp:
            c = p["cond"]
            if "T8_ENABLE_DEBUG" in c and c.startswith("!") and p["f"] in out:
                for (a, b) in out[p["f"]]:
                    if b == p["a"]:
                        out[p["f"]][(a, b)] = True      # has an #else branch
    return {f: sorted((a, b, e) for (a, b), e in m.items()) for f, m in out.items()}


def classify(P, f, reg):
    """ids of nodes of f that exist only in debug builds -> 'assert' | 'region' | 'region/else'"""
    d = {}
    rs = reg.get(f.file, ())
    rs = [r for r in rs if r[1] >= f.l and r[0] <= f.el]
    for r in rs:
        if r[0] < f.l and r[1] > f.el:
            return None                        # the whole function is debug only
    st = [(n, None) for _, n, _ in f.inits]
    if f.body is not None:
        st.append((f.body, None))
    while st:
        n, k = st.pop()
        if k != "assert":
            k = "assert" if any(m in ASSERTS for m in n.m) else None
        here = k
        for a, b, e in rs:
            if a < n.l < b and n is not f.body:
                here = "region/else" if e else "region"
                break
        if here:
            d[n.i] = here
        for c in n.kids:
            st.append((c, k))
    return d


def by_reference(n):
    """the variable is handed to a function that may set it"""
    p = n.parent
    if p is None or not p.is_call or n.get("dk") != "local" or p.k == "CXXOperatorCallExpr":
        return False
    for g in E_PROG[0].resolve(p) if E_PROG else ():
        for i, a in enumerate(p.args):
            if a is n and i < len(g.params):
                t = g.ptype(i)
                if t is not None and t.k == "ref" and not t.pointee_const:
                    return True
    return False


E_PROG = []


def dirty_reads(f, d, E):
    """local variables whose value, written by debug-only code, reaches a read in release code: (var, write node, read node)"""
    writes = {}
    for n in f.walk():
        if n.i in d and d[n.i] != "region/else":
            for (root, path), via in E.node_effects(n):
                if root[0] == "l":
                    vd = f.vardecls.get(root[1])
                    if vd is None or (vd[1] is not None and vd[1].i in d):
                        continue
                    if path and path[-1] in DBGFIELDS:
                        continue
                    writes.setdefault(n.i, []).append(root[1])
    if not writes:
        return []
    out = []
    vs = {v for l in writes.values() for v in l}

    def reads(n):
        if n.i in d:
            return None
        if n.k == "DeclRefExpr" and n.get("d") in vs and not is_plain_write(n):
            p = n.parent
            if p is not None and p.k == "UnaryOperator" and p.op == "&" or by_reference(n):
                return None
            if any(m in ("SC_CHECK_MPI", "SC_CHECK_ABORT", "SC_CHECK_ABORTF") for m in n.m):
                return None            # only decides whether to abort
            return n.get("d")
        return None

    def tr(n, s):
        # a statement-level element: its subexpressions are elements of their own in clang's CFG
        if n.i in writes:
            for v in writes[n.i]:
                s = s | {(v, n.i)}
            return s
        if n.i in d:
            return s
        v = None
        if n.k == "BinaryOperator" and n.op == "=":
            v = varid(n.c[0])
        elif n.k == "UnaryOperator" and n.op == "&":
            v = varid(n.kids[0])
        elif n.k == "DeclRefExpr" and by_reference(n):
            v = n.get("d")
        elif n.k == "DeclStmt":
            for x in n.d["decls"]:
                s = frozenset(y for y in s if y[0] != x["id"])
        if v is not None:
            s = frozenset(y for y in s if y[0] != v)
        return s
    if f.cfg is None:
        return []
    inn = flow.forward(f, frozenset(), tr, lambda a, b: a | b)
    seen = set()
    for b, s in inn.items():
        for x in f.cfg.b[b].s:
            n = f.nodes.get(x) if x >= 0 else None
            if n is None:
                continue
            for m in [n]:
                v = reads(m)
                if v is not None:
                    for (w, wi) in s:
                        if w == v and (v, wi) not in seen:
                            seen.add((v, wi))
                            out.append((v, f.nodes[wi], m))
            s = tr(n, s)
    return out


def is_plain_write(n):
    """n (DeclRefExpr / MemberExpr) is only written here"""
    p = n.parent
    while p is not None and p.k in ("ParenExpr", "ArraySubscriptExpr", "ImplicitCastExpr") and p.kids and (p.kids[0] is n):
        n, p = p, p.parent
    return p is not None and p.k == "BinaryOperator" and p.op == "=" and p.c[0] is n


def delta(n):
    """by how much this node steps its operand, if by a constant"""
    if n.k == "UnaryOperator" and n.op in ("++", "--"):
        return 1 if n.op == "++" else -1
    if n.k == "CompoundAssignOperator" and n.op in ("+=", "-="):
        c = cval(n.c[1])
        return None if c is None else c if n.op == "+=" else -c
    if n.k == "BinaryOperator" and n.op == "=":
        r = n.c[1].strip()
        while r.k in CASTS and r.kids:
            r = r.kids[-1].strip()
        if r.k == "BinaryOperator" and r.op in ("+", "-") and r.c[0].strip().src() == n.c[0].strip().src():
            c = cval(r.c[1])
            return None if c is None else c if r.op == "+" else -c
    return None


def constant(f, n):
    c = cval(n)
    if c is None and varid(n) is not None and not assigned(f, varid(n)):
        i = f.varinit.get(varid(n))
        c = cval(i) if i is not None else None
    return c


def run_P08(P, rep):
    E_PROG[:] = [P]
    E = eff(P)
    reg = regions(P)
    rep.ok("debug region", n=sum(len(v) for v in reg.values()))
    dbg = {}
    fread = {}          # field / global name -> a read outside debug-only code
    lread = {}          # (fn, var) -> read outside
    fields_dbg = set()
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        d = dbg[id(f)] = classify(P, f, reg)
        if d is None:
            continue
        for n in f.walk():
            if n.i in d:
                continue
            if n.k == "MemberExpr" and not is_plain_write(n):
                fread.setdefault(n.get("n"), n)
            elif n.k == "DeclRefExpr" and not is_plain_write(n):
                if n.get("dk") in ("local", "parm"):
                    lread.setdefault((id(f), n.get("d")), []).append(n)
                fread.setdefault(("g", n.get("n")), n)
    DBGFIELDS.clear()
    for r in P.records.values():
        fl = r["_tu"].files[r["file"]] if "file" in r else None
        for x in r["fields"]:
            for a, b, e in reg.get(fl, ()):
                if a < x.get("l", 0) < b and not e:
                    DBGFIELDS.add(x["n"])
    names = {g["qn"].split("::")[-1] for g in P.globals_all}
    for f in P.all:
        d = dbg.get(id(f))
        if not d or FRESHEL.match(f.n):
            continue
        targets = {}
        for n in f.walk():
            dl = delta(n) if n.i in d else None
            if dl is not None:
                targets.setdefault(n.kids[0].src(), []).append(dl)
        relw = set()
        for n in f.walk():
            if n.i not in d and n.k == "BinaryOperator" and n.op == "=":
                b = n.c[0].strip()
                if b.k == "ArraySubscriptExpr":
                    relw.add(b.c[0].strip().src())
        for v, w, r in dirty_reads(f, d, E):
            nm = f.vardecls[v][0]["n"]
            rep.bad("local:%s:%s" % (f.qn, nm), "%s: debug-only code %s sets %s, which the release build reads at line %d"
                    % (f.qn, w.src()[:70], nm, r.l), w.where)
        for n in f.walk():
            k = d.get(n.i)
            if not k:
                continue
            if n.parent is None or n.parent.i not in d:
                rep.ok(k)
            if k == "region" and n.k in ("ReturnStmt", "GotoStmt", "BreakStmt", "ContinueStmt"):
                # leaves the debug-only code?
                out = n.k in ("ReturnStmt", "GotoStmt")
                if not out:
                    kinds = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") + (("SwitchStmt",) if n.k == "BreakStmt" else ())
                    a = n.within(kinds)
                    out = a is None or a.i not in d
                inl = n.within(("LambdaExpr",))
                if inl is not None and inl.i in d:
                    out = False
                # code of the release build that is skipped
                if out and n.k == "ReturnStmt":
                    out = any(x.l > n.l and x.i not in d and (x.is_call or x.k == "BinaryOperator" and x.op == "=" or x.k == "ReturnStmt" and x.kids) for x in f.walk())
                    if out and re.search(r"(^|_)(is|no)_", f.n) and n.kids and constant(f, n.kids[0]) == 0:
                        out = False            # a validity predicate may be stricter in debug builds
                if out:
                    rep.bad("flow:%s:%s" % (f.qn, n.k), "%s: %s in debug-only code diverts the control flow of the debug build" % (f.qn, n.src()[:60]), n.where)
            if k == "region/else":
                continue
            if delta(n) is not None:
                if sum(targets.get(n.kids[0].src(), [1])) == 0:
                    continue                   # undone again
            if n.k == "BinaryOperator" and n.op == "=" and n.c[1].strip().k in ("GNUNullExpr", "CXXNullPtrLiteralExpr") and n.c[0].strip().k == "ArraySubscriptExpr" \
                    and n.c[0].strip().c[0].strip().src() in relw:
                continue                       # poison before the release code fills the array
            for (root, path), via in E.node_effects(n):
                if root[0] in ("fresh", "l"):
                    continue
                if any(x in ("profile", "rc") or x in TABLES or x in DBGFIELDS or str(x).startswith("active_") and n.is_call for x in path):
                    continue
                why = None
                if root[0] == "g":
                    r = fread.get(("g", root[1]))
                    if r is not None and root[1] in names:
                        why = "%s, read at %s" % (root[1], r.where)
                else:
                    nm = f.params[root[1]]["n"] if root[0] in ("p", "pr") else "this"
                    if path:
                        r = fread.get(path[-1])
                        if r is not None:
                            why = "%s->%s, read at %s" % (nm, "->".join(path), r.where)
                    else:
                        why = "the content of %s" % nm
                if why:
                    rep.bad("effect:%s:%s:%s" % (f.qn, root, "/".join(path)), "%s: debug-only code %s changes %s" % (f.qn, n.src()[:70], why), n.where)
    rep.need("assert", 500)
