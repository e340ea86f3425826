"""P11: wrappers forward to the operation they are named after, with every argument in its place."""
import re
from ..lib import declref, varid, assigned, in_macro
from ..model import CASTS

ASSERTS = ("T8_ASSERT", "SC_ASSERT", "SC_CHECK_ABORT", "SC_CHECK_ABORTF", "SC_ABORT", "SC_ABORTF", "SC_ABORT_NOT_REACHED", "SC_CHECK_MPI")


def origin(n):
    """parameter id an expression is a copy of (through casts and never-reassigned locals), else None"""
    seen = 0
    while n is not None and seen < 20:
        seen += 1
        n = n.strip()
        if n.k in ("CXXConstructExpr", "CXXFunctionalCastExpr", "InitListExpr") and len(n.kids) == 1:
            n = n.kids[0]; continue
        if n.k == "DeclRefExpr":
            if n.get("dk") == "parm":
                return n.get("d")
            d = n.get("d")
            i = n.fn.varinit.get(d)
            if i is None or assigned(n.fn, d, addr=False):
                return None
            n = i; continue
        if n.k == "CXXConstructExpr" or (n.is_call and n.cn in ("move", "forward", "span")):
            a = [x for x in n.args if x is not None]
            if a:
                n = a[0]; continue
        return None
    return None


def pname(fn, d):
    for p in fn.params:
        if p["id"] == d:
            return p["n"]
    return None


def effective_calls(fn):
    for n in fn.walk():
        if n.is_call and not any(m in ASSERTS for m in n.m):
            yield n


SYN = [("nearest_common_ancestor", "nca"), ("reference_coords", "ref_coords"), ("init_linear_id", "set_linear_id"),
       ("set_morton", "set_linear_id"), ("construct_successor", "successor"), ("get_successor", "successor")]


def canon(name):
    n = name
    n = re.sub(r"^t8_", "", n)
    n = re.sub(r"^(d(tri|tet|line|prism|pyramid|quad|hex|vertex)_|p[48]est_quadrant_|p[48]est_)", "", n)
    n = re.sub(r"^elements?_", "", n)
    n = n.replace("eclass_scheme_", "")
    for a, b in SYN:
        n = n.replace(a, b)
    n = re.sub(r"(^|_)(get|compute|is|are|element)_", r"\1", n)
    n = re.sub(r"(^|_)(get|compute|is|are|element)_", r"\1", n)
    n = re.sub(r"pv$", "", n)
    n = re.sub(r"_array$", "", n)
    return n


def recv_call(lam):
    """member calls made on the lambda's own first parameter"""
    if not lam.get("params"):
        return []
    pid = lam.get("params")[0]["id"]
    out = []
    for c in lam.walk():
        if c.is_call and c.c and c.c[0] is not None:
            m = c.c[0].strip()
            if m.k in ("CXXDependentScopeMemberExpr", "MemberExpr", "UnresolvedMemberExpr") and m.kids:
                r = declref(m.kids[0])
                if r is not None and r.get("d") == pid and not any(x in ASSERTS for x in c.m):
                    out.append((c, m.get("n")))
    return out


def check_args(rep, fn, call, expect, what):
    got = [origin(a) if a is not None else None for a in call.args]
    ok = True
    if len(got) < len(expect):
        rep.bad("%s:arity:%s" % (what, fn.qn), "%s passes %d arguments to %s but has %d to forward" % (fn.qn, len(got), call.cn, len(expect)), call.where)
        return
    for i, p in enumerate(expect):
        if got[i] != p["id"]:
            ok = False
            rep.bad("%s:arg:%s:%s" % (what, fn.qn, p["n"]),
                    "%s forwards '%s' where %s expects its parameter '%s'" % (fn.qn, call.args[i].src() if call.args[i] is not None else "?", call.cn, p["n"]), call.where)
    if ok:
        rep.ok(what + " arguments", fn.qn, n=max(1, len(expect)))


def returned(fn, call):
    """is the call's value what the function returns"""
    for a in call.ancestors():
        if a.k == "ReturnStmt":
            return True
        if a.k == "DeclStmt":
            ids = {v["id"] for v in a.d["decls"]}
            for r in fn.walk():
                if r.k == "ReturnStmt" and any(varid(x) in ids for x in r.walk() if x.k == "DeclRefExpr"):
                    return True
        if a.k == "BinaryOperator" and a.op == "=":
            d = varid(a.c[0])
            for r in fn.walk():
                if r.k == "ReturnStmt" and any(x.get("d") == d for x in r.walk() if x.k == "DeclRefExpr"):
                    return True
    return False


def is_void(fn):
    t = fn.ret
    return t is None or t.k == "void" or t.cs == "void"


def eclass_param(fn, i):
    t = fn.ptype(i)
    return t is not None and t.cs.replace("const ", "").replace("enum ", "") == "t8_eclass"


def dispatcher(P, rep):
    for f in P.all:
        if f.cls != "t8_scheme" or f.inst or not f.params or not eclass_param(f, 0) or not f.body:
            continue
        lams = [n for n in f.walk() if n.k == "LambdaExpr"]
        cands = [(l, c, n) for l in lams for c, n in recv_call(l)]
        if not cands:
            continue
        tc = f.params[0]["id"]
        # operations on the scheme of this tree class
        hit = [(l, c, n) for l, c, n in cands if canon(n) == canon(f.n)]
        if not hit:
            rep.bad("dispatch:name:%s" % f.n, "t8_scheme::%s calls %s of the element-class scheme instead of the operation it is named after"
                    % (f.n, ", ".join(n for _, _, n in cands)), cands[0][1].where)
            continue
        rep.ok("dispatched operation", "t8_scheme::%s -> %s" % (f.n, hit[0][2]))
        for l, c, n in hit:
            check_args(rep, f, c, f.params[1:], "dispatch")
            if not is_void(f) and not returned(f, l):
                rep.bad("dispatch:ret:%s" % f.n, "t8_scheme::%s does not return the result of %s" % (f.n, n), c.where)
        for n in f.walk():
            idx = None
            if n.k == "CXXOperatorCallExpr" and n.op == "[]" and n.args and n.args[0].strip().get("n") == "eclass_schemes":
                idx = n.args[1]
            elif n.k == "CXXMemberCallExpr" and n.cn == "at" and n.c[0].strip().kids and n.c[0].strip().kids[0].strip().get("n") == "eclass_schemes":
                idx = n.args[0]
            if idx is not None:
                if origin(idx) != tc:
                    rep.bad("dispatch:index:%s" % f.n, "t8_scheme::%s uses the scheme registered for '%s' instead of the tree class it was given"
                            % (f.n, idx.src()), n.where)
                else:
                    rep.ok("dispatch index", f.n)


def cwrappers(P, rep):
    for f in P.all:
        if f.relfile != "src/t8_schemes/t8_scheme.cxx" or f.cls or len(f.params) < 2 or not eclass_param(f, 1) or not f.body:
            continue
        sp = f.params[0]["id"]
        calls = []
        for c in effective_calls(f):
            if c.k == "CXXMemberCallExpr" and c.c[0].strip().kids and origin(c.c[0].strip().kids[0]) == sp:
                calls.append(c)
        if not calls:
            rep.bad("cwrap:none:%s" % f.n, "%s does not forward to its scheme" % f.n, f.where)
            continue
        hit = [c for c in calls if canon(c.cn) == canon(f.n)]
        if not hit:
            rep.bad("cwrap:name:%s" % f.n, "%s forwards to t8_scheme::%s instead of the operation it is named after" % (f.n, ", ".join(c.cn for c in calls)), calls[0].where)
            continue
        rep.ok("C wrapper", f.n)
        for c in hit:
            exp = f.params[1:]
            # parameters the C++ operation does not take
            if len(exp) > len(c.args):
                exp = exp[:len(c.args)]
            check_args(rep, f, c, exp, "cwrap")
            if not is_void(f) and not returned(f, c):
                rep.bad("cwrap:ret:%s" % f.n, "%s does not return the result of t8_scheme::%s" % (f.n, c.cn), c.where)


BITS = re.compile(r"^(t8_d(tri|tet|line|prism|pyramid|quad|hex|vertex)_|p[48]est_)")


def thin(f):
    """the single effective call of a function that consists of nothing else"""
    st = [s for s in f.body.kids if not any(m in ASSERTS for m in s.m)]
    if not st:
        return None
    for s in st[:-1]:
        if s.k == "DeclStmt" and all(v["id"] in f.varinit and origin(f.varinit[v["id"]]) is not None for v in s.d["decls"]):
            continue
        return None
    s = st[-1]
    e = s.kids[0] if s.k == "ReturnStmt" and s.kids else s
    e = e.strip()
    if e.is_call and e.k == "CallExpr":
        return e
    return None


def vocabulary(P):
    v = set()
    for f in P.all:
        if f.cls and (f.cls.startswith("t8_default_scheme_") or f.cls == "t8_scheme"):
            v.add(canon(f.n))
    return v


def scheme_methods(P, rep):
    voc = vocabulary(P)
    for f in P.all:
        if not f.cls or not f.cls.startswith("t8_default_scheme_") or not f.body or f.tmpl:
            continue
        c = thin(f)
        if c is None or not BITS.match(c.cn or ""):
            continue
        cc, cf = canon(c.cn), canon(f.n)
        pure = all(a is None or origin(a) is not None or a.strip().is_call for a in c.args)
        if cc != cf and cc in voc and pure:
            rep.bad("scheme:name:%s" % f.qn, "%s is implemented by %s, which is a different operation" % (f.qn, c.cn), c.where)
            continue
        rep.ok("scheme operation", "%s -> %s" % (f.qn, c.cn))
        if not is_void(f) and not returned(f, c):
            rep.bad("scheme:ret:%s" % f.qn, "%s does not return the result of %s" % (f.qn, c.cn), c.where)
        el = [p["id"] for p, t in ((p, f.ptype(i)) for i, p in enumerate(f.params)) if t.k == "ptr" and t.to is not None and t.to.cs.replace("const ", "") == "t8_element"]
        order = [origin(a) for a in c.args if origin(a) in el]
        # a missing output element means the operation does nothing
        if len(set(order)) < len([e for e in el if any(x.get("d") == e for x in f.walk() if x.k == "DeclRefExpr" and not in_macro(x, *ASSERTS))]) or len(order) != len(set(order)):
            rep.bad("scheme:elems:%s" % f.qn, "%s does not pass each of its elements to %s exactly once" % (f.qn, c.cn), c.where)
        else:
            rep.ok("scheme operation elements")
        if len(el) == 2 and len(order) == 2 and order != el and f.ptype(0).pointee_const and f.ptype(1).pointee_const:
            rep.bad("scheme:order:%s" % f.qn, "%s passes its two input elements to %s in exchanged order" % (f.qn, c.cn), c.where)


def ext_wrappers(P, rep):
    """f forwards to f_ext (or a same-named C++ overload): parameters of equal name must meet"""
    for f in P.all:
        if f.inst or not f.body:
            continue
        for c in effective_calls(f):
            if c.cn not in (f.n + "_ext", f.n):
                continue
            gs = [g for g in P.resolve(c) if g is not f]
            if not gs:
                continue
            g = gs[0]
            gn = [p["n"] for p in g.params]
            for i, a in enumerate(c.args):
                if a is None or i >= len(gn):
                    continue
                o = origin(a)
                nm = pname(f, o) if o is not None else None
                if nm is None:
                    continue
                if nm != gn[i] and nm in gn:
                    rep.bad("ext:%s:%s" % (f.qn, nm), "%s passes its parameter '%s' as '%s' of %s" % (f.qn, nm, gn[i], g.qn), c.where)
                else:
                    rep.ok("extended form argument", "%s: %s" % (f.n, nm))


def member_wrappers(P, rep):
    """a free function that only calls a method of the object behind its handle"""
    bycls = {}
    for f in P.all:
        if f.cls:
            bycls.setdefault(f.cls, {}).setdefault(f.n, f)
    for f in P.all:
        if f.cls or f.inst or f.tmpl or not f.body or f.relfile.endswith("t8_scheme.cxx"):
            continue
        st = [s for s in f.body.kids if not any(m in ASSERTS for m in s.m)]
        if len(st) != 1:
            continue
        e = st[0].kids[0] if st[0].k == "ReturnStmt" and st[0].kids else st[0]
        e = e.strip()
        if e.k != "CXXMemberCallExpr":
            continue
        g = P.resolve(e)
        if not g or not g[0].cls:
            continue
        # methods of the class whose name the wrapper's name ends with
        fit = sorted((m for m in bycls.get(g[0].cls, {}) if f.n.endswith("_" + m) or f.n == m), key=len)
        if fit and fit[-1] != g[0].n:
            rep.bad("member:%s" % f.n, "%s calls %s::%s although %s::%s is the operation it is named after" % (f.n, g[0].cls, g[0].n, g[0].cls, fit[-1]), e.where)
        elif fit:
            rep.ok("handle wrapper", "%s -> %s::%s" % (f.n, g[0].cls, g[0].n))
            if not is_void(f) and not returned(f, e):
                rep.bad("member:ret:%s" % f.n, "%s does not return the result of %s" % (f.n, g[0].qn), e.where)


def exchanged(P, rep):
    """two arguments that carry the names of each other's parameters"""
    pr = {}
    for p in P.protos:
        pr.setdefault(p["key"], p)
    for f in P.all:
        if f.inst:
            continue
        for c in f.calls():
            k = c.get("callee")
            if not k or any(m in ASSERTS for m in c.m):
                continue
            g = P.resolve(c)
            names = [x["n"] for x in g[0].params] if g else [x.get("n") for x in pr[k].get("params", [])] if k in pr else P.ext.get(k)
            if not names or len(names) < 2:
                continue
            an = []
            for a in c.args:
                s = a.strip() if a is not None else None
                if s is not None and s.k == "UnaryOperator" and s.op in ("&", "*"):
                    s = s.kids[0].strip()
                an.append(s.get("n") if s is not None and s.k == "DeclRefExpr" else None)
            cnt = sum(1 for i, x in enumerate(an) if x and i < len(names) and x in names)
            if cnt >= 2:
                rep.ok("call with named arguments", n=1)
            if (c.cn or "").startswith("operator") or re.search(r"compare|less|equal", c.cn or ""):
                continue
            for i, x in enumerate(an):
                for j in range(i + 1, min(len(an), len(names))):
                    if x and an[j] and x != an[j] and x == names[j] and an[j] == names[i]:
                        rep.bad("swap:%s:%s:%s" % (f.qn, c.cn, x), "%s calls %s with '%s' and '%s' exchanged (parameters are %s)"
                                % (f.qn, c.cn, x, an[j], ", ".join(str(z) for z in names)), c.where)


def callee_names(P, pr, c):
    k = c.get("callee")
    if not k:
        return ()
    g = P.resolve(c)
    return [x["n"] for x in g[0].params] if g else [x.get("n") for x in pr[k].get("params", [])] if k in pr else P.ext.get(k) or ()


def dropped(P, rep):
    """an argument a function is given is used by it, if the function it calls has a parameter of that name"""
    pr = {}
    for p in P.protos:
        pr.setdefault(p["key"], p)
    for f in P.all:
        if f.body is None or f.tmpl or f.inst or not f.params or f.internal:
            continue
        used = {n.get("d") for n in f.walk() if n.k == "DeclRefExpr" and not any(m in ASSERTS for m in n.m)}
        cand = [p for p in f.params if p["n"] and p["id"] not in used and not p.get("unused")]
        if not cand and f.params:
            continue
        names = {}
        for c in f.calls():
            if not any(m in ASSERTS for m in c.m) and not c.get("noret"):
                for i, x in enumerate(callee_names(P, pr, c)):
                    names.setdefault(x, (c, i))
        for p in cand:
            t = next((f.ptype(i) for i, q in enumerate(f.params) if q is p), None)
            if t is not None and "ompi_communicator_t" in t.cs and p["n"] not in names:
                for c in f.calls():
                    if not any(m in ASSERTS for m in c.m) and any(a is not None and a.t is not None and "ompi_communicator_t" in a.t.cs for a in c.args):
                        rep.bad("drop:%s:%s" % (f.qn, p["n"]), "%s does not use the communicator '%s' it is given, but hands another one to %s" % (f.qn, p["n"], c.cn), c.where)
                        break
            if p["n"] in names:
                c, i = names[p["n"]]
                rep.bad("drop:%s:%s" % (f.qn, p["n"]), "%s does not use its argument '%s' and passes '%s' to %s instead" %
                        (f.qn, p["n"], c.args[i].src() if i < len(c.args) and c.args[i] is not None else "?", c.cn), c.where)
    for f in P.all:
        if f.body is None or f.tmpl or f.inst or not f.params or f.internal:
            continue
        # only one call is made: nothing else can use the argument
        c = thin(f)
        if c is None:
            continue
        used = {n.get("d") for n in f.walk() if n.k == "DeclRefExpr" and not any(m in ASSERTS for m in n.m)}
        for p in f.params:
            if p["n"] and not p.get("unused"):
                if p["id"] in used:
                    rep.ok("argument of a forwarding function")
                else:
                    rep.bad("drop:%s:%s" % (f.qn, p["n"]), "%s does not hand its argument '%s' on to %s" % (f.qn, p["n"], c.cn), c.where)


def records(P, rep):
    """arguments that are stored in the members of a record that carry their names are not exchanged"""
    for f in P.all:
        if f.body is None or f.tmpl or f.inst or len(f.params) < 2:
            continue
        pn = {p["id"]: p["n"] for p in f.params}
        st = {}
        for n in f.walk():
            if n.k == "BinaryOperator" and n.op == "=":
                m = n.c[0].strip()
                o = origin(n.c[1])
                if m.k == "MemberExpr" and m.kids and o in pn:
                    st.setdefault(m.kids[0].strip().src(), {}).setdefault(m.get("n"), []).append((pn[o], n))
        for i, (nm, x, _) in enumerate(f.inits):
            o = origin(x) if x is not None else None
            if nm and o in pn:
                st.setdefault("this", {}).setdefault(nm, []).append((pn[o], x))
        for b, ms in st.items():
            for m, l in ms.items():
                for a, n in l:
                    if a == m:
                        rep.ok("argument kept in the member of its name")
                    elif a in ms and m in pn.values() and any(z == m for z, _ in ms[a]):
                        rep.bad("member:%s:%s" % (f.qn, m), "%s stores its argument '%s' in member '%s' and its argument '%s' in member '%s'" % (f.qn, a, m, m, a), n.where)


def run_P11(P, rep):
    dropped(P, rep)
    records(P, rep)
    dispatcher(P, rep)
    cwrappers(P, rep)
    scheme_methods(P, rep)
    ext_wrappers(P, rep)
    member_wrappers(P, rep)
    exchanged(P, rep)
    rep.need("dispatched operation", 30)
    rep.need("C wrapper", 25)
    rep.need("scheme operation", 40)
