"""P13: asking a question does not change the answer: queries and const inputs are not written (interprocedural mod analysis).
P08: assertions and debug-only code have no effect on the program (debug build == release build).
P21: no hidden mutable global state."""
import re
from .. import effects
from ..lib import varid, cval

_E = None


def eff(P):
    global _E
    if _E is None:
        _E = effects.Effects(P)
    return _E


# bookkeeping that is not part of the observable value of an object: the geometry evaluation cache, run time profiles, reference counts
CACHE = {"active_tree", "active_geometry", "active_tree_class", "active_tree_vertices", "profile", "rc", "local_number_of_vertices", "stats", "stats_computed",
         "active_tree_", "scheme_context", "element_pool", "mempool"}
QUERY = re.compile(r"^(?:t8_[a-z0-9]+_|t8_)?(?:.*_)?(get|is|has|num|count)_(?!new)")
HANDLE = ("t8_forest_t", "t8_cmesh_t", "t8_forest_ghost_t", "t8_cmesh_trees_t", "t8_stash_t", "t8_shmem_array_t", "t8_geometry_handler *", "t8_scheme *")
NOTQUERY = re.compile(r"(comm_|compute|create|find_neighbors|for_writing|_set_|commit|get_or_create|set_return)")


def is_query(name):
    if NOTQUERY.search(name):
        return False
    return re.search(r"^(t8_(forest|cmesh|shmem_array|stash|element_array|geom|geometry|offset|cmesh_trees|cmesh_vertex_conn)(_ghost|_tree|_trees|_element|_leaf|_element_array|_pfc_helper)?_)"
                     r"(get|is|has|num|count|first|last|size|equal|compare|no_overlap|treeid_is|tree_is|comm_is|element_is)(_|$)", name) is not None


def cached(path):
    return any(x in CACHE or x.startswith("active_") for x in path)


def restored(f, loc):
    """field written by f itself only to be put back: the last write stores a local that was read from the same field"""
    fld = loc[1][-1] if loc[1] else None
    if fld is None:
        return False
    saved = set()
    for n in f.walk():
        if n.k == "DeclStmt":
            for v in n.d["decls"]:
                i = f.varinit.get(v["id"])
                if i is not None and i.strip().k == "MemberExpr" and i.strip().get("n") == fld:
                    saved.add(v["id"])
        if n.k == "BinaryOperator" and n.op == "=":
            d = varid(n.c[0]); r = n.c[1].strip()
            if d is not None and r.k == "MemberExpr" and r.get("n") == fld:
                saved.add(d)
    for n in f.walk():
        if n.k == "BinaryOperator" and n.op == "=" and n.c[0].strip().k == "MemberExpr" and n.c[0].strip().get("n") == fld and varid(n.c[1]) in saved:
            return True
    return False


def lazy(E, f, loc):
    """the write only fills an unset field: guarded by a test of this field"""
    n, via = E.of(f).eff[loc]
    for _ in range(6):
        for a in n.ancestors():
            if a.k == "IfStmt" and a.kids:
                for x in a.kids[0].walk():
                    if x.k == "MemberExpr" and x.get("n") in loc[1]:
                        c = a.kids[0].strip()
                        return True
        return False
    return False


TABLES = {"element_offsets", "tree_offsets", "global_first_desc"}      # collective tables, computed on demand
DERIVED = {"t8_forest_adapt", "t8_forest_partition", "t8_cmesh_partition", "t8_forest_adapt_coarsen_recursive", "t8_forest_adapt_refine_recursive"}


def source(E, f, i, p, S, rep):
    """the mesh another one is derived from stays as it was"""
    fr = "from" in p["n"] or p["n"] == "source"
    if not fr and f.n not in DERIVED:
        return
    rep.ok("source mesh", "%s(%s)" % (f.qn, p["n"]))
    bad = []
    for l in S.eff:
        if l[0] != ("p", i) or cached(l[1]) or restored(f, l):
            continue
        pa = l[1] if fr else (l[1][1:] if l[1][:1] == ("set_from",) else ())
        if pa and not set(pa) & TABLES:
            bad.append(l)
    for l in bad[:3]:
        rep.bad("source:%s:%s" % (f.qn, p["n"]), "%s derives a mesh from %s, but %s%s is written: %s"
                % (f.qn, p["n"], p["n"], "".join("->" + x for x in l[1]), " <- ".join(E.trace(f, l))), f.where)


def run_P13(P, rep):
    E = eff(P)
    for f in P.all:
        if f.tmpl or f.body is None:
            continue
        S = E.of(f)
        if S is None:
            continue
        for i, p in enumerate(f.params):
            t = f.ptype(i)
            if t is None or t.k not in ("ptr", "ref"):
                continue
            const = t.pointee_const or effects.ptr_const(t)
            s = t.s.replace("const ", "").strip()
            u = t.to
            if u is not None and u.cs.replace("const ", "").strip() == "void" and not (t.pointee_const and re.search(r"(compare|equal|hash|less|cmp)", f.n)):
                continue                       # user data: owner decides
            if u is not None and u.k == "fn":
                continue
            handle = s in HANDLE or (t.k == "ptr" and u is not None and u.k == "rec" and (u.rec or "") in ("t8_forest", "t8_cmesh"))
            q = handle and not const and not f.cls and is_query(f.n)
            if handle and not (const or q):
                source(E, f, i, p, S, rep)
            if not (const or q):
                continue
            cls = "const input" if const else "queried object"
            w = [l for l in S.eff if l[0] == ("p", i) and not cached(l[1])]
            w = [l for l in w if not restored(f, l) and not (q and lazy(E, f, l))]
            rep.ok(cls, "%s(%s)" % (f.qn, p["n"]))
            for l in w[:3]:
                tr = E.trace(f, l)
                rep.bad("param:%s:%s" % (f.qn, p["n"]), "%s only reads '%s' by its interface, but %s%s is written: %s"
                        % (f.qn, p["n"], p["n"], "".join("->" + x for x in l[1]), " <- ".join(tr)), f.where)
        if f.d.get("mconst") and f.cls and f.n not in ("ref", "unref"):
            w = [l for l in S.eff if l[0] == ("this",) and not cached(l[1])]
            rep.ok("const method", f.qn)
            for l in w[:3]:
                rep.bad("this:%s" % f.qn, "const method %s writes its object's %s: %s" % (f.qn, ".".join(l[1]), " <- ".join(E.trace(f, l))), f.where)
        elif f.cls and not f.d.get("static") and re.match(r"^(get|is|has|num|count)_", f.n):
            w = [l for l in S.eff if l[0] == ("this",) and not cached(l[1])]
            w = [l for l in w if not lazy(E, f, l)]
            rep.ok("query method", f.qn)
            for l in w[:3]:
                rep.bad("this:%s" % f.qn, "query method %s writes its object's %s: %s" % (f.qn, ".".join(l[1]), " <- ".join(E.trace(f, l))), f.where)
    rep.need("const input", 100)
    rep.need("source mesh", 10)
