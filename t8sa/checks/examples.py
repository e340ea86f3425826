"""P03: the built-in example meshes are valid: classes, vertices and face connections given as constants in the source agree with each other."""
from itertools import combinations
from ..consteval import walks, TOP, Ptr
from .tables import FACES, C, DIM, NAMES, sub, cross, dot

NV = [len(C[e]) for e in range(8)]
ORDER = {3: 0, 2: 1, 5: 0, 4: 1, 6: 2, 7: 3, 1: 0, 0: 0}
EPS = 1e-9


class Mesh:
    def __init__(self):
        self.cls = {}; self.vert = {}; self.join = []; self.byv = []; self.committed = 0; self.stash = False
        self.other = []
        self.unknown_class = False


def near(a, b, eps=EPS):
    return all(abs(x - y) <= eps for x, y in zip(a, b))


def sinks():
    m = Mesh()

    def tree_class(e, a, n):
        if a[1] is TOP or a[2] is TOP:
            m.unknown_class = True
        else:
            m.cls.setdefault(a[1], []).append((a[2], n))
        return TOP

    def verts(e, a, n):
        t, p, k = a[1], a[2], a[3]
        if t is TOP or k is TOP:
            m.other.append(n)
            return TOP
        if isinstance(p, Ptr) and p.off is not TOP:
            vs = [tuple(p.o.get(p.off + 3 * i + j) for j in range(3)) for i in range(k)]
            if p.o.n is not None and p.off + 3 * k > p.o.n:
                e.oob.append((n, p.o.name, p.off + 3 * k - 1, p.o.n))
        else:
            vs = [(TOP,) * 3] * k
        m.vert.setdefault(t, []).append((vs, k, n))
        return TOP

    def join(e, a, n):
        m.join.append((a[1:6], n))
        return TOP

    def byv(e, a, n):
        nt, ec, vp = a[1], a[2], a[3]
        if isinstance(nt, int) and isinstance(ec, Ptr) and isinstance(vp, Ptr) and ec.off is not TOP and vp.off is not TOP:
            d = {}
            for t in range(nt):
                c = ec.o.get(ec.off + t)
                if c is TOP:
                    continue
                d[t] = (c, [tuple(vp.o.get(vp.off + (t * 8 + i) * 3 + j) for j in range(3)) for i in range(NV[c])])
            m.byv.append((nt, d, n))
        else:
            m.stash = True
        return TOP

    def stash(e, a, n):
        m.stash = True
        return TOP

    def commit(e, a, n):
        m.committed += 1
        return TOP

    def nop(e, a, n):
        return TOP
    return {"t8_cmesh_set_tree_class": tree_class, "t8_cmesh_set_tree_vertices": verts, "t8_cmesh_set_join": join,
            "t8_cmesh_set_join_by_vertices": byv, "t8_cmesh_set_join_by_stash": stash, "t8_cmesh_commit": commit,
            "t8_cmesh_set_attribute": nop, "t8_cmesh_register_geometry": nop, "t8_cmesh_set_partition_range": nop,
            "t8_cmesh_examples_compute_and_set_partition_range": nop, "t8_debugf": nop, "t8_cmesh_init": nop,
            "t8_cmesh_set_tree_geometry": nop, "t8_cmesh_bcast": nop, "t8_cmesh_destroy": nop}, m


def known(vs):
    return all(isinstance(x, (int, float)) for v in vs for x in v)


def corner_map(fa, fb):
    """index in fb of every point of fa, allowing a common translation; (map, translated)"""
    if len(fa) != len(fb):
        return None, False
    def m(shift):
        out = []
        for p in fa:
            q = tuple(x + s for x, s in zip(p, shift))
            h = [i for i, r in enumerate(fb) if near(q, r)]
            if len(h) != 1:
                return None
            out.append(h[0])
        return out if len(set(out)) == len(out) else None
    r = m((0, 0, 0))
    if r is not None:
        return r, False
    ca = tuple(sum(p[i] for p in fa) / len(fa) for i in range(3))
    cb = tuple(sum(p[i] for p in fb) / len(fb) for i in range(3))
    r = m(sub(cb, ca))
    return r, True


def flags(f):
    """int parameters used as truth values"""
    out = set()
    ids = {p["id"]: i for i, p in enumerate(f.params)}
    for n in f.walk():
        if n.k == "ImplicitCastExpr" and n.get("ck") == "IntegralToBoolean":
            s = n.strip()
            if s.k == "DeclRefExpr" and s.get("d") in ids:
                out.add(ids[s.get("d")])
    # a flag handed on to another function of the same kind
    return out


def contexts(f, P, depth=0):
    from itertools import product
    fl = flags(f)
    dom = []
    for i, p in enumerate(f.params):
        t = f.ptype(i)
        if t.k == "enum" or "t8_eclass" in t.cs and t.k != "ptr":
            dom.append(list(range(8)))
        elif t.cs.replace("const ", "") == "double":
            dom.append([1.0])
        elif i in fl and t.k == "int":
            dom.append([0, 1])
        else:
            dom.append([TOP])
    return list(product(*dom))


def describe(f, ctx):
    out = []
    for p, v in zip(f.params, ctx):
        if v is not TOP and not isinstance(v, float):
            out.append("%s=%s" % (p["n"], NAMES[v] if len(range(8)) == 8 and "eclass" in p["n"] else v))
    return f.n + ("(" + ", ".join(out) + ")" if out else "")


def e_open(m):
    """the whole mesh is known"""
    return not (m.unknown_class or m.other or m.peeled)


def check_mesh(rep, f, ctx, m, bad):
    d = describe(f, ctx)
    N = len(m.cls)
    for t, l in m.cls.items():
        rep.ok("tree class set once", d)
        if len({c for c, _ in l}) > 1 or len(l) > 1:
            bad("class:%s:%s" % (f.n, t), "%s sets the class of tree %s %d times" % (d, t, len(l)), l[-1][1])
    if e_open(m) and N:
        if sorted(m.cls) != list(range(N)):
            bad("ids:" + f.n, "%s: the trees with a class are %s, not 0..%d" % (d, sorted(m.cls)[:12], N - 1), None)
        else:
            rep.ok("tree ids contiguous", d)
    pts = {}
    for t, l in m.vert.items():
        vs, k, n = l[-1]
        if len(l) > 1:
            bad("vset:%s:%s" % (f.n, t), "%s sets the vertices of tree %s %d times" % (d, t, len(l)), n)
        if t not in m.cls:
            if e_open(m):
                bad("noclass:%s:%s" % (f.n, t), "%s sets vertices of tree %s, which has no class" % (d, t), n)
            continue
        c = m.cls[t][0][0]
        rep.ok("vertex count of a tree", d)
        if k != NV[c] and not (k == 2 and c in (2, 4)):
            bad("nv:%s:%s" % (f.n, t), "%s gives %d vertices to tree %s of class %s (needs %d)" % (d, k, t, NAMES[c], NV[c]), n)
            continue
        if k != NV[c] or not known(vs):
            continue
        pts[t] = (c, vs)
        for i, j in combinations(range(k), 2):
            if near(vs[i], vs[j]):
                bad("dup:%s:%s" % (f.n, t), "%s: vertices %d and %d of tree %s coincide" % (d, i, j, t), n)
        if DIM[c] == 3:
            rep.ok("positive volume", d)
            # the sign convention of the reference element itself
            a, b, h = {4: (1, 2, 4), 5: (1, 2, 3), 6: (1, 2, 3), 7: (1, 2, 4)}[c]
            ref = C[c]
            s0 = dot(cross(sub(ref[a], ref[0]), sub(ref[b], ref[0])), sub(ref[h], ref[0]))
            s = dot(cross(sub(vs[a], vs[0]), sub(vs[b], vs[0])), sub(vs[h], vs[0]))
            if s * s0 <= EPS and f.n not in NEGATIVE:
                bad("vol:%s:%s" % (f.n, t), "%s: tree %s (%s) has no positive volume" % (d, t, NAMES[c]), n)
    if m.committed and e_open(m) and f.n not in NOVERT:
        for t in m.cls:
            if t not in m.vert and m.vert:
                bad("nov:%s:%s" % (f.n, t), "%s gives tree %s no vertices" % (d, t), m.cls[t][0][1])
    used = {}
    joined = set()
    for (a, n) in m.join:
        t1, t2, f1, f2, o = a
        if TOP in (f1, f2) or t1 is TOP or t2 is TOP:
            rep.note("%s: a join with run-time operands is not judged" % d)
            continue
        ok = True
        for t, fc in ((t1, f1), (t2, f2)):
            if t not in m.cls:
                if e_open(m):
                    bad("jclass:%s:%s" % (f.n, t), "%s joins tree %s, which has no class" % (d, t), n)
                ok = False
                continue
            c = m.cls[t][0][0]
            if not 0 <= fc < len(FACES[c]):
                bad("jface:%s:%s:%s" % (f.n, t, fc), "%s joins face %s of tree %s, but a %s has %d faces" % (d, fc, t, NAMES[c], len(FACES[c])), n)
                ok = False
                continue
            u = used.get((t, fc))
            if u is not None:
                bad("jtwice:%s:%s:%s" % (f.n, t, fc), "%s joins face %s of tree %s twice" % (d, fc, t), n)
            used[(t, fc)] = n
        if not ok:
            continue
        c1, c2 = m.cls[t1][0][0], m.cls[t2][0][0]
        rep.ok("join: faces exist, are free and of equal shape", d)
        if DIM[c1] != DIM[c2] or len(FACES[c1][f1]) != len(FACES[c2][f2]):
            bad("jshape:%s:%s:%s" % (f.n, t1, t2), "%s joins face %d of tree %s (%s) with face %d of tree %s (%s): different shapes" % (d, f1, t1, NAMES[c1], f2, t2, NAMES[c2]), n)
            continue
        if o is TOP or not 0 <= o < len(FACES[c1][f1]):
            if o is not TOP:
                bad("jori:%s:%s:%s:%s" % (f.n, t1, f1, o), "%s: orientation %s of the join of trees %s and %s does not exist on this face" % (d, o, t1, t2), n)
            continue
        joined.add(frozenset([(t1, f1), (t2, f2)]))
        if t1 not in pts or t2 not in pts or f.n in TOPOLOGICAL:
            continue
        fa = [pts[t1][1][i] for i in FACES[c1][f1]]
        fb = [pts[t2][1][i] for i in FACES[c2][f2]]
        mp, shifted = corner_map(fa, fb)
        what = "%s: join of tree %s face %s with tree %s face %s" % (d, t1, f1, t2, f2)
        if mp is None:
            bad("jgeo:%s:%s:%s:%s:%s" % (f.n, t1, f1, t2, f2), what + ": the two faces are not the same up to a translation", n)
            continue
        if ORDER[c1] < ORDER[c2] or c1 == c2 and f1 <= f2:
            k = mp[0]
        else:
            k = mp.index(0)
        rep.ok("join: periodic translation" if shifted else "join: faces coincide", d)
        if k != o and not (c1 == c2 and f1 == f2 and mp.index(0) == o):
            bad("jo:%s:%s:%s:%s:%s:%s:%s" % (f.n, t1, f1, t2, f2, NAMES[c1], NAMES[c2]), what + ": orientation %s given, but corner 0 of the first face meets corner %s" % (o, k), n)
        if shifted and f.n not in PERIODIC and not any("periodic" in p["n"] and v not in (0,) for p, v in zip(f.params, ctx)):
            bad("jper:%s:%s:%s:%s:%s" % (f.n, t1, f1, t2, f2), what + ": the two faces lie at different places", n)
    # every pair of coinciding faces is joined
    geo = dict(pts)
    for (nt, dd, n) in m.byv:
        rep.ok("connectivity computed from vertices", d)
        if e_open(m) and nt != len(m.cls):
            bad("byvn:" + f.n, "%s computes the connectivity of %s trees but has %d" % (d, nt, len(m.cls)), n)
        for t, (c, vs) in dd.items():
            if t in m.cls and m.cls[t][0][0] != c:
                bad("byvc:%s:%s" % (f.n, t), "%s: class of tree %s for the connectivity differs from its class" % (d, t), n)
            if t in pts and known(vs):
                rep.ok("vertices for connectivity are the vertices of the tree", d)
                if not all(near(x, y, 1e-7) for x, y in zip(vs, pts[t][1])):
                    bad("byvv:%s:%s" % (f.n, t), "%s: the vertices of tree %s used for the connectivity differ from its vertices" % (d, t), n)
    if not m.byv and not m.stash and m.join and e_open(m) and f.n not in TOPOLOGICAL and f.n not in INCOMPLETE:
        F = {}
        for t, (c, vs) in geo.items():
            for i, fc in enumerate(FACES[c]):
                key = tuple(sorted(tuple(round(x, 6) + 0.0 for x in vs[j]) for j in fc))
                F.setdefault(key, []).append((t, i))
        for key, l in F.items():
            if len(l) == 2:
                rep.ok("coinciding faces are joined", d)
                if frozenset(l) not in joined:
                    n = None
                    bad("open:%s:%s" % (f.n, sorted(l)), "%s: face %d of tree %s and face %d of tree %s coincide but are not joined" % (d, l[0][1], l[0][0], l[1][1], l[1][0]), n)
            elif len(l) > 2:
                bad("multi:%s:%s" % (f.n, sorted(l)[0]), "%s: %d trees share one face" % (d, len(l)), None)
    elif (m.byv or m.stash) and geo:
        F = {}
        for t, (c, vs) in geo.items():
            for i, fc in enumerate(FACES[c]):
                key = tuple(sorted(tuple(round(x, 6) + 0.0 for x in vs[j]) for j in fc))
                F.setdefault(key, []).append((t, i))
        for key, l in F.items():
            rep.ok("a face is shared by at most two trees", d)
            if len(l) > 2:
                bad("multi:%s:%s" % (f.n, sorted(l)[0]), "%s: %d trees share one face" % (d, len(l)), None)


TOPOLOGICAL = {"t8_cmesh_new_tet_orientation_test", "t8_cmesh_new_bigmesh"}   # documented as purely topological meshes
NEGATIVE = set()
NOVERT = set()
PERIODIC = {"t8_cmesh_new_periodic", "t8_cmesh_new_periodic_tri", "t8_cmesh_new_periodic_hybrid", "t8_cmesh_new_periodic_line_more_trees"}
INCOMPLETE = set()


def run_P03(P, rep):
    fs = [f for f in P.all if f.relfile == "src/t8_cmesh/t8_cmesh_examples.cxx" and not f.tmpl and f.body is not None
          and f.params and "t8_cmesh" in f.ptype(0).cs and f.n.startswith("t8_cmesh_new_")]
    for f in fs:
        full = 0
        budget = 400
        cs = contexts(f, P)
        for ctx in cs:
            if budget <= 0:
                rep.note("%s: only part of the %d flag combinations followed" % (f.n, len(cs)))
                break
            for e, m, status in walks(P, f, lambda: list(ctx), sinks, 8 if len(cs) > 1 else 24):
                budget -= 1
                if status == "abort":
                    continue
                if status != "ok":
                    rep.note("%s: not constant (%s)" % (describe(f, ctx), status))
                    continue
                if not (m.cls or m.vert or m.join):
                    continue
                if any(len(t) == 2 for t in e.taken):
                    # the walk rests on guesses about unknown conditions that may exclude each other
                    rep.note("%s: a walk with undecided conditions is not judged" % describe(f, ctx))
                    continue
                full += 1

                def bad(key, msg, n):
                    rep.bad(key, msg, n.where if n is not None else f.where)
                m.peeled = e.peeled
                check_mesh(rep, f, ctx, m, bad)
                for (n, name, i, k) in e.oob:
                    bad("oob:%s:%s" % (f.n, name), "%s: index %s of %s, which has %s entries" % (describe(f, ctx), i, name, k), n)
        if full:
            rep.ok("example mesh", f.n)
    rep.need("example mesh", 10)
