"""P32: corners, inner points, face neighbours, children and extruded faces of an element follow from its anchor, type and level."""
import os, re
from fractions import Fraction as F
from ..affine import Interp, Ptr, Undecided, Stop, Flow, TOP, NULL, con, sym, add, mul, num, newobj
from ..extract import REPO
from .tables import C, FACES, V, L, Q, T, H, E, R, Y, tri, tet, pyra, TETF, PYF, halfspaces, inside, scale

UNITS = {"l": "u", "m": "w"}
CLS = {"line": L, "quad": Q, "tri": T, "hex": H, "tet": E, "prism": R, "pyramid": Y}
TYPES = {"line": (None,), "quad": (None,), "hex": (None,), "tri": (0, 1), "tet": range(6), "prism": (0, 1), "pyramid": range(8)}
DIM = {"line": 1, "quad": 2, "tri": 2, "hex": 3, "tet": 3, "prism": 3, "pyramid": 3}
FIELDS = {"line": [("x",)], "quad": [("x",), ("y",)], "tri": [("x",), ("y",)], "hex": [("x",), ("y",), ("z",)], "tet": [("x",), ("y",), ("z",)],
          "prism": [("tri", "x"), ("tri", "y"), ("line", "x")], "pyramid": [("pyramid", "x"), ("pyramid", "y"), ("pyramid", "z")]}
LEVELS = {"line": [("level",)], "quad": [("level",)], "tri": [("level",)], "hex": [("level",)], "tet": [("level",)], "prism": [("tri", "level"), ("line", "level")],
          "pyramid": [("pyramid", "level")]}
TYPE = {"tri": ("type",), "tet": ("type",), "prism": ("tri", "type"), "pyramid": ("pyramid", "type")}
TRIF = [(1, 2), (0, 2), (0, 1)]


class Maxlevels:
    def __init__(self, P):
        self.v = {}
        for cls, mac, hdr in (("line", "T8_DLINE_MAXLEVEL", "line/t8_dline.h"), ("tri", "T8_DTRI_MAXLEVEL", "tri/t8_dtri.h"), ("tet", "T8_DTET_MAXLEVEL", "tet/t8_dtet.h"),
                              ("prism", "T8_DPRISM_MAXLEVEL", "prism/t8_dprism.h"), ("pyramid", "T8_DPYRAMID_MAXLEVEL", "pyramid/t8_dpyramid.h")):
            m = None
            p = os.path.join(REPO, "src/t8_schemes/t8_default/t8_default_" + hdr)
            if os.path.exists(p):
                m = re.search(r"#\s*define\s+%s\s+\(?(\d+)" % mac, open(p, errors="replace").read())
            if m:
                self.v[cls] = int(m.group(1))
        for cls, hdr in (("quad", "p4est.h"), ("hex", "p8est.h")):
            for d in ("/usr/include", "/usr/local/include"):
                p = os.path.join(d, hdr)
                if os.path.exists(p):
                    m = re.search(r"#\s*define\s+P[48]EST_MAXLEVEL\s+(\d+)", open(p, errors="replace").read())
                    if m:
                        self.v[cls] = int(m.group(1))

    def units(self, cls):
        """maximum level of each coordinate of a class"""
        if cls == "prism":
            return [self.v["tri"], self.v["tri"], self.v["line"]]
        return [self.v[cls]] * DIM[cls]


def reference(cls, ty):
    if cls == "tri":
        return tri(ty)
    if cls == "tet":
        return tet(ty)
    if cls == "prism":
        return [(x, y, z) for z in (0, 1) for x, y, _ in tri(ty)]
    if cls == "pyramid":
        return tet(ty) if ty < 6 else pyra(ty)
    return C[CLS[cls]]


def faces(cls, ty):
    if cls == "tri":
        return TRIF
    if cls == "tet":
        return TETF
    if cls == "pyramid":
        return TETF if ty < 6 else PYF[ty]
    return [tuple(f) for f in FACES[CLS[cls]]]


def shape_of(cls, ty):
    return "tet" if cls == "pyramid" and ty < 6 else cls


def element(cls, ty, names=("x", "y", "z"), lev="l"):
    o = newobj("elem")
    for p, s in zip(FIELDS[cls], names):
        o["cells"][p] = sym(s)
    for p in LEVELS[cls]:
        o["cells"][p] = sym(lev)
    if cls in TYPE:
        o["cells"][TYPE[cls]] = con(ty)
    return o


def length(v):
    """the length of an element of a level, in units of the tree"""
    if not isinstance(v, dict):
        return None
    ls = [k for k in v if k != ()]
    if len(ls) == 1 and len(ls[0]) == 1 and v[ls[0]] == 1 and ls[0][0] in UNITS:
        return mul(con(F(1, 2) ** int(v.get((), F(0)))) if v.get((), F(0)) >= 0 else con(F(2) ** int(-v[()])), sym(UNITS[ls[0][0]]))
    return None


class Bad(Exception):
    pass


def geometry(cls, o, M):
    """(type, corners in units of the tree) of an element in memory"""
    c = o["cells"]
    ls = [c.get(p, TOP) for p in LEVELS[cls]]
    hs = [length(v) for v in ls]
    if None in hs:
        raise Undecided("level")
    if any(h != hs[0] for h in hs):
        raise Bad("the levels of its parts differ")
    ty = None
    if cls in TYPE:
        ty = num(c[TYPE[cls]]) if isinstance(c.get(TYPE[cls], TOP), dict) else None
        if ty is None:
            raise Undecided("type")
        ty = int(ty)
        if ty not in TYPES[cls]:
            raise Bad("it has type %d" % ty)
    an = []
    for p, m in zip(FIELDS[cls], M.units(cls)):
        v = c.get(p, TOP)
        if not isinstance(v, dict):
            raise Undecided("coordinate")
        an.append(mul(v, con(F(1, 2) ** m)))
    return ty, [tuple(add(an[i], mul(hs[0], con(q[i]))) for i in range(DIM[cls])) for q in reference(cls, ty)], hs[0]


def key(p):
    return tuple(tuple(sorted(c.items())) for c in p)


def show(p):
    out = []
    for c in p:
        out.append(" + ".join("%s%s" % ("" if v == 1 and k else str(v), "*".join(k)) for k, v in sorted(c.items())) or "0")
    return "(" + ", ".join(out) + ")"


GRAIN = [None]
SW = ("switch_shape_at_level",)


def walk(P, rep, what, f, ctx, body):
    """body(interpreter) over all choices at unknown conditions"""
    it = Interp(P, UNITS, GRAIN[0])
    n = 0; bad = []; sure = None; open_ = False
    for _ in it.runs(None):
        try:
            body(it)
            n += 1
        except Bad as e:
            bad.append(str(e))
            if it.pos == 0:
                sure = str(e)
        except (Undecided, Stop, Flow, RecursionError, KeyError, IndexError):
            open_ = True
    if bad and not n and not open_:
        sure = bad[0]
    if n:
        rep.ok(what, "%s: %s" % (f.n, ctx))
    if sure:
        rep.bad("%s:%s:%s" % (what.split()[0], f.key, ctx), "%s: %s" % (f.n, sure), f.where)


def apply(P, f, args, after):
    """after(result) for each way through f; returns the number of ways that could be judged"""
    it = Interp(P, UNITS, GRAIN[0])
    n = 0
    for _ in it.runs(None):
        a = args()
        try:
            r = it.call(f, a[0])
        except (Undecided, Stop, Flow, RecursionError, KeyError, IndexError):
            continue
        try:
            after(r, *a[1])
            n += 1
        except Undecided:
            pass
    return n


def point(cls, cs, ty, r, s, t):
    """image of the reference point (r, s, t) in an element with the given corners"""
    d = lambda a, b: [add(x, y, -1) for x, y in zip(cs[a], cs[b])]
    sh = shape_of(cls, ty)
    e = {"line": [(1, 0)], "quad": [(1, 0), (2, 0)], "hex": [(1, 0), (2, 0), (4, 0)], "tri": [(1, 0), (2, 1)], "tet": [(1, 0), (3, 2), (2, 1)],
         "prism": [(1, 0), (2, 1), (3, 0)], "pyramid": [(1, 0), (2, 0), (4, 3)]}[sh]
    out = list(cs[0])
    for (a, b), c in zip(e, (r, s, t)):
        out = [add(x, mul(y, c)) for x, y in zip(out, d(a, b))]
    return tuple(out)


def embed(cls, f, p):
    """point p (list of polynomials) of the reference face f in the tree of a class"""
    vs = [tuple(con(x) for x in C[CLS[cls]][i]) for i in FACES[CLS[cls]][f]]
    sub = lambda a, b: [add(x, y, -1) for x, y in zip(vs[a], vs[b])]
    out = list(vs[0])
    es = {1: [], 2: [(1, 0)], 3: [(1, 0), (2, 1)], 4: [(1, 0), (2, 0)]}[len(vs)]
    for (a, b), c in zip(es, p):
        out = [add(x, mul(y, c)) for x, y in zip(out, sub(a, b))]
    return tuple(out[:DIM[cls]])


def methods(P, cls, name):
    return [f for f in P.byname.get(name, []) if not f.tmpl and f.body is not None and re.search(r"t8_default_scheme_%s\b" % cls, f.key + " " + (f.d.get("qn") or ""))]


def cfun(P, name):
    return [f for f in P.byname.get(name, []) if not f.tmpl and f.body is not None]


def arr(name):
    o = newobj(name)
    return o, Ptr(o, (0,))


def each(P, rep, what, f, cls, ty, args, after, ctx):
    bad = []

    def go(*a):
        try:
            after(*a)
        except Bad as e:
            bad.append(str(e))
    n = apply(P, f, args, go)
    if n:
        rep.ok(what, "%s: %s" % (f.n, ctx))
    for b in bad[:1]:
        rep.bad("%s:%s:%s" % (what.split()[0], f.key, ctx), "%s: %s" % (f.n, b.replace("@", ctx)), f.where)


def name_of(cls, ty):
    return "%s%s" % (shape_of(cls, ty) if ty is not None else cls, " of type %d" % ty if ty is not None else "")


def cells(o):
    return {k: v for k, v in o["cells"].items()}


def same(cls, a, b):
    """two elements in memory are the same; Undecided if that is open"""
    ks = FIELDS[cls] + LEVELS[cls] + ([TYPE[cls]] if cls in TYPE else [])
    for k in ks:
        x, y = a["cells"].get(k, TOP), b["cells"].get(k, TOP)
        if not isinstance(x, dict) or not isinstance(y, dict):
            raise Undecided("part")
        if x != y:
            return k
    if cls == "pyramid":
        x, y = a["cells"].get(SW, TOP), b["cells"].get(SW, TOP)
        if isinstance(x, dict) and isinstance(y, dict) and x != y:
            return SW
    return None


def family(P, rep, M, cls, ty, pre, nm, nc, cs, hs):
    pairs = []
    for a in ("C", "scheme"):
        g = (lambda c, m: cfun(P, pre + "_" + c)) if a == "C" else (lambda c, m: methods(P, cls, m))
        ch = [f for f in g("child", "element_get_child") if len(f.params) == 3]
        if len(ch) != 1:
            continue
        pairs.append((ch[0], g))

    def mk(it, child, i):
        e = element(cls, ty); n = newobj("child")
        if cls == "pyramid":
            e["cells"][SW] = con(-1) if ty >= 6 else add(sym("l"), con(0 if ty in (0, 3) else -1))
        it.call(child, [Ptr(e), con(i), Ptr(n)])
        return e, n
    for child, g in pairs:
        for f in g("parent", "element_get_parent"):
            for i in range(nc):
                def body(it):
                    e, n = mk(it, child, i)
                    p = newobj("parent")
                    it.call(f, [Ptr(n), Ptr(p)])
                    k = same(cls, p, e)
                    if k:
                        raise Bad("the parent of child %d of a %s is not that element (%s is %s instead of %s)" % (i, nm, ".".join(map(str, k)), show([p["cells"][k]]), show([e["cells"][k]])))
                if len(f.params) == 2:
                    walk(P, rep, "parent of a child", f, "%s, child %d" % (nm, i), body)
        for f in g("child_id", "element_get_child_id"):
            for i in range(nc):
                def body(it):
                    e, n = mk(it, child, i)
                    r = it.call(f, [Ptr(n)])
                    r = num(r) if isinstance(r, dict) else None
                    if r is None:
                        raise Undecided("id")
                    if r != i:
                        raise Bad("child %d of a %s has the child id %s" % (i, nm, r))
                if len(f.params) == 1:
                    walk(P, rep, "id of a child", f, "%s, child %d" % (nm, i), body)
        for f in g("ancestor_id", "element_get_ancestor_id"):
            for i in range(nc):
                def body(it):
                    e, n = mk(it, child, i)
                    r = it.call(f, [Ptr(n), add(sym("l"), con(1))])
                    r = num(r) if isinstance(r, dict) else None
                    if r is None:
                        raise Undecided("id")
                    if r != i:
                        raise Bad("child %d of a %s has the ancestor id %s at its own level" % (i, nm, r))
                if len(f.params) == 2:
                    walk(P, rep, "id of a child", f, "%s, child %d at its level" % (nm, i), body)
        for f in g("sibling", "element_get_sibling"):
            for i in range(nc):
                for j in range(nc):
                    def body(it):
                        e, n = mk(it, child, i)
                        s = newobj("sibling")
                        it.call(f, [Ptr(n), con(j), Ptr(s)])
                        _, w = mk(it, child, j)
                        if same(cls, s, w):
                            raise Bad("sibling %d of child %d of a %s is not child %d" % (j, i, nm, j))
                    if len(f.params) == 3:
                        walk(P, rep, "sibling of a child", f, "%s, child %d, sibling %d" % (nm, i, j), body)
        for f in g("is_familypv", "elements_are_family") + g("is_family", "elements_are_family_"):
            moved = [("moved", i, d) for i in list(range(nc)) + [nc] for d in range(DIM[cls])]        # nc: the second half
            for swap in [None] + [(i, i + 1) for i in range(nc - 1)] + moved:
                def body(it):
                    o, p = arr("fam")
                    for i in range(nc):
                        o["cells"][(i,)] = Ptr(mk(it, child, i)[1])
                    if swap and swap[0] == "moved":
                        for i in ([swap[1]] if swap[1] < nc else range(nc // 2, nc)):
                            c = o["cells"][(i,)].o["cells"]
                            k = FIELDS[cls][swap[2]]
                            if not isinstance(c.get(k, TOP), dict):
                                raise Undecided("coordinate")
                            c[k] = add(c[k], {("u",): F(2 ** M.units(cls)[swap[2]])})
                    elif swap:
                        a, b = swap
                        o["cells"][(a,)], o["cells"][(b,)] = o["cells"][(b,)], o["cells"][(a,)]
                    r = it.call(f, [p])
                    r = num(r) if isinstance(r, dict) else None
                    if r is None:
                        raise Undecided("result")
                    if swap is None and not r:
                        raise Bad("the children of a %s are not taken for a family" % nm)
                    if swap and r and swap[0] == "moved":
                        raise Bad("the children of a %s are taken for a family although %s in another element (coordinate %d)" % (nm, "child %d lies" % swap[1] if swap[1] < nc else "the second half lies", swap[2]))
                    if swap and r:
                        raise Bad("the children of a %s are taken for a family although %d and %d are exchanged" % (nm, swap[0], swap[1]))
                if len(f.params) == 1:
                    walk(P, rep, "family of children", f, "%s, %s" % (nm, "in order" if swap is None else "moved %d %d" % swap[1:] if swap[0] == "moved" else "exchanged %d %d" % swap), body)
        for lo, names in ((0, ("first_descendant", "element_get_first_descendant")), (nc - 1, ("last_descendant", "element_get_last_descendant"))):
            for f in g(*names):
                def body(it):
                    e, n = mk(it, child, lo)
                    d = newobj("desc")
                    it.call(f, [Ptr(e), Ptr(d), add(sym("l"), con(1))])
                    if same(cls, d, n):
                        raise Bad("the descendant of a %s one level finer is not child %d" % (nm, lo))
                if len(f.params) == 3:
                    walk(P, rep, "descendant one level finer", f, nm, body)
        if cls in ("line", "quad", "hex"):
            for hi, names in ((0, ("first_descendant", "element_get_first_descendant")), (1, ("last_descendant", "element_get_last_descendant"))):
                for f in g(*names):
                    def body(it):
                        e = element(cls, ty); d = newobj("desc")
                        it.call(f, [Ptr(e), Ptr(d), sym("m")])
                        _, dcs, dh = geometry(cls, d, M)
                        if dh != sym("w"):
                            raise Bad("the descendant of a %s does not have the level asked for" % nm)
                        v = len(dcs) - 1 if hi else 0
                        if dcs[v] != cs[v]:
                            raise Bad("the descendant of a %s on a finer level does not share its corner %d" % (nm, v))
                    if len(f.params) == 3:
                        walk(P, rep, "descendant on a finer level", f, nm, body)
        for f in g("ancestor", "-"):
            for i in range(nc):
                def body(it):
                    e, n = mk(it, child, i)
                    p = newobj("ancestor")
                    it.call(f, [Ptr(n), sym("l"), Ptr(p)])
                    k = same(cls, p, e)
                    if k:
                        raise Bad("the ancestor of child %d of a %s one level up is not that element (%s is %s instead of %s)" % (i, nm, ".".join(map(str, k)), show([p["cells"][k]]), show([e["cells"][k]])))
                if len(f.params) == 3 and f.ptype(1) is not None and f.ptype(1).k == "int":
                    walk(P, rep, "parent of a child", f, "%s, child %d" % (nm, i), body)
        for f in g("corner_descendant", "-"):
            for v in range(len(cs)):
                def body(it):
                    e = element(cls, ty); d = newobj("desc")
                    it.call(f, [Ptr(e), Ptr(d), con(v), add(sym("l"), con(1))])
                    _, dcs, dh = geometry(cls, d, M)
                    if mul(dh, con(2)) != mul(sym("u"), con(1)) or cs[v] not in dcs:
                        raise Bad("the descendant of a %s at corner %d does not lie there" % (nm, v))
                if len(f.params) == 4 and (cls != "pyramid" or ty < 6):
                    walk(P, rep, "descendant on a finer level", f, "%s, corner %d" % (nm, v), body)
        fs = faces(cls, ty)
        for f in g("first_descendant_face", "element_get_first_descendant_face") + g("last_descendant_face", "element_get_last_descendant_face"):
            for fc in range(len(fs)):
                def body(it):
                    e = element(cls, ty); d = newobj("desc")
                    if cls == "pyramid":
                        e["cells"][SW] = con(-1) if ty >= 6 else add(sym("l"), con(0 if ty in (0, 3) else -1))
                    it.call(f, [Ptr(e), con(fc), Ptr(d), add(sym("l"), con(1))])
                    dty, dcs, dh = geometry(cls, d, M)
                    if mul(dh, con(2)) != sym("u"):
                        raise Bad("the descendant at face %d of a %s does not have the level asked for" % (fc, nm))
                    P0 = [[q.get(("u",), F(0)) for q in rel(cls, M, cs[v])] for v in fs[fc]]
                    on = [i for i, q in enumerate(dcs) if onface(P0, [y.get(("u",), F(0)) for y in rel(cls, M, q)])]
                    if not any(set(x) <= set(on) for x in faces(cls, dty)):
                        raise Bad("the descendant at face %d of a %s does not lie at that face" % (fc, nm))
                if len(f.params) == 4:
                    walk(P, rep, "descendant at a face", f, "%s, face %d" % (nm, fc), body)
        for f in g("children_at_face", "element_get_children_at_face"):
            fcs = [x for x in g("face_child_face", "element_face_get_child_face")]
            fps = [x for x in g("face_parent_face", "element_face_get_parent_face") if len(x.params) == 2]
            for fc in range(len(fs)):
                nfc = 1 if cls == "line" else 2 if DIM[cls] == 2 else 4

                def body(it):
                    e = element(cls, ty)
                    if cls == "pyramid":
                        e["cells"][SW] = con(-1) if ty >= 6 else add(sym("l"), con(0 if ty in (0, 3) else -1))
                    o, p = arr("c"); io, ip = arr("ids"); ns = []
                    for i in range(nfc):
                        n = newobj("child"); ns.append(n); o["cells"][(i,)] = Ptr(n)
                    it.call(f, [Ptr(e), con(fc), p, con(nfc), ip])
                    o2, p2 = arr("c"); ns2 = []
                    for i in range(nfc):
                        n = newobj("child"); ns2.append(n); o2["cells"][(i,)] = Ptr(n)
                    it.call(f, [Ptr(e), con(fc), p2, con(nfc), NULL])
                    for i in range(nfc):
                        if (ns[i]["cells"] or ns2[i]["cells"]) and same(cls, ns[i], ns2[i]):
                            raise Bad("the child number %d at face %d of a %s depends on whether the indices are asked for" % (i, fc, nm))
                    seen = set()
                    for i, n in enumerate(ns):
                        k = io["cells"].get((i,), TOP)
                        k = num(k) if isinstance(k, dict) else None
                        if k is None:
                            raise Undecided("index")
                        k = int(k)
                        if not n["cells"]:
                            raise Bad("the child number %d at face %d of a %s is not computed" % (i, fc, nm))
                        if not 0 <= k < nc:
                            raise Bad("the index %d of a child at face %d of a %s is out of range" % (k, fc, nm))
                        if k in seen:
                            raise Bad("child %d is given twice at face %d of a %s" % (k, fc, nm))
                        seen.add(k)
                        _, w = mk(it, child, k)
                        if same(cls, n, w):
                            raise Bad("the child number %d at face %d of a %s is not its child %d" % (i, fc, nm, k))
                        cty, ccs, _h = geometry(cls, n, M)
                        cf = None
                        for x in fcs:
                            if len(x.params) == 3:
                                r = it.call(x, [Ptr(e), con(fc), con(i)])
                            elif len(x.params) == 1:
                                r = it.call(x, [con(fc)])
                            else:
                                continue
                            cf = num(r) if isinstance(r, dict) else None
                        if cf is None:
                            continue
                        cfs = faces(cls, cty)
                        if not 0 <= int(cf) < len(cfs):
                            raise Bad("child %d at face %d of a %s has no face %d" % (k, fc, nm, cf))
                        P0 = [[q.get(("u",), F(0)) for q in rel(cls, M, cs[v])] for v in fs[fc]]
                        for v in cfs[int(cf)]:
                            q = [y.get(("u",), F(0)) for y in rel(cls, M, ccs[v])]
                            if not onface(P0, q):
                                raise Bad("face %d of child %d of a %s does not lie in its face %d" % (cf, k, nm, fc))
                        for x in fps:
                            r = it.call(x, [Ptr(n), con(int(cf))])
                            r = num(r) if isinstance(r, dict) else None
                            if r is not None and r != fc:
                                raise Bad("face %d of child %d of a %s lies in face %d of its parent, not %s" % (cf, k, nm, fc, r))
                if len(f.params) == 5:
                    walk(P, rep, "children at a face", f, "%s, face %d" % (nm, fc), body)


def rel(cls, M, q):
    a = [mul(sym(s), con(F(1, 2) ** m)) for s, m in zip("xyz", M.units(cls))]
    return [add(x, y, -1) for x, y in zip(q, a)]


def onface(P0, q):
    """q lies in the affine hull of the points P0"""
    rows = [[a - b for a, b in zip(p, P0[0])] for p in P0[1:]]
    return rank(rows) == rank(rows + [[a - b for a, b in zip(q, P0[0])]])


def rank(rows):
    rows = [list(r) for r in rows]; rk = 0
    n = len(rows[0]) if rows else 0
    for c in range(n):
        p = next((i for i in range(rk, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[rk], rows[p] = rows[p], rows[rk]
        for i in range(len(rows)):
            if i != rk and rows[i][c] != 0:
                m = rows[i][c] / rows[rk][c]
                rows[i] = [a - m * b for a, b in zip(rows[i], rows[rk])]
        rk += 1
    return rk


def run_P32(P, rep):
    M = Maxlevels(P)
    if len(M.v) < 5:
        rep.note("maximum levels known of %s only" % sorted(M.v))
    for cls in CLS:
        if cls not in M.v or cls == "prism" and not {"tri", "line"} <= M.v.keys():
            continue
        pre = "t8_d" + cls
        GRAIN[0] = {s: 2 ** m for s, m in zip("xyz", M.units(cls))}
        for ty in TYPES[cls]:
            nm = name_of(cls, ty)
            ref = reference(cls, ty)
            ty0, cs, h = geometry(cls, element(cls, ty), M)

            # corners
            def corner(f, sc):
                for v in range(len(ref)):
                    def args():
                        e = element(cls, ty); o, p = arr("coords")
                        return [Ptr(e), con(v), p], [o, v]

                    def after(r, o, v):
                        for i in range(DIM[cls]):
                            x = o["cells"].get((i,), TOP)
                            if not isinstance(x, dict):
                                if x is TOP and (i,) not in o["cells"]:
                                    raise Bad("coordinate %d of corner %d of a %s is not set" % (i, v, nm))
                                raise Undecided("coordinate")
                            want = mul(cs[v][i], con(sc))
                            if x != want:
                                raise Bad("coordinate %d of corner %d of a %s is %s, but the corner lies at %s" % (i, v, nm, show([x]), show([want])))
                    each(P, rep, "corner of an element", f, cls, ty, args, after, "%s, corner %d" % (nm, v))
            for f in cfun(P, pre + "_vertex_integer_coords") + cfun(P, pre + "_compute_integer_coords") + methods(P, cls, "element_get_vertex_integer_coords"):
                corner(f, 2 ** M.v[cls])
            for f in cfun(P, pre + "_vertex_ref_coords") + cfun(P, pre + "_compute_vertex_ref_coords") + cfun(P, pre + "_vertex_reference_coords") + methods(P, cls, "element_get_vertex_reference_coords"):
                corner(f, 1)
            for f in cfun(P, pre + "_compute_all_coords"):
                def args():
                    e = element(cls, ty); o, p = arr("coords")
                    return [Ptr(e), p], [o]

                def after(r, o):
                    for v in range(len(ref)):
                        for i in range(DIM[cls]):
                            x = o["cells"].get((v, i), TOP)
                            if not isinstance(x, dict):
                                raise Undecided("coordinate")
                            want = mul(cs[v][i], con(2 ** M.v[cls]))
                            if x != want:
                                raise Bad("coordinate %d of corner %d of a %s is %s, but the corner lies at %s" % (i, v, nm, show([x]), show([want])))
                each(P, rep, "corner of an element", f, cls, ty, args, after, nm)

            # inner points
            for f in cfun(P, "t8_d%s_compute_reference_coords" % cls) + methods(P, cls, "element_get_reference_coords"):
                names = [p["n"] for p in f.params]
                if len(names) not in (4, 5):
                    continue

                def args():
                    e = element(cls, ty); o, p = arr("out"); ri, rp = arr("ref")
                    for i, s in enumerate("rst"):
                        ri["cells"][(i,)] = sym(s)
                    a = [Ptr(e), rp, con(1)] + ([con(0)] if len(names) == 5 else []) + [p]
                    return a, [o]

                def after(r, o):
                    want = point(cls, cs, ty, sym("r"), sym("s"), sym("t"))
                    for i in range(DIM[cls]):
                        x = o["cells"].get((i,), TOP)
                        if not isinstance(x, dict):
                            raise Undecided("coordinate")
                        if x != want[i]:
                            raise Bad("coordinate %d of the point (r, s, t) of a %s is %s, but the point lies at %s" % (i, nm, show([x]), show([want[i]])))
                each(P, rep, "inner point of an element", f, cls, ty, args, after, nm)

            # face neighbours
            nf = len(faces(cls, ty))
            for f in cfun(P, pre + "_face_neighbour") + methods(P, cls, "element_get_face_neighbor_inside"):
                for fc in range(nf):
                    def args():
                        e = element(cls, ty); n = newobj("neigh"); d = newobj("dual")
                        a = []
                        ptrs = [Ptr(e), Ptr(n)]
                        for i, p in enumerate(f.params):
                            t = f.ptype(i)
                            if t is not None and t.k == "ptr":
                                if t.to is not None and t.to.k == "int":
                                    a.append(Ptr(d))
                                else:
                                    a.append(ptrs.pop(0) if ptrs else TOP)
                            else:
                                a.append(con(fc))
                        return a, [n, d]

                    def after(r, n, d):
                        df = d["cells"].get((), r)
                        df = num(df) if isinstance(df, dict) else None
                        nty, ncs, nh = geometry(cls, n, M)
                        if nh != h:
                            raise Bad("the neighbour of a %s across face %d has another level" % (nm, fc))
                        if df is None:
                            raise Undecided("dual face")
                        df = int(df)
                        nfs = faces(cls, nty)
                        if not 0 <= df < len(nfs):
                            raise Bad("the neighbour of a %s across face %d has no face %d" % (nm, fc, df))
                        mine = {key(cs[i]) for i in faces(cls, ty)[fc]}
                        other = {key(ncs[i]) for i in nfs[df]}
                        if mine != other:
                            raise Bad("face %d of a %s and face %d of its neighbour (%s at %s) do not coincide" % (fc, nm, df, name_of(cls, nty), show(ncs[0])))
                        if {key(q) for q in ncs} == {key(q) for q in cs}:
                            raise Bad("the neighbour of a %s across face %d is the element itself" % (nm, fc))
                    each(P, rep, "neighbour across a face", f, cls, ty, args, after, "%s, face %d" % (nm, fc))

            # children
            hs = halfspaces(scale([tuple(list(q) + [0] * (3 - len(q))) for q in ref]), DIM[cls]) if DIM[cls] > 1 else None
            nc = {"line": 2, "quad": 4, "tri": 4}.get(cls, 8)
            if cls == "pyramid" and ty >= 6:
                nc = 10
            got = {}

            def judge(n, i):
                cty, ccs, ch = geometry(cls, n, M)
                if mul(ch, con(2)) != h:
                    raise Bad("child %d of a %s is not one level finer" % (i, nm))
                rel = []
                for q in ccs:
                    p = []
                    for k in range(DIM[cls]):
                        v = add(q[k], cs0[k], -1)
                        w = {m: x for m, x in v.items()}
                        if set(w) - {("u",)}:
                            raise Bad("child %d of a %s does not start at its parent" % (i, nm))
                        p.append(w.get(("u",), F(0)) * 2)
                    rel.append(tuple(p + [F(0)] * (3 - len(p))))
                if DIM[cls] == 1:
                    ok = all(0 <= p[0] <= 2 for p in rel)
                else:
                    ok = all(inside(hs, p) for p in rel)
                if not ok:
                    raise Bad("child %d of a %s (%s) does not lie in its parent" % (i, nm, name_of(cls, cty)))
                return frozenset(rel), cty
            cs0 = [mul(sym(s), con(F(1, 2) ** m)) for s, m in zip("xyz", M.units(cls))]
            for f in cfun(P, pre + "_child") + methods(P, cls, "element_get_child"):
                seen = {}
                for i in range(nc):
                    def args():
                        e = element(cls, ty); n = newobj("child")
                        return [Ptr(e), con(i), Ptr(n)], [n]

                    def after(r, n):
                        s = judge(n, i)
                        for j, q in seen.items():
                            if j != i and q[0] == s[0]:
                                raise Bad("children %d and %d of a %s are the same element" % (j, i, nm))
                        seen[i] = s
                    if len(f.params) == 3:
                        each(P, rep, "child inside its parent", f, cls, ty, args, after, "%s, child %d" % (nm, i))
                for i, q in seen.items():
                    got.setdefault(i, (q, f.n))
            for f in cfun(P, pre + "_childrenpv") + cfun(P, pre + "_children") + methods(P, cls, "element_get_children"):
                if len(f.params) not in (2, 3):
                    continue

                def args():
                    e = element(cls, ty); o, p = arr("c"); ns = []
                    for i in range(nc):
                        n = newobj("child"); ns.append(n); o["cells"][(i,)] = Ptr(n)
                    return [Ptr(e)] + ([con(nc)] if len(f.params) == 3 else []) + [p], [ns]

                def after(r, ns):
                    seen = {}
                    for i, n in enumerate(ns):
                        s = judge(n, i)
                        for j, q in seen.items():
                            if q[0] == s[0]:
                                raise Bad("children %d and %d of a %s are the same element" % (j, i, nm))
                        seen[i] = s
                        if i in got and got[i][0][0] != s[0]:
                            raise Bad("child %d of a %s is not the element that %s gives" % (i, nm, got[i][1]))
                each(P, rep, "children inside their parent", f, cls, ty, args, after, nm)
            family(P, rep, M, cls, ty, pre, nm, nc, cs, hs)
        GRAIN[0] = None
        # faces of the tree
        for f in methods(P, cls, "element_extrude_face") + cfun(P, pre + "_extrude_face"):
            for rf in range(len(FACES[CLS[cls]])):
                nv = len(FACES[CLS[cls]][rf])
                fcls = {2: "line", 3: "tri", 4: "quad"}.get(nv)
                for fty in (TYPES[fcls] if fcls else (None,)):
                    if fcls and fcls not in M.v:
                        continue

                    def args():
                        if fcls:
                            e = element(fcls, fty)
                        else:
                            e = newobj("face", {("level",): sym("l")})
                        n = newobj("elem"); a = []
                        ptrs = [Ptr(e), Ptr(n)]
                        for i, p in enumerate(f.params):
                            t = f.ptype(i)
                            if t is not None and t.k == "ptr":
                                a.append(ptrs.pop(0) if ptrs else TOP)
                            else:
                                a.append(con(rf))
                        return a, [e, n]

                    def after(r, e, n):
                        nty, ncs, nh = geometry(cls, n, M)
                        r = num(r) if isinstance(r, dict) else None
                        if r is None:
                            raise Undecided("face")
                        if fcls:
                            _, fcs, fh = geometry(fcls, e, M)
                            want = {key(embed(cls, rf, q)) for q in fcs}
                        else:
                            want = {key(embed(cls, rf, []))}
                            fh = sym("u")
                        if nh != fh:
                            raise Bad("the element at a face element of root face %d has another level" % rf)
                        fs = faces(cls, nty)
                        if not 0 <= int(r) < len(fs):
                            raise Bad("a %s has no face %d" % (name_of(cls, nty), int(r)))
                        if {key(ncs[i]) for i in fs[int(r)]} != want:
                            raise Bad("the face element (%s) of root face %d is not face %d of the element (%s at %s)" %
                                      (name_of(fcls, fty) if fcls else "vertex", rf, int(r), name_of(cls, nty), show(ncs[0])))
                    for bf in (methods(P, cls, "element_is_root_boundary") + methods(P, cls, "element_get_tree_face") if len(f.params) == 4 else []):
                        def body(it):
                            a, (e, n) = args()
                            r = it.call(f, a)
                            geometry(cls, n, M)
                            v = it.call(bf, [Ptr(n), r])
                            v = num(v) if isinstance(v, dict) else None
                            if v is None:
                                raise Undecided("result")
                            if bf.n == "element_is_root_boundary" and not v:
                                raise Bad("face %s of the element at a face element of root face %d is not taken for a face of the tree" % (show([r]), rf))
                            if bf.n == "element_get_tree_face" and v != rf:
                                raise Bad("face %s of the element at a face element of root face %d is taken for part of root face %s" % (show([r]), rf, v))
                        if len(bf.params) == 2:
                            walk(P, rep, "face of the tree", bf, "%s, root face %d, face %s" % (cls, rf, name_of(fcls, fty) if fcls else "vertex"), body)
                    for bf in (methods(P, cls, "element_get_boundary_face") if fcls and len(f.params) == 4 else []):
                        def body(it):
                            a, (e, n) = args()
                            r = it.call(f, a)
                            geometry(cls, n, M)
                            b = newobj("boundary")
                            ptrs = [Ptr(n), Ptr(b)]; ba = []
                            for i, p in enumerate(bf.params):
                                t = bf.ptype(i)
                                if t is not None and t.k == "ptr":
                                    ba.append(ptrs.pop(0) if ptrs else TOP)
                                else:
                                    ba.append(r)
                            it.call(bf, ba)
                            k = same(fcls, b, e)
                            if k:
                                raise Bad("the face element of face %s of the element that the face element (%s) of root face %d belongs to is another one (%s is %s instead of %s)" %
                                          (show([r]), name_of(fcls, fty), rf, ".".join(map(str, k)), show([b["cells"][k]]), show([e["cells"][k]])))
                        walk(P, rep, "face element of an element", bf, "%s, root face %d, face %s" % (cls, rf, name_of(fcls, fty)), body)
                    each(P, rep, "element at a face of the tree", f, cls, None, args, after, "%s, root face %d, face %s" % (cls, rf, name_of(fcls, fty) if fcls else "vertex"))
    rep.need("corner of an element", 40)
    rep.need("neighbour across a face", 20)
