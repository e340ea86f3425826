"""P01 / P02: every constant lookup table is the one that reference-element and refinement geometry dictates.

The compiler's own constant evaluation gives the values of each table as it is in the current source;
the expected values are derived here from the corner coordinates of the reference elements
(the published numbering convention) and, for refinement, from containment of scaled copies."""
from itertools import product, permutations
from fractions import Fraction as F

V, L, Q, T, H, E, R, Y = range(8)  # vertex line quad tri hex tet prism pyramid
NAMES = ["vertex", "line", "quad", "triangle", "hex", "tet", "prism", "pyramid"]
C = {
    V: [(0, 0, 0)],
    L: [(0, 0, 0), (1, 0, 0)],
    Q: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)],
    T: [(0, 0, 0), (1, 0, 0), (1, 1, 0)],
    H: [(x, y, z) for z in (0, 1) for y in (0, 1) for x in (0, 1)],
    E: [(0, 0, 0), (1, 0, 0), (1, 0, 1), (1, 1, 1)],
    R: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1)],
    Y: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1)],
}
DIM = [0, 1, 2, 2, 3, 3, 3, 3]


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def supporting_facets(pts, dim):
    """all maximal vertex sets lying on a supporting hyperplane of the convex hull"""
    n = len(pts)
    if dim == 1:
        return [(i,) for i in range(n)]
    out = set()
    if dim == 2:
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                d = sub(pts[j], pts[i])
                nv = (-d[1], d[0], 0)
                s = [dot(nv, sub(p, pts[i])) for p in pts]
                if all(x >= 0 for x in s):
                    out.add(tuple(k for k in range(n) if s[k] == 0))
        return sorted(out)
    for i, j, k in permutations(range(n), 3):
        nv = cross(sub(pts[j], pts[i]), sub(pts[k], pts[i]))
        if nv == (0, 0, 0):
            continue
        s = [dot(nv, sub(p, pts[i])) for p in pts]
        if all(x >= 0 for x in s):
            out.add(tuple(m for m in range(n) if s[m] == 0))
    return sorted(out)


FACETS = {e: supporting_facets(C[e], DIM[e]) if DIM[e] else [] for e in range(8)}


def faces_of(e):
    """facets in the published order: simplex-like faces opposite vertex i, cube faces -x +x -y +y -z +z,
    prism: three quads opposite triangle edge then bottom/top, pyramid: x/y sides then base"""
    fs = FACETS[e]
    pts = C[e]
    if e in (T, E):
        return [next(f for f in fs if i not in f) for i in range(len(pts))]
    if e in (L, Q, H):
        out = []
        for d in range(DIM[e]):
            for s in (0, 1):
                out.append(tuple(i for i in range(len(pts)) if pts[i][d] == s))
        return out
    if e == R:
        return [next(f for f in fs if i not in f and i + 3 not in f) for i in range(3)] + [(0, 1, 2), (3, 4, 5)]
    if e == Y:
        # the side through base edge x=0, x=1, y=0, y=1, then the base
        out = []
        for d in (0, 1):
            for s in (0, 1):
                base = {i for i in range(4) if pts[i][d] == s}
                out.append(next(f for f in fs if 4 in f and base <= set(f)))
        return out + [(0, 1, 2, 3)]
    return []


FACES = {e: faces_of(e) for e in range(8)}


def edges_geo(e):
    if DIM[e] == 1:
        return {frozenset((0, 1))}
    if DIM[e] == 2:
        return {frozenset(f) for f in FACETS[e]}
    s = set()
    fs = FACETS[e]
    for a in range(len(fs)):
        for b in range(a):
            c = set(fs[a]) & set(fs[b])
            if len(c) == 2:
                s.add(frozenset(c))
    return s


EDGES_GEO = {e: edges_geo(e) for e in range(8)}


def edges_of(e):
    if e == L:
        return [(0, 1)]
    if e in (Q, T):
        return FACES[e]
    if e == H:
        out = []
        for d in range(3):
            out += sorted((i, i + (1 << d)) for i in range(8) if not i >> d & 1)
        return out
    if e == E:
        return [(i, j) for i in range(4) for j in range(i + 1, 4)]
    if e == R:
        return [(1, 2), (0, 2), (0, 1), (4, 5), (3, 5), (3, 4), (1, 4), (2, 5), (0, 3)]
    return []


EDGES = {e: edges_of(e) for e in range(8)}
VTK = {  # VTK's point order of a linear cell in terms of our corners (VTK file format document)
    V: [0], L: [0, 1], Q: [0, 1, 3, 2], T: [0, 1, 2], H: [0, 1, 3, 2, 4, 5, 7, 6], E: [0, 2, 1, 3],
    R: [0, 2, 1, 3, 5, 4], Y: [0, 1, 3, 2, 4]}
VTKTYPE = {V: 1, L: 3, Q: 9, T: 5, H: 12, E: 10, R: 13, Y: 14}
VTKQUAD = {V: 1, L: 21, Q: 23, T: 22, H: 25, E: 24, R: 26, Y: 27}
MSH = {V: [0], L: [0, 1], Q: [0, 1, 3, 2], T: [0, 1, 2], H: [0, 1, 3, 2, 4, 5, 7, 6], E: [0, 1, 3, 2],
       R: [0, 1, 2, 3, 4, 5], Y: [0, 1, 3, 2, 4]}
# order in which the curved writer emits the linear corners, and the edges whose midpoints follow
VTKCURV = {V: [0], L: [0, 1], Q: [0, 1, 3, 2], T: [0, 1, 2], H: [0, 1, 3, 2, 4, 5, 7, 6], E: [0, 1, 3, 2],
           R: [0, 1, 2, 3, 4, 5], Y: [0, 1, 3, 2, 4]}
VTKQEDGE = {V: [], L: [(0, 1)], Q: [(0, 1), (1, 2), (2, 3), (3, 0)], T: [(0, 1), (1, 2), (2, 0)],
            H: [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
            E: [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
            R: [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
            Y: [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)]}
# orders inside a row that are conventions (which of the face's edges comes first); the *set* is geometry
FACE_EDGE_ORDER = {
    L: [[0]], Q: [[0], [1], [2], [3]], T: [[0], [1], [2]],
    H: [[8, 10, 4, 6], [9, 11, 5, 7], [8, 9, 0, 2], [10, 11, 1, 3], [4, 5, 0, 1], [6, 7, 2, 3]],
    E: [[3, 4, 5], [1, 2, 5], [0, 2, 4], [0, 1, 3]],
    R: [[0, 7, 3, 6], [1, 8, 4, 7], [2, 6, 5, 8], [0, 1, 2], [3, 4, 5]]}


def selftest():
    """the hand-written conventions above must themselves agree with the geometry"""
    for e in range(8):
        if DIM[e]:
            assert sorted(map(tuple, map(sorted, FACES[e]))) == sorted(FACETS[e]), e
        if EDGES[e]:
            assert {frozenset(x) for x in EDGES[e]} == EDGES_GEO[e], e
    for e, rows in FACE_EDGE_ORDER.items():
        if DIM[e] == 3:
            for f, r in enumerate(rows):
                assert set(r) == {i for i, ed in enumerate(EDGES[e]) if set(ed) <= set(FACES[e][f])}
    for e in (H, E, R, Y):
        p = [C[e][i] for i in VTK[e]]
        n = cross(sub(p[1], p[0]), sub(p[2], p[0]))
        inner = p[-1] if e != R else p[3]
        s = dot(n, sub(inner, p[0]))
        assert (s < 0) if e == R else (s > 0), e


selftest()


def pad(r, n, fill=0):
    return list(r) + [fill] * (n - len(r))


def expected():
    """name -> (function giving dict index-tuple -> expected value)"""
    X = {}

    def tab(name, entries):
        X[name] = entries
    ne = 8
    tab("t8_eclass_to_dimension", {(e,): DIM[e] for e in range(ne)})
    tab("t8_eclass_num_faces", {(e,): len(FACES[e]) for e in range(ne)})
    tab("t8_eclass_max_num_faces", {(d,): max(len(FACES[e]) for e in range(ne) if DIM[e] == d) for d in range(4)})
    nch = {V: 1, L: 2, Q: 4, T: 4, H: 8, E: 8, R: 8, Y: 10}
    tab("t8_eclass_max_num_children", {(e,): nch[e] for e in range(ne)})
    tab("t8_face_vertex_to_tree_vertex", {(e, f, i): v for e in range(ne) for f, fv in enumerate(FACES[e]) for i, v in enumerate(fv)})
    d = {}
    for e, rows in FACE_EDGE_ORDER.items():
        for f, r in enumerate(rows):
            for i, x in enumerate(r):
                d[(e, f, i)] = x
    tab("t8_face_edge_to_tree_edge", d)
    d = {}
    for e in (Q, T, H, E, R):
        for f, fv in enumerate(FACES[e]):
            for i, v in enumerate(fv):
                c = [k for k, ed in enumerate(EDGES[e]) if v in ed and not set(ed) <= set(fv)]
                assert len(c) == 1
                d[(e, f, i)] = c[0]
    tab("t8_face_to_edge_neighbor", d)
    d = {}
    for e in (Q, T, H, E, R):
        for k, ed in enumerate(EDGES[e]):
            d[(e, k, 0)], d[(e, k, 1)] = ed
    tab("t8_edge_vertex_to_tree_vertex", d)
    d = {}
    for e in (H, E, R):
        for k, ed in enumerate(EDGES[e]):
            fs = sorted(f for f, fv in enumerate(FACES[e]) if set(ed) <= set(fv))
            d[(e, k, 0)], d[(e, k, 1)] = fs
    for e in (Q, T):
        for k in range(len(EDGES[e])):
            d[(e, k, 0)] = k
    tab("t8_edge_to_face", d)
    d = {}
    for e in range(ne):
        for f in range(6):
            if DIM[e] < 3:
                d[(e, f)] = 0 if f < max(len(FACES[e]), 1) else -1
            elif f < len(FACES[e]):
                fv = FACES[e][f]
                p = C[e]
                n = cross(sub(p[fv[1]], p[fv[0]]), sub(p[fv[2]], p[fv[0]]))
                other = next(i for i in range(len(p)) if i not in fv and dot(n, sub(p[i], p[fv[0]])) != 0)
                d[(e, f)] = 0 if dot(n, sub(p[other], p[fv[0]])) > 0 else 1
            else:
                d[(e, f)] = -1
    tab("t8_eclass_face_orientation", d)
    d = {}
    for f, fv in enumerate(FACES[E]):
        p = C[E]
        n = cross(sub(p[fv[1]], p[fv[0]]), sub(p[fv[2]], p[fv[0]]))
        if dot(n, sub(p[f], p[fv[0]])) < 0:
            n = tuple(-x for x in n)
        for i in range(3):
            d[(f, i)] = n[i]
    tab("t8_reference_face_normal_tet", d)
    tab("t8_eclass_num_vertices", {(e,): len(C[e]) for e in range(ne)})
    tab("t8_eclass_num_edges", {(e,): len(EDGES_GEO[e]) if DIM[e] else 0 for e in range(ne)})
    tab("t8_eclass_vtk_type", {(e,): VTKTYPE[e] for e in range(ne)})
    tab("t8_eclass_vtk_to_t8_corner_number", {(e, i): (VTK[e][i] if i < len(VTK[e]) else -1) for e in range(ne) for i in range(8)})
    tab("t8_eclass_t8_to_vtk_corner_number", {(e, i): (VTK[e].index(i) if i < len(VTK[e]) else -1) for e in range(ne) for i in range(8)})

    def ftype(e, f):
        n = len(FACES[e][f])
        return {1: V, 2: L}.get(n) if DIM[e] < 3 else (T if n == 3 else Q)
    tab("t8_eclass_face_types", {(e, f): (ftype(e, f) if f < len(FACES[e]) else -1) for e in range(ne) for f in range(6)})
    d = {}
    for e in range(ne):
        for b in range(ne):
            n = 0
            if DIM[e] >= 1 and b == V:
                n = len(C[e])
            if DIM[e] >= 2 and b == L:
                n = len(EDGES_GEO[e])
            if DIM[e] == 3 and b in (Q, T):
                n = sum(1 for f in FACES[e] if len(f) == (4 if b == Q else 3))
            d[(e, b)] = n
    tab("t8_eclass_boundary_count", d)
    tab("t8_eclass_to_string", {(i,): s for i, s in enumerate(["Vertex", "Line", "Quad", "Triangle", "Hex", "Tet", "Prism", "Pyramid", "Invalid"])})
    tab("t8_element_corner_ref_coords", {(e, i, k): float(C[e][i][k]) for e in range(ne) for i in range(len(C[e])) for k in range(3)})
    cen = {}
    for e in range(ne):
        for k in range(3):
            s = [C[e][i][k] for i in range(len(C[e]))]
            cen[(e, k)] = float(F(sum(s), len(s)))
    tab("t8_element_centroid_ref_coords", cen)
    tab("t8_element_shape_max_num_corner", {(d_,): max(len(C[e]) for e in range(ne) if DIM[e] == d_) for d_ in range(4)})
    # external formats
    INV, CNT = 9, 8
    t = {i: INV for i in range(82)}
    t.update({1: V, 3: L, 5: T, 8: Q, 9: Q, 10: E, 11: H, 12: H, 13: R, 14: Y})
    tab("t8_cmesh_vtk_type_to_t8_type", {(i,): t[i] for i in range(82)})
    m = {i: CNT for i in range(16)}
    m.update({1: L, 2: T, 3: Q, 4: E, 5: H, 6: R, 7: Y, 15: V})
    tab("t8_msh_tree_type_to_eclass", {(i,): m[i] for i in range(16)})
    tab("t8_msh_tree_vertex_to_t8_vertex_num", {(e, i): MSH[e][i] for e in range(ne) for i in range(len(MSH[e]))})
    tab("t8_vertex_to_msh_vertex_num", {(e, i): MSH[e].index(i) for e in range(ne) for i in range(len(MSH[e]))})
    tab("t8_curved_eclass_num_nodes", {(e,): len(C[e]) + len(VTKQEDGE[e]) for e in range(ne)})
    tab("t8_curved_dim_max_nodes", {(d_,): max(len(C[e]) + len(VTKQEDGE[e]) for e in range(ne) if DIM[e] == d_) for d_ in range(4)})
    tab("t8_dim_max_nodes", {(d_,): max(len(C[e]) for e in range(ne) if DIM[e] == d_) for d_ in range(4)})
    tab("t8_curved_eclass_vtk_type", {(e,): VTKQUAD[e] for e in range(ne)})
    d = {}
    for e in range(ne):
        pts = [C[e][i] for i in VTKCURV[e]]
        pts = pts + [tuple(F(a + b, 2) for a, b in zip(pts[i], pts[j])) for i, j in VTKQEDGE[e]]
        for i, p in enumerate(pts):
            for k in range(3):
                d[(e, i, k)] = float(p[k])
    tab("t8_forest_vtk_point_to_element_ref_coords", d)
    pf = {(f, i): (FACES[R][f][i] if i < len(FACES[R][f]) else -1) for f in range(5) for i in range(4)}
    tab("t8_dprism_face_corner", pf)
    tab("t8_dprism_face_corners", pf)
    tab("T8_ELEMENT_DIM", {(e,): DIM[e] for e in range(ne)})
    tab("T8_ELEMENT_MAX_NUM_FACES", {(e,): max(1, len(FACES[e])) for e in range(ne)})
    tab("T8_ELEMENT_NUM_CHILDREN", {(e,): nch[e] for e in range(ne)})
    tab("T8_ELEMENT_NUM_CORNERS", {(e,): len(C[e]) for e in range(ne)})
    tab("T8_ELEMENT_NUM_FACES", {(e,): len(FACES[e]) for e in range(ne)})
    tab("T8_ELEMENT_MAX_NUM_FACECHILDREN", {(e,): (0 if e == V else nch[{1: V, 2: L, 3: T}.get(max(DIM[e], 1))] if DIM[e] < 3 else 4) for e in range(ne)})
    tab("T8_ELEMENT_NUM_EQUATIONS", {(V,): 0, (L,): 0, (Q,): 0, (T,): 1, (H,): 0, (E,): 3, (R,): 1, (Y,): 2})
    tab("lagrange_nodes", {(e, d_): v for e, r in {V: (1, 1), L: (2, 3), Q: (4, 9), T: (3, 6), H: (8, 27)}.items() for d_, v in enumerate(r)})
    # the axis along which each tet edge / the axes by which each tet face is parametrised: the coordinate must vary
    tab("t8_interpolation_coefficient_tet_edge", {(k,): v for k, v in enumerate([0, 0, 0, 2, 2, 1])})
    tab("t8_face_ref_coords_tet", {(f, i): v for f, r in enumerate([(2, 1), (0, 1), (0, 1), (0, 2)]) for i, v in enumerate(r)})
    return X


# ---------------------------------------------------------------- refinement
def tet(b):
    """corners of the unit-cube tetrahedron of type b, in order"""
    i = b // 2
    j = {0: 2, 1: 1, 2: 0, 3: 2, 4: 1, 5: 0}[b]
    u = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    p1 = u[i]
    p2 = add(p1, u[j])
    return [(0, 0, 0), p1, p2, (1, 1, 1)]


def tri(b):
    return [(0, 0, 0), ((1, 0, 0), (0, 1, 0))[b], (1, 1, 0)]


def pyra(t):
    if t == 6:
        return [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, 1)]
    return [(0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1), (0, 0, 0)]


def shape(t):
    return tet(t) if t < 6 else pyra(t)


TETF = [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]
PYF = {6: [(0, 2, 4), (1, 3, 4), (0, 1, 4), (2, 3, 4), (0, 1, 2, 3)],
       7: [(2, 3, 4), (0, 1, 4), (1, 3, 4), (0, 2, 4), (0, 1, 2, 3)]}


def facelist(t):
    return TETF if t < 6 else PYF[t]


def halfspaces(pts, dim):
    out = []
    for f in supporting_facets(pts, dim):
        if dim == 2:
            d = sub(pts[f[1]], pts[f[0]])
            n = (-d[1], d[0], 0)
        else:
            n = cross(sub(pts[f[1]], pts[f[0]]), sub(pts[f[2]], pts[f[0]]))
        if any(dot(n, sub(p, pts[f[0]])) < 0 for p in pts):
            n = tuple(-x for x in n)
        out.append((n, pts[f[0]]))
    return out


def inside(hs, p):
    return all(dot(n, sub(p, q)) >= 0 for n, q in hs)


def scale(pts, s=2):
    return [tuple(s * x for x in p) for p in pts]


def cube(c):
    return (c & 1, c >> 1 & 1, c >> 2 & 1)


def kids(parent_pts, types, shp, dim):
    """(cid, type) of all half-size elements contained in the parent, in SFC order"""
    hs = halfspaces(scale(parent_pts), dim)
    out = []
    for c in range(1 << dim):
        for t in types:
            if all(inside(hs, add(cube(c), p)) for p in shp(t)):
                out.append((c, t))
    return sorted(out)


def mid(a, b):
    return tuple(x + y for x, y in zip(a, b))  # in half-size units


def bey(pts, dim):
    """Bey's children as vertex sets in half-size units (vertices doubled)"""
    x = pts
    m = lambda i, j: mid(x[i], x[j])
    if dim == 2:
        return [[m(0, 0), m(0, 1), m(0, 2)], [m(0, 1), m(1, 1), m(1, 2)], [m(0, 2), m(1, 2), m(2, 2)], [m(0, 1), m(0, 2), m(1, 2)]]
    return [[m(0, 0), m(0, 1), m(0, 2), m(0, 3)], [m(0, 1), m(1, 1), m(1, 2), m(1, 3)],
            [m(0, 2), m(1, 2), m(2, 2), m(2, 3)], [m(0, 3), m(1, 3), m(2, 3), m(3, 3)],
            [m(0, 1), m(0, 2), m(0, 3), m(1, 3)], [m(0, 1), m(0, 2), m(1, 2), m(1, 3)],
            [m(0, 2), m(0, 3), m(1, 3), m(2, 3)], [m(0, 2), m(1, 2), m(1, 3), m(2, 3)]]


def simplex_tables(pre, X, dim):
    types = range(2 if dim == 2 else 6)
    shp = tri if dim == 2 else tet
    nc = 1 << dim
    K = {b: kids(shp(b), types, shp, dim) for b in types}
    assert all(len(k) == nc for k in K.values())
    beyid = {}
    for b in types:
        for i, vs in enumerate(bey(shp(b), dim)):
            for (c, t) in K[b]:
                if sorted(vs) == sorted(add(cube(c), p) for p in shp(t)):
                    beyid[(b, i)] = (c, t)
    assert len(beyid) == nc * len(types)
    inv = {}
    for (b, i), (c, t) in beyid.items():
        inv[(b, c, t)] = i
    par = {(c, t): b for b in types for (c, t) in K[b]}
    X[pre + "cid_type_to_parenttype"] = {(c, t): par[(c, t)] for c in range(nc) for t in types}
    X[pre + "type_of_child"] = {(b, i): beyid[(b, i)][1] for b in types for i in range(nc)}
    X[pre + "type_of_child_morton"] = {(b, i): K[b][i][1] for b in types for i in range(nc)}
    X[pre + "index_to_bey_number"] = {(b, i): inv[(b,) + K[b][i]] for b in types for i in range(nc)}
    X[pre + "type_cid_to_beyid"] = {(t, c): inv[(par[(c, t)], c, t)] for t in types for c in range(nc)}
    X[pre + "parenttype_beyid_to_Iloc"] = {(b, i): K[b].index(beyid[(b, i)]) for b in types for i in range(nc)}
    X[pre + "type_cid_to_Iloc"] = {(t, c): K[par[(c, t)]].index((c, t)) for t in types for c in range(nc)}
    X[pre + "parenttype_Iloc_to_type"] = {(b, i): K[b][i][1] for b in types for i in range(nc)}
    X[pre + "parenttype_Iloc_to_cid"] = {(b, i): K[b][i][0] for b in types for i in range(nc)}
    # anchor of Bey child i is the midpoint of x_0 and x_v
    d = {}
    for i in range(nc):
        vs = set()
        for b in types:
            c, t = beyid[(b, i)]
            cand = {v for v in range(dim + 1) if mid(shp(b)[0], shp(b)[v]) == cube(c)}
            vs = cand if not vs else vs & cand
        d[(i,)] = min(vs)
    X[pre + "beyid_to_vertex"] = d
    return K


def refinement():
    X = {}
    simplex_tables("t8_dtri_", X, 2)
    KT = simplex_tables("t8_dtet_", X, 3)
    X["t8_dtri_corner_face"] = {(v, i): f for v in range(3) for i, f in enumerate([f for f in range(3) if f != v])}
    # tets: children on a face (children ids), order: by two-dimensional position = increasing local index
    d = {}
    for b in range(6):
        for f in range(4):
            on = []
            P = scale(tet(b))
            pf = [P[i] for i in TETF[f]]
            n = cross(sub(pf[1], pf[0]), sub(pf[2], pf[0]))
            for i, (c, t) in enumerate(KT[b]):
                vs = [add(cube(c), p) for p in tet(t)]
                if any(all(dot(n, sub(vs[k], pf[0])) == 0 for k in ff) for ff in TETF):
                    on.append(i)
            assert len(on) == 4
            for k in range(4):
                d[(b, f, k)] = on[k]
    X["t8_dtet_face_child_id_by_type"] = d
    # parent_type, type -> face of the child lying inside a face of the parent
    d = {}
    for b in range(6):
        for t in range(6):
            if b == t:
                d[(b, t)] = -1
                continue
            faces = set()
            P = scale(tet(b))
            for (c, tt) in KT[b]:
                if tt != t:
                    continue
                vs = [add(cube(c), p) for p in tet(t)]
                for f in range(4):
                    pf = [P[i] for i in TETF[f]]
                    n = cross(sub(pf[1], pf[0]), sub(pf[2], pf[0]))
                    for ff in range(4):
                        if all(dot(n, sub(vs[k], pf[0])) == 0 for k in TETF[ff]):
                            faces.add(ff)
            d[(b, t)] = faces.pop() if len(faces) == 1 else -1
    X["t8_dtet_parent_type_type_to_face"] = d
    # boundary triangle of a tet face lying in a root face (category 1: keep x,z.. of faces 0/1 ; 2: x,y-plane)
    pin = [[(1, 0), (1, 0), (2, 0), (2, 0)], [(1, 1), (-1, 0), (-1, 0), (-1, 0)], [(-1, 0), (-1, 0), (1, 1), (-1, 1)],
           [(-1, 1), (-1, 1), (-1, 0), (-1, 0)], [(-1, 0), (2, 1), (-1, 1), (-1, 1)], [(-1, 1), (-1, 1), (-1, 1), (2, 1)]]
    X["t8_dtet_type_face_to_boundary"] = {(b, f, i): pin[b][f][i] for b in range(6) for f in range(4) for i in range(2)}
    # pyramids
    PT = (0, 3, 6, 7)
    K = dict(KT)
    for t in (6, 7):
        K[t] = kids(pyra(t), PT, shape, 3)
        assert len(K[t]) == 10
    X["t8_dpyramid_parenttype_Iloc_to_type"] = {(b, i): (K[b][i][1] if i < len(K[b]) else -1) for b in range(8) for i in range(10)}
    X["t8_dpyramid_parenttype_Iloc_to_cid"] = {(b, i): (K[b][i][0] if i < len(K[b]) else -1) for b in range(8) for i in range(10)}
    pp = {ct: b for b in (6, 7) for ct in K[b]}       # parent that is a pyramid
    tp = {ct: b for b in range(6) for ct in K[b]}     # parent that is a tet
    X["t8_dpyramid_type_cid_to_Iloc"] = {
        (t, c): (K[pp[(c, t)]].index((c, t)) if (c, t) in pp else K[tp[(c, t)]].index((c, t)) if (c, t) in tp else -1)
        for t in range(8) for c in range(8)}
    X["t8_dpyramid_cid_type_to_parenttype"] = {(c, t): (tp.get((c, t), -1) if t < 6 else pp.get((c, t), -1)) for c in range(8) for t in range(8)}
    d = {}
    for t in (6, 7):
        for i in range(10):
            ps = [b for b in (6, 7) if K[b][i][1] == t]
            if ps:  # no entry is required where no pyramid of this type has this local index
                d[(t - 6, i)] = ps[0] if len(ps) == 1 else tuple(ps)
    X["t8_dpyramid_type_Iloc_to_parenttype"] = d
    X["t8_dpyramid_type_cid_to_parenttype"] = {(t - 6, c): pp.get((c, t), -1) for t in (6, 7) for c in range(8)}
    X["t8_dtet_type_cid_to_pyramid_parenttype"] = {(t, c): (pp.get((c, t), -1)) for t in range(6) for c in range(8)}
    X["t8_dpyramid_parenttype_iloc_pyra_w_lower_id"] = {(b - 6, i): sum(1 for (c, t) in K[b][:i] if t >= 6) for b in (6, 7) for i in range(10)}
    # neighbour across a face inside the cube partition {6, 7, 0, 3}
    d = {}
    for t in (6, 7):
        for f in range(5):
            fv = sorted(pyra(t)[i] for i in PYF[t][f])
            r = None
            if f < 4:
                for tt in (0, 3):
                    for ff in range(4):
                        for sh in product((-1, 0, 1), repeat=3):
                            if sorted(add(sh, tet(tt)[i]) for i in TETF[ff]) == fv:
                                assert r in (None, ff)
                                r = ff
            else:
                r = 4
            d[(t - 6, f)] = r
    X["t8_dpyramid_type_face_to_nface"] = d
    d1, d2 = {}, {}
    for b in (6, 7):
        P = scale(pyra(b))
        for f in range(5):
            pf = [P[i] for i in PYF[b][f]]
            n = cross(sub(pf[1], pf[0]), sub(pf[2], pf[0]))
            on = []
            for i, (c, t) in enumerate(K[b]):
                vs = [add(cube(c), p) for p in shape(t)]
                for ff, fl in enumerate(facelist(t)):
                    if all(dot(n, sub(vs[k], pf[0])) == 0 for k in fl):
                        on.append((i, ff))
            assert len(on) == 4, (b, f, on)
            for k, (i, ff) in enumerate(on):
                d1[(b - 6, f, k)] = i
                d2[(b - 6, f, k)] = ff
    X["t8_dpyramid_type_face_to_children_at_face"] = d1
    X["t8_dpyramid_type_face_to_child_face"] = d2
    X["t8_dpyramid_face_corner"] = {(t - 6, f, i): (PYF[t][f][i] if i < len(PYF[t][f]) else -1) for t in (6, 7) for f in range(5) for i in range(4)}
    # a Bey corner child i of a tet does not touch the face opposite ... : -1 marks "the neighbour may leave the tet"
    X["t8_dpyramid_face_childid_to_is_inside"] = {(f, i): (-1 if i == f or i >= 4 else 0) for f in range(4) for i in range(8)}
    # extrusion of a boundary triangle on root face f (pinned convention, tet part from geometry of type 0/3 at that face)
    X["t8_dpyramid_tritype_rootface_to_pyratype"] = {(0, f): 6 for f in range(4)} | {(1, 0): 0, (1, 1): 0, (1, 2): 3, (1, 3): 3}
    X["t8_dpyramid_tritype_rootface_to_tettype"] = {(0, 0): 2, (0, 1): 1, (0, 2): 1, (0, 3): 2, (1, 0): 0, (1, 1): 0, (1, 2): 3, (1, 3): 3}
    X["t8_dpyramid_tritype_rootface_to_face"] = {(0, 0): 2, (0, 1): 0, (0, 2): 2, (0, 3): 0, (1, 0): 1, (1, 1): 0, (1, 2): 1, (1, 3): 0}
    # prism = triangle x line: children on face
    d = {}
    K2 = {b: kids(tri(b), (0, 1), tri, 2) for b in (0, 1)}
    trif = [(1, 2), (0, 2), (0, 1)]
    for b in (0, 1):
        P = scale(tri(b))
        for f in range(3):
            pf = [P[i] for i in trif[f]]
            dd = sub(pf[1], pf[0])
            on = []
            for i, (c, t) in enumerate(K2[b]):
                vs = [add(cube(c), p) for p in tri(t)]
                if any(all(cross(dd, sub(vs[k], pf[0])) == (0, 0, 0) for k in ff) for ff in trif):
                    on.append(i)
            assert len(on) == 2
            for k, ch in enumerate([on[0], on[1], on[0] + 4, on[1] + 4]):
                d[(b, f * 4 + k)] = ch
    X["children_at_face"] = d
    return X


def get(val, idx):
    for i in idx:
        if not isinstance(val, list) or i >= len(val):
            return None
        val = val[i]
    return val


def compare(rep, P, X, minimum):
    """every table of these names that the current source defines, whatever file or namespace it is in"""
    found = 0
    for name, exp in sorted(X.items()):
        gs = [g for g in P.globals_all if g["n"] == name and not g.get("extern") and "val" in g]
        if not gs:
            rep.note("no constant table named %s in this tree: nothing to compare" % name)
            continue
        for g in gs:
            found += 1
            bad = []
            for idx, want in sorted(exp.items()):
                have = get(g["val"], idx)
                same = (have in want if isinstance(want, tuple) else have == want) if not isinstance(want, float) else (have is not None and abs(float(have) - want) < 1e-12)
                if not same:
                    bad.append((idx, have, want))
            rep.ok("table entries", n=len(exp))
            rep.ok("tables", "%s (%s:%d, %d entries)" % (g["qn"], g["_file"], g["l"], len(exp)))
            for idx, have, want in bad:
                rep.bad("%s%s" % (g["qn"], "".join("[%d]" % i for i in idx)),
                        "table %s%s is %r; the reference geometry requires %r" % (g["qn"], "".join("[%d]" % i for i in idx), have, want),
                        "%s:%d" % (g["_file"], g["l"]))
    rep.need("tables", minimum)


def run_P01(P, rep):
    compare(rep, P, expected(), 10)


def run_P02(P, rep):
    compare(rep, P, refinement(), 8)
