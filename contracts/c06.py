"""C06: palettes are accepted exactly when every colour is a distinct hull vertex (DecomposedImage::new)."""
from clib import *
import c12
from c08 import level
def weights(eng, st, ty):
    """an arbitrary ImageWeights that satisfies its invariant: width*height rows, one column per stored vertex"""
    T = eng.T[ty]; fs = T['variants'][0]['fields']
    v = eng.symbolic(st, ty, 'weights')
    g = dict(zip([n for n, _ in fs], v.f))
    if set(g) != {'weights', 'ch_rgb_vertices', 'width', 'height'}: raise Unsupported('fields of the weights')
    w, h, q, m = g['width'], g['height'], g['ch_rgb_vertices'], g['weights']
    m2 = type(m)(w * h, q.n, m.ri, m.ci, m.v)
    st.axiom(AND(w >= 0, h >= 0, w * h <= 2 ** 60))
    f = [m2 if x is m else x for x in v.f]
    return Agg(v.ty, f), m2, q, w, h
class Palette:
    """DecomposedImage::new up to the star triangulation, whose own contract is C04's"""
    def __init__(self, P):
        V = self.V = c12.View(P, 3); p, e, st = V.p, V.e, V.st; self.p, self.e, self.st = p, e, st
        b = self.b = body1(p, r'lib\.rs\|DecomposedImage::new$')
        W, m, q, w, h = weights(e, st, e.T[lty(b, 1)]['to'])
        self.w, self.h = w, h
        self.W = Ptr(e.alloc(st, W, 'weights'))
        n = self.n = z3.Int('colours'); st.axiom(AND(n >= 0, n <= 2 ** 40))
        c = z3.Function('colour', I, I, I); self.col = c
        rgb = e.T[e.T[lty(b, 2)]['to']]['elem']
        def px(j): return Agg(rgb, [SeqL([c(Z(j), Z(k)) for k in range(3)])])
        e.declax['colour'] = lambda t: AND(LE(0, t), LE(t, 255))
        self.pal = Sl(e.alloc(st, Seq(n, px, ('sym', 'palette')), 'palette'), (), 0, n)
        self.src = z3.Function('palette colour of the vertex', I, I)
        self.seen = []
        for x in body(p, r'convex_hull\.rs\|from_iter$'):
            if 'Const<3>' in x['name'] or True: e.contracts[p.body_id(x)] = self.hull
        star = body1(p, r'palette\.rs\|.*compute_star_triangulation_coordinates$')
        e.contracts[p.body_id(star)] = self.star
    def hull(self, ctx, st, args):
        """the convex hull of the points: its vertices are some of them, all different"""
        V, e = self.V, self.e; t = st.fork(); out = []
        cx = engine.Ctx(e, None, 0, None, None, 'points')
        for s, q in models.to_seq(cx, t, models.to_iter(cx, t, args[0])):
            s = s.fork(); v, k = z3.Int('@t'), z3.Int('@u')
            x = q.get(z3.Int('point'))
            self.seen.append((s, q))
            s.axiom(AND(V.nv <= Z(q.n), V.nv >= 0))
            at = z3.Function('vertex at', R, R, R, I)
            s.facts = s.facts + (Fact(v, IMP(AND(v >= 0, v < V.nv), AND(self.src(v) >= 0, self.src(v) < Z(q.n), EQ(at(*[V.pt(v, Z(c)) for c in range(3)]), v),
                *[EQ(V.pt(v, Z(c)), ZR(q.get(self.src(v)).cells[c].v)) for c in range(3)])), 'a vertex is one of the points, and no two are at the same place'),)
            out.append((s, V.h))
        return out
    def star(self, ctx, st, args):
        e, V = self.e, self.V; s = st.fork()
        px = args[2]
        s.ev = s.ev + (('star', args),)
        a = z3.Function('coordinate in the palette', I, I, R)
        return [(s, MatF(px.len, V.nv, lambda i, j: F(a(Z(i), Z(j)))))]
def new(P):
    H = Palette(P); V, e, p, st, n = H.V, H.e, H.p, H.st, H.n
    if not cover(P, e, st, 'new'): raise Unsupported('precondition')
    outs = e.call_body(st, H.b, [H.W, H.pal])
    if not outs: raise Unsupported('no returning path')
    src = H.src; i, j, v_ = z3.Int('colour'), z3.Int('other colour'), z3.Int('@v')
    same_col = lambda a, b: AND(*[EQ(H.col(a, Z(k)), H.col(b, Z(k))) for k in range(3)])
    is_at = lambda v, a: AND(*[EQ(V.pt(v, Z(k)), ZR(H.col(a, Z(k)))) for k in range(3)])
    rng = lambda a: AND(a >= 0, a < n)
    vert = z3.Function('vertex of the colour', I, I)
    oks = 0
    for s, v in outs:
        if not (isinstance(v, En) and v.d in (0, 1)): raise Unsupported('result')
        if v.d == 1:
            t = s.fork(); t.axiom(n >= 4)
            a, b = z3.Int('@a'), z3.Int('@b')
            t.facts = t.facts + (engine.FactN([a, b], IMP(AND(rng(a), rng(b), a != b), NOT(same_col(a, b))), 'distinct'),
                                 Fact(a, IMP(rng(a), AND(vert(a) >= 0, vert(a) < V.nv, is_at(vert(a), a))), 'all are vertices'))
            goal(e, t, False, 'a palette of at least four distinct hull vertices is accepted')
            continue
        oks += 1
        goal(e, s, n >= 4, 'an accepted palette has at least four colours')
        t = s.fork(); t.axiom(AND(rng(i), rng(j), i < j)); goal(e, t, NOT(same_col(i, j)), 'the colours of an accepted palette are distinct')
        t = s.fork(); t.axiom(rng(i)); t.facts = t.facts + (Fact(v_, IMP(AND(v_ >= 0, v_ < V.nv), NOT(is_at(v_, i))), 'no vertex is at the colour'),)
        goal(e, t, False, 'every colour of an accepted palette is a vertex of its hull')
        # as many vertices as colours: different vertices are different colours, every colour is some vertex, different colours are different vertices
        t = s.fork(); t.axiom(AND(i >= 0, i < V.nv, j >= 0, j < V.nv, EQ(src(i), src(j)))); goal(e, t, AND(rng(src(i)), i == j), 'different vertices are different colours')
        f = dict(zip([x for x, _ in e.T[v.p[0][0].ty]['variants'][0]['fields']], v.p[0][0].f))
        if set(f) != {'matrix', 'width', 'height'}: raise Unsupported('fields of the decomposed image')
        goal(e, s, EQ(f['matrix'].c, V.nv), 'one channel per vertex of the palette\'s hull')
        goal(e, s, AND(EQ(f['width'], H.w), EQ(f['height'], H.h)), 'the dimensions are the image\'s')
        goal(e, s, EQ(f['matrix'].r, H.w * H.h), 'one row of weights per pixel')
        st_ = [x for x in s.ev if x[0] == 'star']
        if len(st_) != 1: raise Unsupported('star triangulation')
        a = st_[0][1]
        goal(e, s, isinstance(a[0], Sl) and a[0].obj == H.pal.obj and same(a[0].start, 0) and same(a[0].len, n), 'the coordinates are those in this palette')
    if not oks: raise Unsupported('no path accepts a palette')
    discharge(P, e, p.body_id(H.b))
def views(P, name, want):
    """num_channels, width, height"""
    import c08
    p = prog(P); e = Engine(p); b = body1(p, r'lib\.rs\|DecomposedImage::%s$' % name); st = State()
    self_, m, w, h = c08.decomposed(e, st, b)
    for s, v in e.call_body(st, b, [self_]): goal(e, s, EQ(v, {'c': m.c, 'w': w, 'h': h}[want]), f'{name} is the decomposed image\'s own')
    discharge(P, e, p.body_id(b))
def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.trust('pigeonhole: finite sets that inject into each other have equally many elements',
            "ConvexHull's contract (C12 over qhull): the vertices are distinct and each is one of the points given")
    P.assume('ImageWeights invariant: width*height rows, one column per stored vertex (established by the constructor, C01)',
             "compute_star_triangulation_coordinates returns one row per value and one column per vertex (C04)",
             'palettes span the colour space (flat ones make qhull fail before this point)')
    attempt(P, 'new', 'lib.rs', lambda: new(P))
    for n, w in (('num_channels', 'c'), ('width', 'w'), ('height', 'h')): attempt(P, n, 'lib.rs', lambda: views(P, n, w))
