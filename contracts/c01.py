"""C01: per-pixel weights (ImageWeights::new), over the contracts of the hull (C12), the triangulation (C13) and its search (C02)."""
from clib import *
import c12, search
from search import Tri
TOL = z3.Q(1, 10 ** 6)
class Build:
    def __init__(self, P):
        W = self.W = Tri(P, 5); e, p, st = self.e, self.p, self.st = W.e, W.p, W.st
        b = self.b = body1(p, r'lib\.rs\|ImageWeights::new$')
        img = e.T[lty(b, 1)]['to']
        im = self.im = e.symbolic(st, img, 'image')
        self.I = Ptr(e.alloc(st, im, 'image'))
        self.n = MUL(im.w, im.h)
        # the hull of the pixels
        self.hn = z3.Int('hull vertices'); st.axiom(AND(self.hn >= 0, self.hn <= 2 ** 40, W.V == self.hn))
        self.hp = z3.Function('hull_point', I, I, R)
        self.calls = []
        for x in body(p, r'convex_hull\.rs\|from_iter$'): e.contracts[p.body_id(x)] = self.hull
        for x in body(p, r'delaunay\.rs\|Delaunay::from_arrays$'): e.contracts[p.body_id(x)] = self.tri
        W.contracts(('Delaunay::simplex_searcher', self.searcher), ('SimplexSearcher::find_simplex_mut', self.find))
        self.G = e.alloc(st, Agg(None, [False, F(Fraction(0))]), 'last failed attempt')
    def pixel(self, i):
        """the colour-and-position point of pixel i"""
        im = self.im; x, y = MODF(Z(i), Z(im.w)), DIVF(Z(i), Z(im.w)); c = im.data.get(i).f[0]
        return [ZR(fdiv(F(ZR(c.get(k))), F(Fraction(255))).v) for k in range(3)] + [ZR(fdiv(F(ZR(x)), F(ZR(im.w))).v), ZR(fdiv(F(ZR(y)), F(ZR(im.h))).v)]
    def hull(self, ctx, st, args):
        e = self.e; out = []
        cx = engine.Ctx(e, None, 0, None, None, 'points')
        for s, q in models.to_seq(cx, st.fork(), models.to_iter(cx, st, args[0])):
            j = z3.Int('pixel'); t = s.fork(); t.axiom(AND(j >= 0, j < Z(q.n)))
            goal(e, s, EQ(q.n, self.n), 'the hull is taken of as many points as there are pixels')
            goal(e, t, AND(*[AND(NOT(a.nan), EQ(ZR(a.v), b)) for a, b in zip(q.get(j).cells, self.pixel(j))]), 'the hull is that of the pixels\' colours and positions')
            ty = e.T[ctx.dty]; N = 5
            rv = lambda f: lambda i: Mat(N, 1, [F(f(Z(i), Z(k))) for k in range(N)])
            UF = lambda nm, k, r=I: z3.Function(nm, *([I] * k + [r]))
            nf = z3.Int('hull facets'); s.axiom(nf >= 0)
            iv = lambda f: lambda i: Mat(N, 1, [f(Z(i), Z(k)) for k in range(N)])
            val = {'vertices': Seq(self.hn, rv(self.hp), ('sym', 'hull vertices')), 'facets': Seq(nf, iv(UF('hf', 2)), ('sym', 'hull facets')), 'neighbors': Seq(nf, iv(UF('hnb', 2)), ('sym', 'hull neighbours')),
                   'offsets_and_normals': Seq(nf, lambda i: Agg(None, [rv(UF('hnrm', 2, R))(i), F(UF('hoff', 1, R)(Z(i)))]), ('sym', 'hull planes'))}
            names = [n for n, _ in ty['variants'][0]['fields']]
            if set(names) != set(val): raise Unsupported('fields of the hull')
            out.append((s, Agg(ctx.dty, [val[n] for n in names])))
        return out
    def tri(self, ctx, st, args):
        e = self.e; a = args[0]; s = st.fork()
        base = e.load(s, a.obj, a.path)
        j = z3.Int('vertex'); t = s.fork(); t.axiom(AND(j >= 0, j < Z(a.len)))
        goal(e, s, EQ(a.len, self.hn), 'all the hull\'s vertices are triangulated')
        x = base.get(ADD(a.start, j))
        goal(e, t, AND(*[AND(NOT(x.get(k).nan), EQ(ZR(x.get(k).v), self.hp(j, Z(k)))) for k in range(5)]), 'the triangulation is that of the hull\'s vertices')
        return [(s, st.store[self.W.D])]
    def searcher(self, ctx, st, args):
        s = st.fork(); d = args[0]; W = self.W; v = s.store[W.S]; k = W.snames.index('delaunay')
        if not isinstance(d, Ptr): raise Unsupported('searcher')
        self.where = d
        return [(s, Agg(v.ty, [d if i == k else x for i, x in enumerate(v.f)]))]
    def find(self, ctx, st, args):
        """C02: nothing, or a simplex and the coordinates of the point in it, each within the tolerance"""
        W, e = self.W, self.e; sp, pp, out = args
        S = e.load(st, sp.obj, sp.path); q = e.load(st, pp.obj, pp.path)
        eps = S.f[W.snames.index('eps')]; g = st.store[self.G]
        again = AND(g.f[0], NOT(eps.nan), EQ(ZR(eps.v), 2 * ZR(g.f[1].v)))
        goal(e, st, OR(ZR(eps.v) <= TOL, again), 'every pixel is searched with a tolerance of at most a millionth first, and with a doubled one only after failing')
        goal(e, st, AND(NOT(eps.nan), ZR(eps.v) >= 0), 'the tolerance is not negative')
        res = []
        k = W.snames.index('start_hint')
        for found in (True, False):
            s = st.fork(); ok = e.const(s, 'found', B); j = e.const(s, 'simplex', I)
            hd, hv = e.const(s, 'hint?', I), e.const(s, 'hint', I)
            s.axiom(AND(hd >= 0, hd <= 1, IMP(hd == 1, AND(hv >= 0, hv < W.M))))
            fs = list(S.f); old = fs[k]; fs[k] = Agg(old.ty, [En(old.f[0].ty, hd, {0: (), 1: (hv,)})])
            e.store(s, sp.obj, sp.path, Agg(S.ty, fs))
            c = [e.const(s, f'coord{r}', R) for r in range(6)]
            if found:
                s.assume(ok); rt = models.SQRT(ZR(eps.v))
                s.axiom(AND(j >= 0, j < W.M, EQ(sum(c[1:], c[0]), 1), *[AND(OR(x >= -ZR(eps.v), x >= -rt), x <= 1 + ZR(eps.v)) for x in c],
                    *[EQ(sum((c[r] * W.px(W.sv(j, Z(r)), Z(m)) for r in range(1, 6)), c[0] * W.px(W.sv(j, Z(0)), Z(m))), ZR(q.cells[m].v)) for m in range(5)]))
                e.store(s, out.obj, out.path, Mat(6, 1, [F(x) for x in c]))
                s.store[self.G] = Agg(None, [False, F(Fraction(0))])
                res.append((s, En(ctx.dty, 1, {1: (Agg(e.T[ctx.dty]['args'][0], [S.f[W.snames.index('delaunay')] if x == 'delaunay' else j for x, _ in W.fields(e.T[ctx.dty]['args'][0])]),)})))
            else:
                s.assume(NOT(ok))
                e.store(s, out.obj, out.path, Mat(6, 1, [F(e.const(s, 'junk', R), e.const(s, 'junknan', B)) for _ in range(6)]))
                s.store[self.G] = Agg(None, [True, eps])
                res.append((s, En(ctx.dty, 0, {0: ()})))
        return res
def doubled(H):
    """candidate invariant: the tolerance is the initial one, or twice that of the attempt that has just failed"""
    def f(S, st0, s):
        W = H.W; k = W.snames.index('eps')
        def g(st, j, kk):
            out = []
            for o, v in st.store.items():
                if isinstance(v, Agg) and v.ty == W.sty and o != W.S:
                    eps, gh = v.f[k], st.store[H.G]
                    if not isinstance(eps, F): return False
                    out.append(OR(AND(NOT(eps.nan), ZR(eps.v) >= 0, ZR(eps.v) <= TOL), AND(gh.f[0], NOT(eps.nan), EQ(ZR(eps.v), 2 * ZR(gh.f[1].v)), ZR(gh.f[1].v) >= 0)))
            return AND(*out)
        g.name = 'tolerance'
        return [g]
    return f
def new(P):
    H = Build(P); e, p, st, W = H.e, H.p, H.st, H.W
    e.variants = None; e.quantified.append(doubled(H))
    if not cover(P, e, st, 'new'): raise Unsupported('precondition')
    outs = e.call_body(st, H.b, [H.I])
    if not outs: raise Unsupported('no returning path')
    i = z3.Int('pixel'); j = z3.Int('vertex')
    for s, v in outs:
        f = dict(zip([x for x, _ in e.T[v.ty]['variants'][0]['fields']], v.f))
        if set(f) != {'weights', 'ch_rgb_vertices', 'width', 'height'}: raise Unsupported('fields of the weights')
        m, q, im = f['weights'], f['ch_rgb_vertices'], H.im
        goal(e, s, AND(EQ(f['width'], im.w), EQ(f['height'], im.h)), 'the recorded width and height are the image\'s')
        goal(e, s, AND(EQ(m.r, H.n), EQ(m.c, q.n)), 'one row per pixel and one column per vertex')
        goal(e, s, AND(EQ(q.n, W.V)), 'one colour per vertex of the triangulation')
        for x in (m.ri, m.ci, m.v): goal(e, s, EQ(x.n, MUL(6, H.n)), 'six weights for every pixel')
        t = s.fork(); t.axiom(AND(i >= 0, i < Z(H.n), im.w > 0))
        at = [6 * i + r for r in range(6)]
        want = H.pixel(i); c = im.data.get(i).f[0]
        for r in range(6): goal(e, t, EQ(m.ri.get(at[r]), i), f'weight {r} of every pixel is in its own row')
        vs = [m.v.get(a) for a in at]
        for r in range(6):
            goal(e, t, AND(LE(0, m.ci.get(at[r])), LT(m.ci.get(at[r]), W.V), NOT(vs[r].nan)), f'weight {r} of every pixel belongs to a vertex')
        goal(e, t, EQ(sum((ZR(x.v) for x in vs[1:]), ZR(vs[0].v)), 1), 'the weights of every pixel add up to one')
        for k in range(3):
            t0 = t1 = z3.RealVal(0); y = z3.Real('pixel component'); w = [z3.Real(f'weight {r}') for r in range(6)]; x = [z3.Real(f'stored {r}') for r in range(6)]
            for r in range(6):
                ci = m.ci.get(at[r])
                t0 = t0 + ZR(vs[r].v) * W.px(Z(ci), Z(k)); t1 = t1 + w[r] * x[r]
                goal(e, t, EQ(ZR(q.get(ci).cells[k].v), 255 * W.px(Z(ci), Z(k))), f'component {k} of the colour stored for vertex {r} is the vertex\'s')
            goal(e, t, EQ(t0, z3.ToReal(Z(c.get(k))) / 255), f'component {k} of every pixel is combined from the vertices exactly')
            u = State(); u.axiom(EQ(t1, y / 255))
            t2 = z3.RealVal(0)
            for r in range(6): t2 = t2 + w[r] * (255 * x[r])
            goal(e, u, EQ(t2, y), f'so component {k} is combined from the stored colours exactly')
    discharge(P, e, p.body_id(H.b))
def views(P, name, want):
    p = prog(P); e = Engine(p); b = body1(p, r'lib\.rs\|ImageWeights::%s$' % name); st = State()
    v = e.symbolic(st, e.T[lty(b, 1)]['to'], 'weights')
    f = dict(zip([x for x, _ in e.T[v.ty]['variants'][0]['fields']], v.f))
    for s, r in e.call_body(st, b, [Ptr(e.alloc(st, v, 'weights'))]): goal(e, s, EQ(r, f[want]), f'{name} is the recorded one')
    discharge(P, e, p.body_id(b))
def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.trust("qhull: every vertex of a hull is a vertex of the triangulation of the hull's vertices")
    P.assume('pixels span the colour-and-position space, so that qhull builds a hull', "ConvexHull (C12), Delaunay (C13) and SimplexSearcher::find_simplex_mut (C02, C03) satisfy their own contracts",
             'the search with doubled tolerances comes to an end (termination is not proved; bounded run)')
    attempt(P, 'new', 'lib.rs', lambda: new(P))
    for n in ('width', 'height'): attempt(P, n, 'lib.rs', lambda: views(P, n, n))
