"""The palette computation over abstract hulls: every hull is named by a number, and what C12 proves of
a hull's accessors is used by running the accessors themselves on the named hull's arrays."""
from clib import *
from engine import FactN

class Hulls:
    def __init__(self, P):
        p = self.p = prog(P); e = self.e = Engine(p); st = self.st = State()
        b = [b for b in body(p, r'convex_hull\.rs\|ConvexHull::facets$') if 'Const<3>' in b['name']][0]
        self.hty = e.T[lty(b, 1)]['to']
        fs = self.fields = [n for n, _ in e.T[self.hty]['variants'][0]['fields']]
        if set(fs) != {'vertices', 'facets', 'neighbors', 'offsets_and_normals'}: raise Unsupported('fields of the hull')
        UF = lambda nm, k, r=I: z3.Function(nm, *([I] * k + [r]))
        nv, nf, self.pt = UF('vertex_count', 1), UF('facet_count', 1), UF('hull_vertex', 3, R)
        self.nv, self.nf = lambda h: nv(Z(h)), lambda h: nf(Z(h))
        fv, nb, nrm, off = self.fv, self.nb, self.nrm, self.off = UF('facet_vertex', 3), UF('facet_neighbour', 3), UF('facet_normal', 3, R), UF('facet_offset', 2, R)
        # every hull: at least a simplex, and what it refers to exists (C12)
        e.declax['vertex_count'] = e.declax['facet_count'] = lambda t: AND(t >= 4, t <= 2 ** 40)
        e.declax['facet_vertex'] = lambda t: AND(t >= 0, t < nv(t.arg(0)))
        e.declax['facet_neighbour'] = lambda t: AND(t >= 0, t < nf(t.arg(0)))
        iv = lambda f, h: lambda i: Mat(3, 1, [f(Z(h), Z(i), Z(k)) for k in range(3)])
        rv = lambda f, h: lambda i: Mat(3, 1, [F(f(Z(h), Z(i), Z(k))) for k in range(3)])
        def mk(h):
            val = {'vertices': Seq(nv(Z(h)), rv(self.pt, h), ('sym', 'vertices')), 'facets': Seq(nf(Z(h)), iv(fv, h), ('sym', 'facets')), 'neighbors': Seq(nf(Z(h)), iv(nb, h), ('sym', 'neighbors')),
                   'offsets_and_normals': Seq(nf(Z(h)), lambda i: Agg(None, [rv(nrm, h)(i), F(off(Z(h), Z(i)))]), ('sym', 'planes'))}
            return Agg(self.hty, [val[n] for n in fs])
        self.mk = mk
    def value(self, h): return IdAgg(h, self.mk)
    def point(self, h, i): return [self.pt(Z(h), Z(i), Z(k)) for k in range(3)]
    def name(self, st, p):
        """the hull a reference points to"""
        v = p
        while isinstance(v, Ptr): v = self.e.load(st, v.obj, v.path)
        if not isinstance(v, IdAgg) or v.mk is not self.mk: raise Unsupported('a hull the contract does not know')
        return v.h
    def points(self, ctx, st, it):
        cx = engine.Ctx(self.e, None, 0, None, None, 'points')
        return models.to_seq(cx, st.fork(), models.to_iter(cx, st, it))
    def deref(self, st, v):
        while isinstance(v, Ptr): v = self.e.load(st, v.obj, v.path)
        return v
    def contract(self, pat, f, pick=None):
        bs = [b for b in body(self.p, pat) if pick is None or pick(b)]
        for b in bs: self.e.contracts[self.p.body_id(b)] = f
def vec(m): return [ZR(c.v) for c in (m if isinstance(m, (tuple, list)) else m.cells)]
def fin(m): return AND(*[NOT(c.nan) for c in m.cells])

# ---------------------------------------------------------------- compute_palette
class Palette(Hulls):
    """goals are recorded under the property they belong to; only those of `which` are kept"""
    def __init__(self, P, which):
        Hulls.__init__(self, P); e, p, st = self.e, self.p, self.st; self.which = which
        b = self.b = body1(p, r'palette\.rs\|.*::compute_palette$')
        e.keymaps = []
        im = self.im = e.symbolic(st, e.T[lty(b, 1)]['to'], 'image'); self.I = Ptr(e.alloc(st, im, 'image'))
        self.n = MUL(im.w, im.h); st.axiom(self.n < 2 ** 31)
        self.lo, self.hi, self.bound = z3.Int('minimum size'), z3.Int('maximum size'), F(z3.Real('error bound'))
        st.axiom(AND(self.lo >= 0, self.hi >= 0, self.lo < 2 ** 64, self.hi < 2 ** 64))
        self.err, self.nan = z3.Function('hull_error', I, R), z3.Function('hull_error_undefined', I, B)
        self.parent = z3.Function('parent', I, I)
        # ghost: whether a round has begun, the hull it began with, the edge's ends and the new point
        self.G = e.alloc(st, Agg(None, [False, 0, 0, 0] + [F(Fraction(0))] * 3), 'the last round'); e.ghost.add(self.G)
        self.first = z3.Int('first hull'); self.made = False
        self.contract(r'convex_hull\.rs\|from_iter$', self.hull)
        self.contract(r'palette\.rs\|palette::locate_edge_to_collapse$', self.locate)
        self.contract(r'palette\.rs\|palette::compute_pixel_error$', self.error)
        e.houdini_extra.append(self.kept); e.quantified.append(self.counting)
        e.variants = [self.shrinks]
        self.occ = z3.Function('occurrences', I, I, I)
        e.declax['occurrences'] = lambda t: t >= 0
    def g(self, prop, st, x, name):
        if self.which == prop: goal(self.e, st, x, name)
    target = property(lambda s: z3.If(s.lo > 4, s.lo, 4))
    def colour(self, i): return self.im.data.get(i).f[0]
    def unit(self, i): return [z3.ToReal(Z(self.colour(i).get(k))) / 255 for k in range(3)]
    # --- callee contracts
    def hull(self, ctx, st, args):
        """the hull of the points: at most as many vertices as there are points"""
        e = self.e; out = []
        for s, q in self.points(ctx, st, args[0]):
            gh = s.store[self.G]; j = z3.Int('point')
            if gh.f[0] is False:
                t = s.fork(); t.axiom(AND(j >= 0, j < Z(self.n)))
                for prop in ('C09', 'C10'):
                    self.g(prop, s, EQ(q.n, self.n), 'the first hull is taken of as many points as there are pixels')
                    x = q.get(j); self.g(prop, t, AND(fin(x), *[EQ(a, b) for a, b in zip(vec(x), self.unit(j))]), 'the first hull is that of the image\'s colours')
                h = self.first
            else:
                c, a, b = gh.f[1:4]; p = vec(gh.f[4:7]); i = z3.Int('kept vertex')
                # every vertex but the two ends is there, and so is the new point
                w = z3.Int('@t')
                def absent(t, want):
                    f = Fact(w, IMP(AND(w >= 0, w < Z(q.n)), NOT(AND(*[EQ(u, v) for u, v in zip(vec(q.get(w)), want)]))), 'not among the points')
                    t.facts = t.facts + (f,); t.axiom(f.at(Z(0))); t.axiom(f.at(Z(q.n) - 1))
                t = s.fork(); t.axiom(AND(i >= 0, i < self.nv(c), i != a, i != b, models.MARK(i))); absent(t, self.point(c, i))
                self.g('C10', t, False, 'every other vertex of the hull is among the points of the new one')
                t = s.fork(); absent(t, p)
                self.g('C10', t, False, 'the new point is among the points of the new hull')
                # and nothing else is
                t = s.fork(); x = vec(q.get(i)); t.axiom(AND(i >= 0, i < Z(q.n), models.MARK(i), NOT(AND(*[EQ(u, v) for u, v in zip(x, p)]))))
                t.facts = t.facts + (Fact(w, IMP(AND(w >= 0, w < self.nv(c), w != a, w != b), NOT(AND(*[EQ(u, v) for u, v in zip(x, self.point(c, w))]))), 'not a kept vertex'),)
                self.g('C10', t, False, 'every point of the new hull is the new point or a vertex other than the edge\'s ends')
                h = e.const(s, 'hull', I)
            s.axiom(self.nv(h) <= Z(q.n))
            if gh.f[0] is not False: s.axiom(EQ(self.parent(h), gh.f[1]))
            out.append((s, self.value(h)))
        return out
    def locate(self, ctx, st, args):
        """no edge, or an edge of the hull and a point"""
        e = self.e; h = self.name(st, args[0])
        self.g('C09', st, self.nv(h) > self.target, 'no round begins once the target size is reached')
        s = st.fork(); ok = e.const(s, 'edge found', B)
        a, b = e.const(s, 'end', I), e.const(s, 'end', I); p = [e.const(s, 'new point', R) for _ in range(3)]
        s.axiom(AND(a >= 0, b >= 0, a < self.nv(h), b < self.nv(h), a != b, models.MARK(a), models.MARK(b)))
        s.store[self.G] = Agg(None, [True, h, a, b] + [F(x) for x in p])
        no = s.fork(); no.assume(NOT(ok)); s.assume(ok)
        return [(no, En(ctx.dty, 0, {0: ()})), (s, En(ctx.dty, 1, {1: (Agg(None, [SeqL([F(x) for x in p]), SeqL([a, b])]),)}))]
    def error(self, ctx, st, args):
        """the error of the hull for the pixel counts"""
        e = self.e; h = self.name(st, args[0]); s = st.fork(); gh = st.store[self.G]
        if self.which == 'C11': self.weights(s, args)
        return [(s, F(self.err(Z(h)), self.nan(Z(h))))]
    def weights(self, s, args):
        e = self.e; v = args[1]
        if isinstance(v, Ptr): v = models.as_slice(engine.Ctx(e, None, 0, None, None, 'counts'), s, v)
        base = e.load(s, v.obj, v.path); at = lambda j: base.get(ADD(v.start, j)); n = v.len
        K = e.keymaps[0]; a, b, i, w = z3.Int('entry'), z3.Int('other entry'), z3.Int('pixel'), z3.Int('@w')
        rng = lambda j: AND(j >= 0, j < Z(n))
        val = lambda j: vec(at(j).f[0])
        t = s.fork(); t.axiom(AND(i >= 0, i < Z(self.n), K.code(self.im.data.get(i)) == z3.Int('its code')))
        t.facts = t.facts + (Fact(w, IMP(rng(w), NOT(AND(*[EQ(x, y) for x, y in zip(val(w), self.unit(i))]))), 'no entry has the pixel\'s colour'),)
        goal(e, t, False, 'every pixel\'s colour is weighed')
        t = s.fork(); t.axiom(AND(rng(a), rng(b), *[EQ(x, y) for x, y in zip(val(a), val(b))])); goal(e, t, a == b, 'no colour is weighed twice')
        t = s.fork(); c = [z3.Int(f'component {k}') for k in range(3)]
        t.axiom(AND(rng(a), *[EQ(x, z3.ToReal(y) / 255) for x, y in zip(val(a), c)]))
        code = K.code_f(*c)
        goal(e, t, AND(fin(at(a).f[0]), NOT(at(a).f[1].nan), EQ(ZR(at(a).f[1].v), z3.ToReal(self.occ(Z(self.n), code)))), 'every colour is weighed by how often it occurs')
        tot = nalg.sumterm(e, s, n, lambda j: at(j).f[1])
        goal(e, s, AND(EQ(args[2].nan, tot.nan), EQ(ZR(args[2].v), ZR(tot.v))), 'the total is the sum of the weights')
    # --- invariants
    def hulls(self, s): return [o for o, v in s.store.items() if isinstance(v, IdAgg) and v.mk is self.mk]
    def step(self, old, new):
        """new is what one allowed round makes of old"""
        return AND(EQ(self.parent(Z(new)), old), OR(self.nv(old) > self.hi, NOT(AND(NOT(self.nan(Z(old))), self.err(Z(old)) > ZR(self.bound.v)))))
    def state(self, st, h):
        g = st.store[self.G]
        return OR(AND(NOT(g.f[0]), EQ(h, self.first)), AND(g.f[0], self.step(g.f[1], h)))
    def kept(self, S, st0, s):
        out = []
        for o in self.hulls(s):
            if o not in st0.store or not isinstance(st0.store[o], IdAgg): continue
            out.append(lambda st, o=o: self.state(st, st.store[o].h))
            for x, v in s.store.items():
                if (x,) in S.cls and isinstance(v, z3.ExprRef) and v.sort() == I:
                    out.append(lambda st, o=o, x=x: EQ(st.store[x], self.nv(st.store[o].h)))
        return out
    def counting(self, S, st0, s):
        e = self.e; out = []
        its = [o for o, v in s.store.items() if isinstance(v, models.It) and v.kind == 'seq' and same(v.a[0].n, self.n) and isz(v.a[1])]
        for o, v in s.store.items():
            if type(v).__name__ != 'KMap' or o not in st0.store or len(its) != 1: continue
            K = v.K; pc = lambda i: K.code(self.im.data.get(i)); at = lambda st: st.store[its[0]].a[1]; T = at(s)
            one = lambda i, c: z3.If(pc(i) == c, 1, 0)
            def occ(st, c):
                # pixels seen so far of that colour, by the definition of counting
                k = at(st)
                if not isz(k): return sum((one(z3.IntVal(i), c) for i in range(k)), z3.IntVal(0))
                if same(k, T): return self.occ(T, c)
                if same(SUB(k, T), 1): return self.occ(T, c) + one(T, c)
                raise Unsupported('position in the pixels')
            def g1(st, j, k, o=o):
                m = st.store[o]; return AND(EQ(m.has(j), occ(st, j) > 0), occ(st, j) <= Z(at(st)), IMP(m.has(j), EQ(m.val(j), occ(st, j))))
            def g2(st, j, k, o=o):
                m = st.store[o]; return IMP(AND(j >= 0, j < Z(at(st))), m.has(pc(j)))
            g1.name = 'counts'; g2.name = 'all pixels counted'
            out += [g1, g2]
        return out
    def shrinks(self, S, s, b, backs):
        """every round that does not end the process leaves strictly fewer vertices"""
        out = [self.nv(b.store[o].h) < self.nv(s.store[o].h) for o in self.hulls(s) if o in b.store and isinstance(b.store[o], IdAgg)]
        return OR(*out) if out else None
    def run(self, P):
        e, p, st = self.e, self.p, self.st
        if not cover(P, e, st, 'compute_palette'): raise Unsupported('precondition')
        outs = e.call_body(st, self.b, [self.I, self.lo, self.hi, self.bound])
        if not outs: raise Unsupported('no returning path')
        i = z3.Int('colour')
        for s, v in outs:
            hs = {}
            def names(x):
                if not isz(x): return
                if z3.is_app(x) and x.num_args() and x.decl().name() in ('vertex_count', 'hull_vertex'): hs.setdefault(x.arg(0).get_id(), x.arg(0))
                for y in x.children(): names(y)
            x = v.get(i); names(v.n)
            if not hs: [names(Z(x.f[0].get(k))) for k in range(3)]
            ok = list(hs.values())
            g = s.store[self.G]
            h = (ok or list(hs.values()))[0] if hs else None
            if h is None: raise Unsupported('final hull')
            t = s.fork(); t.axiom(AND(i >= 0, i < self.nv(h)))
            self.g('C09', s, EQ(v.n, self.nv(h)), 'one colour per vertex of the final hull')
            self.g('C09', s, v.n >= 4 if isz(v.n) else False, 'the palette has at least four colours')
            for k in range(3):
                y = 255 * (lambda x: z3.If(x < 0, z3.RealVal(0), z3.If(x > 1, z3.RealVal(1), x)))(self.point(h, i)[k])
                c = z3.ToReal(Z(v.get(i).f[0].get(k)))
                self.g('C09', t, AND(c - y <= z3.Q(1, 2), y - c <= z3.Q(1, 2)), f'component {k} of every colour is the vertex\'s, clamped and rounded')
            same_ = EQ(h, g.f[1])
            for prop in ('C09', 'C10', 'C11'):
                self.g(prop, s, OR(AND(NOT(g.f[0]), EQ(h, self.first)), AND(g.f[0], OR(same_, self.step(g.f[1], h)))), 'the final hull is the last round\'s, or what an allowed round made of it')
        discharge(P, e, p.body_id(self.b))
def prove_loop(P, which): attempt(P, 'compute_palette', 'palette.rs', lambda: Palette(P, which).run(P))

# ---------------------------------------------------------------- compute_pixel_error
class Error(Hulls):
    def __init__(self, P):
        Hulls.__init__(self, P); e, p, st = self.e, self.p, self.st
        b = self.b = body1(p, r'palette\.rs\|.*compute_pixel_error$')
        self.h = z3.Int('hull'); self.new = z3.Int('clamped hull')
        self.H = Ptr(e.alloc(st, self.value(self.h), 'hull'))
        n = self.n = z3.Int('colours'); st.axiom(AND(n >= 0, n <= 2 ** 40))
        x, c = z3.Function('pixel', I, I, R), z3.Function('count', I, R)
        e.declax['count'] = lambda t: t > 0
        self.px, self.cnt = x, c
        self.C = Sl(e.alloc(st, Seq(n, lambda j: Agg(None, [Mat(3, 1, [F(x(Z(j), Z(k))) for k in range(3)]), F(c(Z(j)))]), ('sym', 'colours')), 'counts'), (), 0, n)
        self.total = z3.Real('total'); st.axiom(self.total > 0)
        self.inside = z3.Function('inside', R, R, R, B)
        self.dist = z3.Function('triangle distance', *[R] * 12, R)
        e.declax['triangle distance'] = lambda t: t >= 0
        self.made = []
        self.contract(r'convex_hull\.rs\|from_iter$', self.hull)
        self.contract(r'delaunay\.rs\|Delaunay::from_arrays$', self.tri)
        self.contract(r'delaunay\.rs\|Delaunay::simplex_searcher$', self.searcher)
        self.contract(r'delaunay\.rs\|SimplexSearcher::find_simplex$', self.find)
        self.contract(r'triangle_distance\.rs\|.*triangle_distance_sqr$', self.far)
        self.T = self.S = None
    def clamped(self, i): return [z3.If(x < 0, z3.RealVal(0), z3.If(x > 1, z3.RealVal(1), x)) for x in self.point(self.h, i)]
    def hull(self, ctx, st, args):
        e = self.e; out = []; i = z3.Int('vertex')
        for s, q in self.points(ctx, st, args[0]):
            t = s.fork(); t.axiom(AND(i >= 0, i < self.nv(self.h))); x = q.get(i)
            goal(e, s, EQ(q.n, self.nv(self.h)), 'the clamped hull is taken of as many points as the hull has vertices')
            goal(e, t, AND(fin(x), *[EQ(a, b) for a, b in zip(vec(x), self.clamped(i))]), 'the clamped hull is that of the vertices clamped into the unit cube')
            out.append((s, self.value(self.new)))
        return out
    def tri(self, ctx, st, args):
        e = self.e; a = args[0]; s = st.fork(); base = e.load(s, a.obj, a.path)
        j = z3.Int('vertex'); t = s.fork(); t.axiom(AND(j >= 0, j < Z(a.len))); x = base.get(ADD(a.start, j))
        goal(e, s, EQ(a.len, self.nv(self.new)), 'all the clamped hull\'s vertices are triangulated')
        goal(e, t, AND(*[AND(NOT(x.get(k).nan), EQ(ZR(x.get(k).v), self.pt(self.new, j, Z(k)))) for k in range(3)]), 'the triangulation is that of the clamped hull\'s vertices')
        v = e.symbolic(s, ctx.dty, 'triangulation')
        return [(s, v)]
    def searcher(self, ctx, st, args):
        s = st.fork(); v = e_ = None
        v = self.e.symbolic(s, ctx.dty, 'searcher'); self.S = ctx.dty
        fs = self.names(ctx.dty); k = fs.index('delaunay'); f = list(v.f); f[k] = args[0]
        return [(s, Agg(v.ty, f))]
    def names(self, ty): return [n for n, _ in self.e.T[ty]['variants'][0]['fields']]
    def find(self, ctx, st, args):
        """C02 and C03: a simplex exactly when the point is in the hull, up to the tolerance"""
        e = self.e; v = self.deref(st, args[0]); eps = v.f[self.names(v.ty).index('eps')]; p = self.deref(st, args[1])
        goal(e, st, AND(NOT(eps.nan), ZR(eps.v) >= 0, ZR(eps.v) <= z3.Q(1, 10 ** 9)), 'the search is made with a negligible tolerance')
        ins = self.inside(*vec(p)); out = []
        for d in (0, 1):
            s = st.fork(); s.assume(ins if d else NOT(ins))
            out.append((s, En(ctx.dty, d, {0: (), 1: (e.symbolic(s, e.T[ctx.dty]['args'][0], 'simplex'),)} if d else {0: ()})))
        return out
    def far(self, ctx, st, args):
        """C05: the squared distance from the point to the triangle"""
        v = [self.deref(st, a) for a in args]
        return F(self.dist(*[x for m in v for x in vec(m)]), OR(*[NOT(fin(m)) for m in v]))
    def facet(self, x, f):
        return self.dist(*x, *[y for k in range(3) for y in self.point(self.new, self.fv(Z(self.new), Z(f), Z(k)))])
    def run(self, P):
        e, p, st = self.e, self.p, self.st
        if not cover(P, e, st, 'compute_pixel_error'): raise Unsupported('precondition')
        outs = e.call_body(st, self.b, [self.H, self.C, F(self.total)])
        if not outs: raise Unsupported('no returning path')
        j = z3.Int('entry'); f = z3.Int('facet'); w = z3.Int('@f')
        for s, v in outs:
            tot = [x for x in e.sums.values() if e.check(list(s.forms()) + [z3.Not(Z(AND(NOT(v.nan), EQ(ZR(v.v), models.SQRT(x['x'] / self.total)))))], s.facts, timeout=4000) == 'unsat']
            if not tot:
                if len(e.sums) != 1: raise Unsupported('running total')
                tot = list(e.sums.values())
            S = tot[0]
            goal(e, s, AND(NOT(v.nan), EQ(ZR(v.v), models.SQRT(S['x'] / self.total))), 'the error is the square root of the total divided by the number of pixels')
            goal(e, s, AND(NOT(S['init'].nan), EQ(ZR(S['init'].v), 0)), 'the total begins at nothing')
            at = lambda x: z3.substitute(Z(x), (S['k'], j))
            t = s.fork(); t.axiom(AND(j >= 0, j < self.n))
            x = [self.px(j, Z(k)) for k in range(3)]; term = at(S['term'])
            goal(e, t, IMP(self.inside(*x), EQ(term, 0)), 'a colour inside the clamped hull adds nothing')
            u = t.fork(); u.axiom(AND(NOT(self.inside(*x)), f >= 0, f < self.nf(self.new)))
            goal(e, u, term <= self.facet(x, f) * self.cnt(j), 'a colour outside adds no more than its count times the squared distance to any face')
            u = t.fork(); u.axiom(NOT(self.inside(*x)))
            u.facts = u.facts + (Fact(w, IMP(AND(w >= 0, w < self.nf(self.new)), NOT(EQ(term, self.facet(x, w) * self.cnt(j)))), 'no face is that far away'),)
            goal(e, u, False, 'a colour outside adds its count times the squared distance to some face')
        discharge(P, e, p.body_id(self.b))
def prove_error(P): attempt(P, 'compute_pixel_error', 'palette.rs', lambda: Error(P).run(P))

# ---------------------------------------------------------------- locate_edge_to_collapse
class Edge(Hulls):
    """over EdgeData's contract: edges 0..E-1 of two different vertices each, with exactly the facets that touch either end"""
    def __init__(self, P):
        import lp
        Hulls.__init__(self, P); e, p, st = self.e, self.p, self.st
        b = self.b = body1(p, r'palette\.rs\|palette::locate_edge_to_collapse$')
        e.ftimeout, e.frounds = 60, 1
        h = self.h = z3.Int('hull'); self.H = Ptr(e.alloc(st, self.value(h), 'hull'))
        E = self.E = z3.Int('edges'); st.axiom(AND(E >= 0, E <= 2 ** 40))
        UF = lambda nm, k, r=I: z3.Function(nm, *([I] * k + [r]))
        self.end, self.faces, self.face, self.pos = UF('edge_end', 2), UF('faces_touching', 1), UF('face_touching', 2), UF('place_among_faces', 2)
        self.solved, self.sol = UF('program_solved', 1, B), UF('solution', 2, R)
        self.facet = z3.Int('facet')      # the facet the goals are about
        e.declax['edge_end'] = lambda t: AND(t >= 0, t < self.nv(h), self.touched(t.arg(0)))
        e.declax['faces_touching'] = lambda t: AND(t >= 0, t <= 2 ** 40)
        e.declax['face_touching'] = lambda t: AND(t >= 0, t < self.nf(h))
        self.contract(r'palette\.rs\|.*EdgeData.*::new$', self.edges)
        e.models['SolverModel::solve'] = self.solve
        e.models['Solution::value'] = self.coordinate
        self.unit, self.units = z3.Function('unit_vector', R, R, R, I, R), []
        e.models['Matrix::normalize_mut'] = self.normalize; e.models['Matrix::normalize'] = self.normalized
    def touched(self, i):
        f = self.facet
        return IMP(AND(i >= 0, i < self.E, OR(*[self.fv(Z(self.h), f, Z(k)) == self.end(i, Z(d)) for k in range(3) for d in range(2)])),
                   AND(self.pos(i, f) >= 0, self.pos(i, f) < self.faces(i), self.face(i, self.pos(i, f)) == f))
    def corner(self, f, k): return self.point(self.h, self.fv(Z(self.h), Z(f), Z(k)))
    def normal(self, f):
        p, q, r = (self.corner(f, k) for k in range(3)); u = [b - a for a, b in zip(p, q)]; v = [b - a for a, b in zip(p, r)]
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    def solid(self, f): return OR(*[x != 0 for x in self.normal(f)])
    def edges(self, ctx, st, args):
        e = self.e; T = e.T[ctx.dty]['variants'][0]['fields']
        if [n for n, _ in T] != ['edges'] or self.name(st, args[0]) is not self.h: raise Unsupported('fields of EdgeData')
        inner = e.T[e.T[T[0][1]]['args'][0]]
        def find(x, nm):
            return [t for t in range(0)]
        def ref(i): return Agg(None, [self.H, i])
        item = lambda i: Agg(None, [SeqL([ref(self.end(Z(i), Z(d))) for d in range(2)]), Seq(self.faces(Z(i)), lambda k: ref(self.face(Z(i), Z(k))), ('sym', 'faces'))])
        return [(st, Agg(ctx.dty, [Seq(self.E, item, ('sym', 'edges'))]))]
    def now(self, st):
        """the edge being looked at"""
        out = []
        for v in st.store.values():
            while isinstance(v, models.It) and v.kind == 'map': v = v.a[0]
            if isinstance(v, models.It) and v.kind == 'seq' and same(v.a[0].n, self.E): out.append(SUB(v.a[1], 1))
        if len(out) != 1: raise Unsupported('which edge the program is for')
        return out[0]
    def solve(self, ctx, st, args):
        """Err, or a point that satisfies every constraint"""
        e = self.e; q = args[0]; i = self.now(st)
        if not isinstance(q, Seq): raise Unsupported('linear program')
        x = [self.sol(Z(i), Z(k)) for k in range(3)]; w = z3.Int('@c'); out = []
        ok = self.solved(Z(i))
        for d in (0, 1):
            s = st.fork(); s.assume(ok if d == 0 else NOT(ok))
            if d == 0:
                def holds(j):
                    c = q.get(j); a, b = c.f
                    return IMP(AND(j >= 0, j < Z(q.n), NOT(b.nan), fin(a)), sum(ZR(u.v) * v for u, v in zip(a.cells, x)) <= ZR(b.v))
                if isz(q.n): s.facts = s.facts + (Fact(w, holds(w), 'a solution satisfies the constraints'),)
                else:
                    for j in range(q.n): s.axiom(holds(z3.IntVal(j)))
                out.append((s, En(ctx.dty, 0, {0: (Mat(3, 1, [F(v) for v in x]),), 1: (UNDEF,)})))
            else: out.append((s, En(ctx.dty, 1, {0: (UNDEF,), 1: (values.Opaque('no solution') if hasattr(values, 'Opaque') else UNDEF,)})))
        return out
    def unit_of(self, n, k): return self.unit(*[z3.simplify(ZR(x), som=True) for x in n], k)
    def normalized(self, ctx, st, args):
        """n / |n|, by name"""
        m = nalg.mat_of(ctx, st, args[0])
        if not (same(m.r, 3) and same(m.c, 1)): raise Unsupported('normalising')
        c = [m.at(k, 0) for k in range(3)]; self.units.append(1)
        return Mat(3, 1, [F(self.unit_of([x.v for x in c], k), OR(*[x.nan for x in c], AND(*[EQ(ZR(x.v), 0) for x in c]))) for k in range(3)])
    def normalize(self, ctx, st, args):
        v = self.normalized(ctx, st, args); p = args[0]; ctx.e.store(st, p.obj, p.path, v); return F(z3.Real('length, unused'))
    def coordinate(self, ctx, st, args):
        m = self.deref(st, args[0]); v = self.deref(st, args[1]); return m.cells[v.f[0]]
    def tet(self, i, f):
        x = [F(self.sol(Z(i), Z(k))) for k in range(3)]; P_ = [[F(y) for y in self.corner(f, k)] for k in range(3)]
        a, b, c = ([nalg.fsub(u, v) for u, v in zip(q, x)] for q in P_)
        m, A = nalg.fmul, nalg.fadd; S = nalg.fsub
        cr = [S(m(b[1], c[2]), m(b[2], c[1])), S(m(b[2], c[0]), m(b[0], c[2])), S(m(b[0], c[1]), m(b[1], c[0]))]
        d = A(A(m(a[0], cr[0]), m(a[1], cr[1])), m(a[2], cr[2])).v
        return F(z3.If(d < 0, -d, d) / 6)
    def volume(self, s, i): return nalg.sumterm(self.e, s, self.faces(Z(i)), lambda k: self.tet(i, self.face(Z(i), Z(k))))
    def run(self, P):
        e, p, st = self.e, self.p, self.st
        if not cover(P, e, st, 'locate_edge_to_collapse'): raise Unsupported('precondition')
        outs = e.call_body(st, self.b, [self.H])
        if not outs: raise Unsupported('no returning path')
        i, f, w = z3.Int('edge'), self.facet, z3.Int('@w')
        for s, v in outs:
            some = 1 in v.p and not (not isz(v.d) and v.d == 0)
            t = s.fork(); t.axiom(AND(i >= 0, i < self.E, models.MARK(i), self.solved(i), EQ(v.d, 0)))
            goal(e, t, False, 'an edge is found when some edge has a point')
            if not some: continue
            r = v.p[1][0]; q = [r.f[0].get(k) for k in range(3)]; x = [ZR(c.v) for c in q]; a, b = (Z(r.f[1].get(k)) for k in range(2))
            t = s.fork(); t.axiom(EQ(v.d, 1))
            goal(e, t, AND(*[NOT(c.nan) for c in q]), 'the point is a number')
            x0 = z3.simplify(x[0]); i0 = x0.arg(0) if z3.is_app(x0) and x0.decl().eq(self.sol) else None
            if i0 is None: raise Unsupported('whose point is returned')
            goal(e, t, AND(i0 >= 0, i0 < self.E, self.solved(i0), OR(AND(a == self.end(i0, Z(0)), b == self.end(i0, Z(1))), AND(b == self.end(i0, Z(0)), a == self.end(i0, Z(1))))), 'the ends are those of an edge')
            goal(e, t, AND(*[x[k] == self.sol(i0, Z(k)) for k in range(3)]), 'the point is that of the same edge')
            u = t.fork(); u.axiom(AND(f >= 0, f < self.nf(self.h), OR(*[self.fv(Z(self.h), f, Z(k)) == y for k in range(3) for y in (a, b)])))
            j = self.pos(i0, f); goal(e, u, AND(j >= 0, j < self.faces(i0), self.face(i0, j) == f), 'every face touching either end is one of the edge\'s')
            j = z3.Int('place'); g = self.face(i0, j); u = t.fork(); u.axiom(AND(j >= 0, j < self.faces(i0), models.MARK(j), self.solid(g)))
            n, c0 = self.normal(g), self.corner(g, 0)
            if self.units: n = [self.unit_of(n, k) for k in range(3)]
            goal(e, u, sum(n[k] * (x[k] - c0[k]) for k in range(3)) >= 0, 'the point is on the outer side of every face of the edge')
            u = t.fork(); u.axiom(AND(i >= 0, i < self.E, models.MARK(i), self.solved(i)))
            goal(e, u, ZR(self.volume(u, i0).v) <= ZR(self.volume(u, i).v), 'no edge with a point adds less volume', 'form')
        if self.units:
            n, y, l = [z3.Real(f'n{k}') for k in range(3)], [z3.Real(f'y{k}') for k in range(3)], z3.Real('length')
            t = State(); t.axiom(AND(l > 0, sum(a / l * b for a, b in zip(n, y)) >= 0)); goal(e, t, sum(a * b for a, b in zip(n, y)) >= 0, 'a side does not depend on the length of the normal', 'lemma')
        discharge(P, e, p.body_id(self.b))
def prove_edge(P): attempt(P, 'locate_edge_to_collapse', 'palette.rs', lambda: Edge(P).run(P))
