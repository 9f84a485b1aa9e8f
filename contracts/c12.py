"""C12: the array view of a hull mirrors qhull's hull (ConvexHull::from_qhull_raw)."""
from clib import *
import raw
def hull(P, N):
    W = raw.Mem(P); e, p, st = W.e, W.p, W.st
    W.abstract_hull(N); W.slack = 1
    b = body1(p, r'convex_hull\.rs\|ConvexHull::from_qhull_raw$', lambda b: f'Const<{N}>' in b['name'])
    if not cover(P, e, st, 'from_qhull_raw'): raise Unsupported('precondition')
    outs = e.call_body(st, b, [W.hull(lty(b, 1))])
    if not outs: raise Unsupported('no returning path')
    for s, v in outs:
        f = dict(zip([n for n, _ in e.T[v.ty]['variants'][0]['fields']], v.f))
        if set(f) != {'vertices', 'facets', 'neighbors', 'offsets_and_normals'}: raise Unsupported('fields of the hull')
        for k in f:
            if isinstance(f[k], Ptr): f[k] = e.load(s, f[k].obj, f[k].path)
        i = z3.Int('facet'); j = z3.Int('vertex')
        goal(e, s, EQ(f['vertices'].n, W.nv), 'as many vertices as qhull lists')
        for k in ('facets', 'neighbors', 'offsets_and_normals'): goal(e, s, EQ(f[k].n, W.nf), f'as many {k} as qhull lists facets')
        t = s.fork(); t.axiom(AND(j >= 0, j < W.nv))
        c = f['vertices'].get(j)
        goal(e, t, AND(c.r == N, *[AND(NOT(c.cells[k].nan), EQ(ZR(c.cells[k].v), W.pt(j, Z(k)))) for k in range(N)]), 'every vertex is at its own point')
        t = s.fork(); t.axiom(AND(i >= 0, i < W.nf))
        fa, ne, on = f['facets'].get(i), f['neighbors'].get(i), f['offsets_and_normals'].get(i)
        goal(e, t, AND(on.f[0].r == N, *[AND(NOT(on.f[0].cells[k].nan), EQ(ZR(on.f[0].cells[k].v), W.nrm(i, Z(k)))) for k in range(N)]), 'every facet has its own normal')
        goal(e, t, AND(NOT(on.f[1].nan), EQ(ZR(on.f[1].v), W.off(i))), 'every facet has its own offset')
        for k in range(N):
            goal(e, t, AND(LE(0, fa.cells[k]), LT(fa.cells[k], W.nv)), f'vertex {k} of every facet is a vertex')
            goal(e, t, AND(LE(0, ne.cells[k]), LT(ne.cells[k], W.nf)), f'neighbour {k} of every facet is a facet')
        def order(perm): return AND(*[AND(EQ(fa.cells[k], W.fv(i, Z(perm[k]))), EQ(ne.cells[k], W.fn_(i, Z(perm[k])))) for k in range(N)])
        own = list(range(N)); sw = [1, 0] + own[2:]
        if N != 3: goal(e, t, order(own), 'every facet has its own vertices, and its k-th neighbour is the one opposite the k-th')
        else:
            goal(e, t, OR(order(own), order(sw)), 'every facet has its own vertices, and its k-th neighbour is the one opposite the k-th')
            # outward: the stored order's right-hand normal does not point against the facet's normal
            P_ = [[W.pt(W.fv(i, Z(q)), Z(k)) for k in range(3)] for q in range(3)]
            a = [P_[1][k] - P_[0][k] for k in range(3)]; c = [P_[2][k] - P_[0][k] for k in range(3)]
            cr = [a[1] * c[2] - a[2] * c[1], a[2] * c[0] - a[0] * c[2], a[0] * c[1] - a[1] * c[0]]
            d = sum((W.nrm(i, Z(k)) * cr[k] for k in range(1, 3)), W.nrm(i, Z(0)) * cr[0])
            goal(e, t, IMP(d > 0, order(own)), 'a facet already ordered outwards is left alone')
            goal(e, t, IMP(d < 0, order(sw)), 'a facet ordered inwards is turned over')
    discharge(P, e, p.body_id(b), prefix=f'dimension {N}: ')
def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.trust("qhull's hull behind the raw accessors (ids distinct, N vertices and neighbours to a facet, the k-th neighbour opposite the k-th vertex)")
    for N in (2, 3, 5): attempt(P, f'from_qhull_raw ({N})', 'convex_hull.rs', lambda: hull(P, N))

# ---------------------------------------------------------------- the accessors of a built hull
class View:
    def __init__(self, P, N):
        p = self.p = prog(P); e = self.e = Engine(p); st = self.st = State(); self.N = N
        b = [b for b in body(p, r'convex_hull\.rs\|ConvexHull::facets$') if f'Const<{N}>' in b['name']][0]
        self.hty = e.T[lty(b, 1)]['to']
        fs = e.T[self.hty]['variants'][0]['fields']
        nv, nf = self.nv, self.nf = z3.Int('vertices'), z3.Int('facets')
        st.axiom(AND(nv >= 0, nv <= 2 ** 40, nf >= 0, nf <= 2 ** 40))
        UF = lambda nm, k, r=I: z3.Function(nm, *([I] * k + [r]))
        self.fv, self.nb, self.pt, self.nrm, self.off = UF('facet_vertex', 2), UF('facet_neighbour', 2), UF('vertex_point', 2, R), UF('facet_normal', 2, R), UF('facet_offset', 1, R)
        iv = lambda f: lambda i: Mat(N, 1, [f(Z(i), Z(k)) for k in range(N)])
        rv = lambda f: lambda i: Mat(N, 1, [F(f(Z(i), Z(k))) for k in range(N)])
        val = {'vertices': Seq(nv, rv(self.pt), ('sym', 'vertices')), 'facets': Seq(nf, iv(self.fv), ('sym', 'facets')), 'neighbors': Seq(nf, iv(self.nb), ('sym', 'neighbors')),
               'offsets_and_normals': Seq(nf, lambda i: Agg(None, [rv(self.nrm)(i), F(self.off(Z(i)))]), ('sym', 'planes'))}
        if {n for n, _ in fs} != set(val): raise Unsupported('fields of the hull')
        self.h = Agg(self.hty, [val[n] for n, _ in fs]); self.H = e.alloc(st, self.h, 'hull')
        v = z3.Int('@t')
        st.facts = (Fact(v, IMP(AND(v >= 0, v < nf), AND(*[AND(f(v, Z(k)) >= 0, f(v, Z(k)) < n) for k in range(N) for f, n in ((self.fv, nv), (self.nb, nf))])), 'hull invariant'),)
    def ref(self, ty, i):
        """the Facet or Vertex with index i"""
        ns = [n for n, _ in self.e.T[ty]['variants'][0]['fields']]
        if set(ns) != {'hull', 'idx'}: raise Unsupported('fields of a facet')
        d = {'hull': Ptr(self.H), 'idx': i}
        return Agg(ty, [d[n] for n in ns])
    def idx(self, s, v):
        """(refers to this hull, index)"""
        e = self.e
        while isinstance(v, Ptr): v = e.load(s, v.obj, v.path)
        if not (isinstance(v, Agg) and v.ty is not None and [n for n, _ in e.T[v.ty]['variants'][0]['fields']].count('idx')): raise Unsupported('item of the view')
        d = dict(zip([n for n, _ in e.T[v.ty]['variants'][0]['fields']], v.f))
        return isinstance(d['hull'], Ptr) and d['hull'].obj == self.H and not d['hull'].path, d['idx']
    def items(self, s, v):
        c = engine.Ctx(self.e, None, 0, None, None, 'items')
        return models.to_seq(c, s, models.to_iter(c, s, v))
def lists(P, name, N):
    V = View(P, N); e, p, st = V.e, V.p, V.st
    b = [b for b in body(p, r'convex_hull\.rs\|ConvexHull::%s$' % name) if f'Const<{N}>' in b['name']][0]
    n = V.nv if name == 'vertices' else V.nf
    i = z3.Int('index')
    for s, v in e.call_body(st, b, [Ptr(V.H)]):
        for t, q in V.items(s, v):
            goal(e, t, EQ(q.n, n), 'as many as the hull has')
            t = t.fork(); t.axiom(AND(i >= 0, i < n))
            mine, k = V.idx(t, q.get(i))
            goal(e, t, AND(mine, EQ(k, i)), 'the i-th refers to the i-th of this hull')
    discharge(P, e, p.body_id(b), prefix=f'{name}: ')
def facet(P, name, N):
    V = View(P, N); e, p, st = V.e, V.p, V.st
    b = [b for b in body(p, r'convex_hull\.rs\|Facet::%s$' % name) if f'Const<{N}>' in b['name']][0]
    i = z3.Int('index'); st.axiom(AND(i >= 0, i < V.nf))
    o = e.alloc(st, V.ref(e.T[lty(b, 1)]['to'], i), 'facet')
    outs = e.call_body(st, b, [Ptr(o)])
    if not outs: raise Unsupported('no returning path')
    for s, v in outs:
        if name == 'index': goal(e, s, EQ(v, i), 'the facet\'s own index')
        elif name == 'offset': goal(e, s, AND(NOT(v.nan), EQ(ZR(v.v), V.off(i))), 'the facet\'s own offset')
        elif name == 'normal':
            m = e.load(s, v.obj, v.path)
            goal(e, s, AND(m.r == N, *[EQ(ZR(m.cells[k].v), V.nrm(i, Z(k))) for k in range(N)]), 'the facet\'s own normal')
        else:
            f = V.fv if name == 'vertices' else V.nb
            for t, q in V.items(s, v):
                goal(e, t, EQ(q.n, N), f'{N} {name}')
                for k in range(N):
                    mine, j = V.idx(t, q.get(k))
                    goal(e, t, AND(mine, EQ(j, f(i, Z(k)))), f'the {k}-th is the facet\'s own {k}-th')
    discharge(P, e, p.body_id(b), prefix=f'facet {name}: ')
def vertex(P, name, N):
    V = View(P, N); e, p, st = V.e, V.p, V.st
    b = [b for b in body(p, r'convex_hull\.rs\|%s$' % ('Vertex::' + name if name != 'eq' else 'eq')) if f'Const<{N}>' in b['name'] or name == 'eq'][0]
    i, j = z3.Int('index'), z3.Int('other'); st.axiom(AND(i >= 0, i < V.nv, j >= 0, j < V.nv))
    ty = e.T[lty(b, 1)]['to']
    o = e.alloc(st, V.ref(ty, i), 'vertex'); args = [Ptr(o)]
    if name == 'eq': args.append(Ptr(e.alloc(st, V.ref(ty, j), 'other vertex')))
    outs = e.call_body(st, b, args)
    if not outs: raise Unsupported('no returning path')
    for s, v in outs:
        if name == 'index': goal(e, s, EQ(v, i), 'the vertex\'s own index')
        elif name == 'eq': goal(e, s, EQ(v, i == j), 'vertices of one hull are equal exactly when their indices are')
        else:
            m = e.load(s, v.obj, v.path)
            goal(e, s, AND(m.r == N, *[EQ(ZR(m.cells[k].v), V.pt(i, Z(k))) for k in range(N)]), 'the vertex\'s own point')
    discharge(P, e, p.body_id(b), prefix=f'vertex {name}: ')
def build(P):
    """from_arrays and from_iter: the raw hull of exactly the given points, viewed"""
    p = prog(P)
    bs = [b for b in body(p, r'convex_hull\.rs\|(ConvexHull::from_arrays|from_iter)$') if 'ConvexHull' in b['name']]
    for b in bs: attempt(P, b['name'], p.body_id(b), lambda: build1(P, b['key'], b['name']))
def build1(P, key, name):
    p = prog(P); e = Engine(p); b = p.B[key]; st = State(); seen = []
    def mk(tag):
        def c(ctx, s, args):
            t = s.fork(); t.ev = t.ev + ((tag, args[0]),)
            return [(t, Opaque(tag))]
        return c
    for x in body(p, r'raw\.rs\|(RawHull::from_arrays|from_iter|RawHull::from_vectors)$'): e.contracts[p.body_id(x)] = mk('raw')
    for x in body(p, r'convex_hull\.rs\|ConvexHull::from_qhull_raw$'): e.contracts[p.body_id(x)] = mk('view')
    T = e.T[lty(b, 1)]
    if T['k'] == 'ref':
        n = z3.Int('points'); st.axiom(n >= 0); N = int(re.search(r'Const<(\d+)', b['name']).group(1))
        x = z3.Function('coordinate', I, I, R)
        arg = Sl(e.alloc(st, Seq(n, lambda j: SeqL([F(x(Z(j), Z(k))) for k in range(N)]), ('sym', 'points')), 'points'), (), 0, n)
        is_arg = lambda v: isinstance(v, Sl) and v.obj == arg.obj and v.path == arg.path and same(v.start, 0) and same(v.len, n)
    else:
        arg = Opaque('points'); is_arg = lambda v: v is arg
    outs = e.call_body(st, b, [arg])
    if not outs: raise Unsupported('no returning path')
    for s, v in outs:
        ev = s.ev
        if not ([x[0] for x in ev] == ['raw', 'view'] and is_arg(ev[0][1])): raise Unsupported('composed in another way')
        goal(e, s, True, 'qhull is given exactly the points')
        goal(e, s, isinstance(ev[1][1], Opaque) and ev[1][1].name == 'raw' and isinstance(v, Opaque) and v.name == 'view', 'the result is the view of that hull')
    discharge(P, e, p.body_id(b), prefix=('from_arrays' if T['k'] == 'ref' else 'from_iter') + f' ({e.T[lty(b, 1)]["s"][:50]}): ')
def accessors(P):
    N = 3
    for n in ('vertices', 'facets'): attempt(P, 'ConvexHull::' + n, 'convex_hull.rs', lambda: lists(P, n, N))
    for n in ('vertices', 'neighbors', 'normal', 'offset', 'index'): attempt(P, 'Facet::' + n, 'convex_hull.rs', lambda: facet(P, n, N))
    for n in ('point', 'index', 'eq'): attempt(P, 'Vertex::' + n, 'convex_hull.rs', lambda: vertex(P, n, N))
    build(P)
_prove = prove
def prove(P): accessors(P); _prove(P)
