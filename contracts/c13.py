"""C13: the array view of a triangulation keeps exactly the lower simplices (Delaunay::from_qhull_raw)."""
from clib import *
import raw, maps, loops
def shape(e, v): return dict(zip([n for n, _ in e.T[v.ty]['variants'][0]['fields']], v.f))
def interned(W):
    """candidate invariants of vectors and maps that grow together: entry j of the map leads to element j of the vector,
    its key is the id of a vertex of the simplex being added, and the element is that vertex's point"""
    def f(S, st0, s):
        logs, vecs = [], []
        for key, c in S.cls.items():
            if c['t'] != 'grow': continue
            x = c['v'].get(z3.Int('@shape'))
            if isinstance(x, Agg) and len(x.f) == 2 and all(isz(y) and y.sort() == I for y in x.f): logs.append(key)
            elif isinstance(x, Mat) and x.c == 1 and all(isinstance(y, F) for y in x.cells): vecs.append(key)
        get = lambda st, key: loops.proj(st.store[key[0]], key[1:])
        out = []
        def add(name, g): g.name = name; out.append(g)
        D = W.HN
        for a in logs:
            x = get(s, a)
            while isinstance(x, (SeqApp, SeqC)): x = x.base
            if isinstance(x, loops.GrowSeq): W.logs.append(x)
            def rng(st, j, a=a): return AND(LE(0, j), LT(j, get(st, a).n))
            def guarded(body, a=a):
                def g(st, j, k):
                    q = get(st, a)
                    if not isz(q.n) and q.n == 0: return True
                    return IMP(rng(st, j), body(st, q, j, k))
                return g
            add('entry j leads to element j', guarded(lambda st, q, j, k: EQ(q.get(j).f[1], j)))
            add('keys are ids of listed vertices', guarded(lambda st, q, j, k: AND(LE(0, W.vpos(q.get(j).f[0])), LT(W.vpos(q.get(j).f[0]), W.nv), EQ(W.vid(W.vpos(q.get(j).f[0])), q.get(j).f[0]))))
            def used(st, q, j, k):
                i = loops.grown_in(q, j, S.k)
                return AND(LE(0, i), LT(i, k), NOT(W.upper(i)), OR(*[EQ(q.get(j).f[0], W.vid(W.fv(i, Z(r)))) for r in range(D)]))
            add('every key belongs to a lower simplex', guarded(used))
            for b in vecs:
                add('as many as keys', lambda st, j, k, a=a, b=b: EQ(get(st, a).n, get(st, b).n))
                def pts(st, q, j, k, b=b):
                    w = get(st, b)
                    if not isz(w.n) and w.n == 0: return False
                    x = w.get(j)
                    return AND(*[AND(NOT(x.cells[c].nan), EQ(ZR(x.cells[c].v), W.pt(W.vpos(q.get(j).f[0]), Z(c)))) for c in range(x.r)])
                add('elements are the points of the keys', guarded(pts))
        return out
    return f
def enum(q):
    """(which lower simplex is element i, which element is simplex f)"""
    o = q.origin
    if o and o[0] == 'cpush': return o[1].sel, o[1].cnt
    raise Unsupported('how the simplices were selected')
def build(P, N):
    W = raw.Mem(P); e, p, st = W.e, W.p, W.st
    W.abstract_hull(N + 1); W.pdim = N; W.logs = []; e.ftimeout = 60; e.frounds = 1
    b = body1(p, r'delaunay\.rs\|Delaunay::from_qhull_raw$', lambda b: f'Const<{N}>' in b['name'])
    e.quantified.append(interned(W))
    if not cover(P, e, st, 'from_qhull_raw'): raise Unsupported('precondition')
    outs = e.call_body(st, b, [W.hull(lty(b, 1))])
    if not outs: raise Unsupported('no returning path')
    return W, e, p, b, outs
def lower(P, N):
    W, e, p, b, outs = build(P, N); D = N + 1
    for s, v in outs:
        f = shape(e, v)
        for k in f:
            if isinstance(f[k], Ptr): f[k] = e.load(s, f[k].obj, f[k].path)
        if not {'vertices', 'simplices', 'neighbors', 'normals_and_offsets'} <= set(f): raise Unsupported('fields of the triangulation')
        i, j, k = z3.Int('simplex'), z3.Int('qhull facet'), z3.Int('vertex')
        S = f['simplices']; sel, at = enum(S)
        for nm in ('neighbors', 'normals_and_offsets'): goal(e, s, EQ(f[nm].n, S.n), f'as many {nm} as simplices')
        t = s.fork(); t.axiom(AND(j >= 0, j < W.nf, NOT(W.upper(j))))
        goal(e, t, AND(LE(0, at(j)), LT(at(j), S.n), EQ(sel(at(j)), j)), 'every lower simplex is listed')
        t = s.fork(); t.axiom(AND(i >= 0, i < Z(S.n)))
        q = sel(i)
        goal(e, t, AND(LE(0, q), LT(q, W.nf), NOT(W.upper(q)), EQ(at(q), i)), 'every simplex listed is a lower one, and listed once')
        x, ne, on = S.get(i), f['neighbors'].get(i), f['normals_and_offsets'].get(i)
        goal(e, t, AND(on.f[0].r == D, *[AND(NOT(on.f[0].cells[c].nan), EQ(ZR(on.f[0].cells[c].v), W.nrm(q, Z(c)))) for c in range(D)], NOT(on.f[1].nan), EQ(ZR(on.f[1].v), W.off(q))), 'every simplex has its own hyperplane')
        for r in range(D):
            g = W.fn_(q, Z(r))
            goal(e, t, EQ(ne.cells[r], ITE(W.upper(g), 2 ** 64 - 1, at(g))), f'neighbour {r} is the simplex qhull lists there, or absent when that is an upper one')
            goal(e, t, OR(W.upper(g), AND(LE(0, ne.cells[r]), LT(ne.cells[r], S.n))), f'neighbour {r} is a simplex listed here')
            V = f['vertices']
            goal(e, t, AND(LE(0, x.cells[r]), LT(x.cells[r], V.n)), f'vertex {r} is a vertex listed here')
            for c in range(N):
                y = V.get(x.cells[r]).cells[c]
                goal(e, t, AND(NOT(y.nan), EQ(ZR(y.v), W.pt(W.fv(q, Z(r)), Z(c)))), f'vertex {r} is at its own point, coordinate {c}')
        if not W.logs: raise Unsupported('how the vertices are kept apart')
        log = W.logs[-1]; j2 = z3.Int('other vertex')
        t = s.fork(); t.axiom(AND(k >= 0, k < Z(V.n), j2 >= 0, j2 < Z(V.n)))
        key = lambda j: log.item(j).f[0]; pos = lambda j: W.vpos(key(j))
        i = log.it(k); y = V.get(k)
        for c in range(N): goal(e, t, AND(NOT(y.cells[c].nan), EQ(ZR(y.cells[c].v), W.pt(pos(k), Z(c)))), f'every vertex is a point of the hull, coordinate {c}')
        goal(e, t, AND(LE(0, i), LT(i, W.nf), NOT(W.upper(i)), OR(*[EQ(W.fv(i, Z(r)), pos(k)) for r in range(D)])), 'every vertex is one of a lower simplex')
        goal(e, t, IMP(EQ(pos(k), pos(j2)), EQ(k, j2)), 'every vertex is listed once')
    discharge(P, e, p.body_id(b), prefix=f'dimension {N}: ')
def scaling(P, N):
    """C14: the scale and shift of the stored paraboloid are qhull's (qh_scalelast: x -> (x - low) * newhigh / (high - low))"""
    W, e, p, b, outs = build(P, N)
    low, high, new = (z3.Real('qhull ' + x) for x in ('last_low', 'last_high', 'last_newhigh'))
    for s, v in outs:
        f = shape(e, v)
        if not {'paraboloid_scale', 'paraboloid_shift'} <= set(f): raise Unsupported('fields of the triangulation')
        t = s.fork(); t.axiom(low < high)
        a, c = f['paraboloid_scale'], f['paraboloid_shift']; x = z3.Real('sum of squares')
        t.facts = ()
        goal(e, t, AND(NOT(a.nan), NOT(c.nan)), 'scale and shift are numbers')
        goal(e, t, EQ(ZR(a.v) * (high - low), new), 'the scale is qhull\'s')
        goal(e, t, EQ((x * ZR(a.v) + ZR(c.v)) * (high - low), (x - low) * new), 'scaling and shifting a sum of squares gives qhull\'s lifted coordinate')
    discharge(P, e, p.body_id(b), prefix=f'dimension {N}: ')

# ---------------------------------------------------------------- the accessors of a built triangulation
class View:
    def __init__(self, P):
        p = self.p = prog(P); e = self.e = Engine(p); self.e = e; st = self.st = State()
    def of(self, dty):
        e, st = self.e, self.st; self.dty = dty
        fs = e.T[dty]['variants'][0]['fields']
        m = re.search(r'Const<(\d+)', e.T[dty]['s']); N = self.N = int(m.group(1))
        nv, ns = self.nv, self.ns = z3.Int('vertices'), z3.Int('simplices')
        st.axiom(AND(nv >= 0, nv <= 2 ** 40, ns >= 0, ns <= 2 ** 40))
        UF = lambda nm, k, r=I: z3.Function(nm, *([I] * k + [r]))
        self.sv, self.nb, self.pt = UF('simplex_vertex', 2), UF('simplex_neighbour', 2), UF('vertex_point', 2, R)
        nrm, off = UF('normal', 2, R), UF('offset', 1, R)
        iv = lambda f: lambda i: Mat(N + 1, 1, [f(Z(i), Z(k)) for k in range(N + 1)])
        val = {'vertices': Seq(nv, lambda i: Mat(N, 1, [F(self.pt(Z(i), Z(k))) for k in range(N)]), ('sym', 'vertices')), 'simplices': Seq(ns, iv(self.sv), ('sym', 'simplices')),
               'neighbors': Seq(ns, iv(self.nb), ('sym', 'neighbours')),
               'normals_and_offsets': Seq(ns, lambda i: Agg(None, [Mat(N + 1, 1, [F(nrm(Z(i), Z(k))) for k in range(N + 1)]), F(off(Z(i)))]), ('sym', 'planes')),
               'paraboloid_scale': F(z3.Real('scale')), 'paraboloid_shift': F(z3.Real('shift'))}
        if {n for n, _ in fs} != set(val): raise Unsupported('fields of the triangulation')
        self.H = e.alloc(st, Agg(dty, [val[n] for n, _ in fs]), 'triangulation')
        v = z3.Int('@t')
        st.facts = (Fact(v, IMP(AND(v >= 0, v < ns), AND(*[AND(self.sv(v, Z(k)) >= 0, self.sv(v, Z(k)) < nv, OR(EQ(self.nb(v, Z(k)), 2 ** 64 - 1), AND(self.nb(v, Z(k)) >= 0, self.nb(v, Z(k)) < ns))) for k in range(N + 1)])), 'triangulation invariant'),)
    def ref(self, ty, i):
        fs = self.e.T[ty]['variants'][0]['fields']
        if {n for n, _ in fs} != {'delaunay', 'idx'}: raise Unsupported('fields of a simplex')
        self.of(self.e.T[dict(fs)['delaunay']]['to']) if not hasattr(self, 'H') else None
        d = {'delaunay': Ptr(self.H), 'idx': i}
        return Agg(ty, [d[n] for n, _ in fs])
    def idx(self, s, v):
        e = self.e
        while isinstance(v, Ptr): v = e.load(s, v.obj, v.path)
        if not (isinstance(v, Agg) and v.ty is not None): raise Unsupported('item of the view')
        d = dict(zip([n for n, _ in e.T[v.ty]['variants'][0]['fields']], v.f))
        if set(d) != {'delaunay', 'idx'}: raise Unsupported('item of the view')
        return isinstance(d['delaunay'], Ptr) and d['delaunay'].obj == self.H and not d['delaunay'].path, d['idx']
    def items(self, s, v):
        c = engine.Ctx(self.e, None, 0, None, None, 'items')
        return models.to_seq(c, s, models.to_iter(c, s, v))
def lists(P, b):
    V = View(P); e, p, st = V.e, V.p, V.st; b = p.B[b['key']]; name = b['name']
    V.of(e.T[lty(b, 1)]['to']); n = V.nv if '::vertices' in name else V.ns
    i = z3.Int('index'); w = p.body_id(b).split('|')[1]
    for s, v in e.call_body(st, b, [Ptr(V.H)]):
        for t, q in V.items(s, v):
            goal(e, t, EQ(q.n, n), 'as many as the triangulation has')
            t = t.fork(); t.axiom(AND(i >= 0, i < n))
            mine, k = V.idx(t, q.get(i))
            goal(e, t, AND(mine, EQ(k, i)), 'the i-th refers to the i-th of this triangulation')
    discharge(P, e, p.body_id(b), prefix=f'{w} ({V.N}): ')
def one(P, b):
    V = View(P); e, p, st = V.e, V.p, V.st; b = p.B[b['key']]; w = p.body_id(b).split('|')[1]; what = w.split('::')[1]; simplex = w.startswith('Simplex')
    i = z3.Int('index'); x = V.ref(e.T[lty(b, 1)]['to'], i); N = V.N
    st.axiom(AND(i >= 0, i < (V.ns if simplex else V.nv)))
    outs = e.call_body(st, b, [Ptr(e.alloc(st, x, 'self'))])
    if not outs: raise Unsupported('no returning path')
    for s, v in outs:
        if what == 'index': goal(e, s, EQ(v, i), 'its own index')
        elif what == 'point':
            m = e.load(s, v.obj, v.path)
            goal(e, s, AND(m.r == N, *[EQ(ZR(m.cells[k].v), V.pt(i, Z(k))) for k in range(N)]), 'the vertex\'s own point')
        elif what == 'vertices':
            for t, q in V.items(s, v):
                goal(e, t, EQ(q.n, N + 1), f'{N + 1} vertices')
                for k in range(N + 1):
                    mine, j = V.idx(t, q.get(k)); goal(e, t, AND(mine, EQ(j, V.sv(i, Z(k)))), f'the {k}-th is the simplex\'s own {k}-th')
        elif what == 'neighbors':
            for t, q in V.items(s, v):
                goal(e, t, EQ(q.n, N + 1), f'{N + 1} neighbours')
                for k in range(N + 1):
                    y = q.get(k); g = V.nb(i, Z(k))
                    if not isinstance(y, En): raise Unsupported('neighbour')
                    goal(e, t, EQ(EQ(y.d, 0), EQ(g, 2 ** 64 - 1)), f'the {k}-th is absent exactly when there is none')
                    if 1 in y.p and y.p[1]:
                        mine, j = V.idx(t, y.p[1][0]); goal(e, t, OR(EQ(y.d, 0), AND(mine, EQ(j, g))), f'the {k}-th is the simplex\'s own {k}-th')
    discharge(P, e, p.body_id(b), prefix=f'{w} ({N}): ')
def built(P, b):
    """from_arrays: the raw triangulation of exactly the given points, viewed"""
    p = prog(P); e = Engine(p); b = p.B[b['key']]; st = State()
    def mk(tag):
        def c(ctx, s, args):
            t = s.fork(); t.ev = t.ev + ((tag, args[0]),)
            return [(t, Opaque(tag))]
        return c
    for x in body(p, r'raw\.rs\|(RawDelaunay::from_arrays|from_iter|RawDelaunay::from_vectors)$'): e.contracts[p.body_id(x)] = mk('raw')
    for x in body(p, r'delaunay\.rs\|Delaunay::from_qhull_raw$'): e.contracts[p.body_id(x)] = mk('view')
    n = z3.Int('points'); st.axiom(n >= 0); N = int(re.search(r'Const<(\d+)|; (\d+)', e.T[lty(b, 1)]['s'] + b['name']).group(1) or re.search(r'; (\d+)', e.T[lty(b, 1)]['s']).group(1))
    x = z3.Function('coordinate', I, I, R)
    arg = Sl(e.alloc(st, Seq(n, lambda j: SeqL([F(x(Z(j), Z(k))) for k in range(N)]), ('sym', 'points')), 'points'), (), 0, n)
    outs = e.call_body(st, b, [arg])
    if not outs: raise Unsupported('no returning path')
    for s, v in outs:
        ev = s.ev
        if [y[0] for y in ev] != ['raw', 'view']: raise Unsupported('composed in another way')
        a = ev[0][1]
        if not (isinstance(a, Sl) and a.obj == arg.obj and a.path == arg.path and same(a.start, 0) and same(a.len, n)): raise Unsupported('qhull is given something else')
        goal(e, s, isinstance(ev[1][1], Opaque) and ev[1][1].name == 'raw' and isinstance(v, Opaque) and v.name == 'view', 'the result is the view of the triangulation of exactly the points')
    discharge(P, e, p.body_id(b), prefix=f'from_arrays ({N}): ')
def accessors(P):
    p = prog(P)
    for f, pat in ((lists, r'delaunay\.rs\|Delaunay::(vertices|simplices)$'), (one, r'delaunay\.rs\|(Simplex::(vertices|neighbors|index)|Vertex::(point|index))$'), (built, r'delaunay\.rs\|Delaunay::from_arrays$')):
        for b in body(p, pat): attempt(P, b['name'], p.body_id(b), lambda: f(P, b))
def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.trust("qhull's hull behind the raw accessors (ids distinct, N+1 vertices and neighbours to a simplex, the k-th neighbour opposite the k-th vertex)")
    accessors(P)
    for N in [int(x) for x in os.environ.get("VP_N","2 3 5").split()]: attempt(P, f'from_qhull_raw ({N})', 'delaunay.rs', lambda: lower(P, N))
