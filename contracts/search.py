"""Simplex search in the array triangulation (C02, C03): one contract per function.

Type invariants, assumed on entry and shown where they are established:
 Delaunay         at least one simplex; vertex indices of every simplex are vertices; every neighbour
                  entry is the no-neighbour mark or a simplex; one hyperplane per simplex   (C13)
 SimplexSearcher  borrows that triangulation; one transform per simplex, each satisfying the
                  transform contract; the remembered start is absent or a simplex           (new, every search)
 transform        either all not-a-number or a two-sided inverse of the matrix whose columns are the
                  simplex's edge vectors to its last vertex, which is kept beside it        (BarycentricTransformation::new)
"""
from clib import *
FT = int(os.environ.get("FT", "40")); NOS = 2 ** 64 - 1

class Tri:
    opaque = False
    def __init__(self, P, N, searcher=True):
        self.P = P; self.N = N; p = self.p = prog(P); e = self.e = Engine(p); e.ftimeout = FT; e.variants = []; self.st = st = State()
        M, V = self.M, self.V = z3.Int('simplices'), z3.Int('vertices')
        st.axiom(AND(M >= 1, M <= 2 ** 40, V >= 1, V <= 2 ** 40))
        if searcher:
            b = self.fn('SimplexSearcher::find_simplex_mut')
            self.sty = e.T[lty(b, 1)]['to']
            f = {n: t for n, t in self.fields(self.sty)}
            self.dty = e.T[f['delaunay']]['to']
        else:
            b = self.fn('Delaunay::lift_point'); self.dty = e.T[lty(b, 1)]['to']
        fi = {n: t for n, t in self.fields(self.dty)}
        self.dnames = [n for n, _ in self.fields(self.dty)]
        UF = lambda nm, k=1: z3.Function(nm, *([I] * (k + 1)))
        self.sv = UF('simplex', 2); self.nb = UF('neighbour', 2)
        self.px = z3.Function('vertex', I, I, R); self.nrm = z3.Function('normal', I, I, R); self.off = z3.Function('offset', I, R)
        n = N
        self.scale = F(z3.Real('scale')); self.shift = F(z3.Real('shift'))
        val = {'vertices': Seq(V, lambda i: Mat(n, 1, [F(self.px(Z(i), Z(k))) for k in range(n)]), ('sym', 'vertices')),
               'simplices': Seq(M, lambda i: Mat(n + 1, 1, [self.sv(Z(i), Z(k)) for k in range(n + 1)]), ('sym', 'simplices')),
               'neighbors': Seq(M, lambda i: Mat(n + 1, 1, [self.nb(Z(i), Z(k)) for k in range(n + 1)]), ('sym', 'neighbors')),
               'normals_and_offsets': Seq(M, lambda i: Agg(None, [Mat(n + 1, 1, [F(self.nrm(Z(i), Z(k))) for k in range(n + 1)]), F(self.off(Z(i)))]), ('sym', 'planes')),
               'paraboloid_scale': self.scale, 'paraboloid_shift': self.shift}
        if set(fi) != set(val): raise Unsupported('fields of the triangulation: ' + ' '.join(fi))
        self.D = e.alloc(st, Agg(self.dty, [val[x] for x in self.dnames]), 'triangulation')
        v = z3.Int('@t')
        st.facts = (Fact(v, IMP(AND(v >= 0, v < M), AND(*[AND(self.sv(v, Z(k)) >= 0, self.sv(v, Z(k)) < V) for k in range(n + 1)])), 'vertex indices'),
                    Fact(v, IMP(AND(v >= 0, v < M), AND(*[OR(self.nb(v, Z(k)) == NOS, AND(self.nb(v, Z(k)) >= 0, self.nb(v, Z(k)) < M)) for k in range(n + 1)])), 'neighbour indices'))
        if searcher:
            self.snames = [x for x, _ in self.fields(self.sty)]
            self.deg = z3.Function('degenerate', I, B); self.ti = z3.Function('t_inv', I, I, I, R)
            bt = e.T[f['transforms']]['args'][0]; bt = e.T[bt]['elem']
            self.bty = bt; tn = [x for x, _ in self.fields(bt)]
            if set(tn) != {'t_inv', 'r_vec'}: raise Unsupported('fields of the transform')
            def tr(i):
                c = {'t_inv': Mat(n, n, [F(self.ti(Z(i), Z(r), Z(k)), self.deg(Z(i))) for k in range(n) for r in range(n)]),
                     'r_vec': Mat(n, 1, [F(self.px(self.sv(Z(i), Z(n)), Z(k))) for k in range(n)])}
                return Agg(bt, [c[x] for x in tn])
            self.eps = z3.Real('eps'); st.axiom(self.eps >= 0)
            self.hd, self.hv = z3.Int('hint?'), z3.Int('hint')
            st.axiom(AND(self.hd >= 0, self.hd <= 1, IMP(self.hd == 1, AND(self.hv >= 0, self.hv < M))))
            self.brute = z3.Bool('bruteforce')
            hint = e.symbolic(st, f['start_hint'], 'h')
            hint = Agg(hint.ty, [En(hint.f[0].ty if isinstance(hint.f[0], En) else hint.f[0].f[0].ty, self.hd, {0: (), 1: (self.hv,)})])
            bnd = lambda nm: Mat(n, 1, [F(z3.Real(f'{nm}_{k}')) for k in range(n)])
            sval = {'delaunay': Ptr(self.D), 'transforms': Seq(M, tr, ('sym', 'transforms')), 'max_bounds': bnd('max'), 'min_bounds': bnd('min'),
                    'bruteforce': self.brute, 'eps': F(self.eps), 'start_hint': hint}
            if set(f) != set(sval): raise Unsupported('fields of the searcher: ' + ' '.join(f))
            self.S = e.alloc(st, Agg(self.sty, [sval[x] for x in self.snames]), 'searcher')
            self.q = Mat(n, 1, [F(z3.Real(f'q_{k}'), z3.Bool(f'qnan_{k}')) for k in range(n)])
            self.Q = e.alloc(st, self.q, 'point')
            self.C = e.alloc(st, Mat(n + 1, 1, [F(z3.Real(f'junk_{k}'), z3.Bool(f'junknan_{k}')) for k in range(n + 1)]), 'coords')
    def fields(self, t): return self.e.T[t]['variants'][0]['fields'] if hasattr(self, 'e') else self.p.T[t]['variants'][0]['fields']
    def fn(self, name):
        return body1(self.p, r'delaunay\.rs\|%s$' % name, lambda b: f'Const<{self.N}>' in b['name'])
    # ------------------------------------------------ specification
    def bary(self, i):
        """the coordinates of the query point in simplex i, as its transform gives them"""
        n = self.N
        if self.opaque:
            # the callee's contract defines it; nothing here looks inside
            return Mat(n + 1, 1, [F(z3.Function(f'bary_{k}', I, R)(Z(i)), z3.Function('bary_nan', I, B)(Z(i))) for k in range(n + 1)])
        nan = OR(self.deg(Z(i)), *[c.nan for c in self.q.cells])
        xs = []
        for r in range(n):
            t = z3.RealVal(0)
            for k in range(n): t = t + self.ti(Z(i), Z(r), Z(k)) * (ZR(self.q.cells[k].v) - self.px(self.sv(Z(i), Z(n)), Z(k)))
            xs.append(F(t, nan))
        t = z3.RealVal(1)
        for x in xs: t = t - x.v
        return Mat(n + 1, 1, xs + [F(t, nan)])
    def within(self, c, i, broad):
        """every coordinate within the tolerance of [0,1]; on the side of a degenerate neighbour the square root below zero"""
        out = []
        rt = models.SQRT(self.eps)
        for k, x in enumerate(c.cells):
            lo = x.v >= -self.eps
            if broad: lo = OR(lo, AND(self.nb(Z(i), Z(k)) != NOS, self.deg(self.nb(Z(i), Z(k))), x.v >= -rt))
            out.append(AND(NOT(x.nan), lo, x.v <= 1 + self.eps))
        return AND(*out)
    def plane(self, i, pt):
        n = self.N; t = self.off(Z(i)); nan = False
        for k in range(n + 1): t = t + ZR(pt.cells[k].v) * self.nrm(Z(i), Z(k)); nan = OR(nan, pt.cells[k].nan)
        return F(t, nan)
    def simplex(self, ty, i): return Agg(ty, [Ptr(self.D) if x == 'delaunay' else i for x, _ in self.fields(ty)])
    def parts(self, v):
        """(triangulation pointer, index) of a Simplex value"""
        ns = [x for x, _ in self.fields(v.ty)]
        return v.f[ns.index('delaunay')], v.f[ns.index('idx')]
    def hint(self, s):
        v = s.store[self.S]; return v.f[self.snames.index('start_hint')].f[0]
    # ------------------------------------------------ contracts of callees
    def c_solve(self, ctx, st, args):
        """solve / the transform's own element: writes bary(i) where the transform is element i of the searcher's"""
        e = self.e; t, pt, out = args
        i = self.index_of(t)
        if i is None or out.obj is None: return NotImplemented
        s = st.fork()
        if isinstance(pt, Ptr): pt = e.load(st, pt.obj, pt.path)
        if not loops.ident(pt, self.q): return NotImplemented
        e.store(s, out.obj, out.path, self.bary(i))
        return [(s, Agg(None, []))]
    def index_of(self, t):
        if isinstance(t, Ptr) and t.obj == self.S and t.path[:1] == (self.snames.index('transforms'),) and len(t.path) == 2: return t.path[1][1]
        return None
    def c_degenerate(self, ctx, st, args):
        i = self.index_of(args[0])
        return NotImplemented if i is None else [(st, self.deg(Z(i)))]
    def c_search(self, check=None):
        """bruteforce / directed search: nothing, or a simplex whose coordinates are stored and within the tolerance"""
        def f(ctx, st, args):
            e = self.e; sf, pt = args[0], args[1]; out = args[-1]
            if not (isinstance(sf, Ptr) and sf.obj == self.S and isinstance(pt, Ptr) and loops.ident(e.load(st, pt.obj, pt.path), self.q)): return NotImplemented
            if check: check(ctx, st, args)
            res = []
            for found in (True, False):
                s = st.fork(); j = e.const(s, 'found', I)
                hd, hv = e.const(s, 'hint?', I), e.const(s, 'hint', I)
                s.axiom(AND(hd >= 0, hd <= 1, IMP(hd == 1, AND(hv >= 0, hv < self.M))))
                v = s.store[self.S]; fs = list(v.f); k = self.snames.index('start_hint')
                old = fs[k]; fs[k] = Agg(old.ty, [En(old.f[0].ty, hd, {0: (), 1: (hv,)})])
                s.store[self.S] = Agg(v.ty, fs)
                ok = e.const(s, 'succeeds', B)
                if found:
                    s.assume(ok); c = self.bary(j)
                    s.axiom(AND(j >= 0, j < self.M, NOT(self.deg(j)), self.within(c, j, True)))
                    e.store(s, out.obj, out.path, c)
                    et = e.T[ctx.dty]['args'][0]
                    res.append((s, En(ctx.dty, 1, {1: (self.simplex(et, j),)})))
                else:
                    s.assume(NOT(ok))
                    e.store(s, out.obj, out.path, Mat(self.N + 1, 1, [F(e.const(s, 'junk', R), e.const(s, 'junknan', B)) for _ in range(self.N + 1)]))
                    res.append((s, En(ctx.dty, 0, {0: ()})))
            return res
        return f
    def post(self, outs, out, fn):
        """the common contract of every search function"""
        e = self.e
        for s, v in outs:
            h = self.hint(s)
            goal(e, s, IMP(EQ(h.d, 1), AND(LE(0, h.p[1][0]), LT(h.p[1][0], self.M))) if 1 in h.p else True, 'C03: the remembered start is a simplex of this triangulation')
            for o in (self.D, self.Q): goal(e, s, s.store[o] is self.st.store[o], 'C02: the triangulation and the query are left alone')
            ks = [k for k in range(len(self.snames)) if self.snames[k] != 'start_hint']
            goal(e, s, all(s.store[self.S].f[k] is self.st.store[self.S].f[k] for k in ks), 'C02: the searcher\'s settings are left alone')
            if 1 not in v.p or v.d == 0: continue
            t = s.fork()
            if v.d != 1: t.assume(EQ(v.d, 1))
            d, i = self.parts(v.p[1][0])
            goal(e, t, isinstance(d, Ptr) and d.obj == self.D and d.path == (), 'C02: the simplex found belongs to this triangulation')
            goal(e, t, AND(LE(0, i), LT(i, self.M)), 'C02: the simplex found is a simplex')
            if out is None: continue
            c = e.load(t, out.obj, out.path); want = self.bary(i)
            goal(e, t, NOT(self.deg(Z(i))), 'C02: the simplex found is not degenerate')
            same_ = all(loops.ident(a, b) for a, b in zip(c.cells, want.cells))
            goal(e, t, True if same_ else AND(*[deep_eq(a, b) for a, b in zip(c.cells, want.cells)]), 'C02: the coordinates stored are those of the query in the simplex found')
            goal(e, t, self.within(c, i, True), 'C02: every coordinate is within the tolerance')
    def contracts(self, *pairs):
        for pat, f in pairs: self.e.contracts[self.p.body_id(self.fn(pat))] = f
    def done(self, b, want):
        e = self.e; keep = []
        for o in e.obls:
            tag = 'C03' if o.kind == 'panic' or 'index' in o.kind or o.kind in ('overflow', 'arith', 'termination', 'pre') else o.name[:3] if o.name[:4] in ('C02:', 'C03:', 'C14:') else want
            if tag == want: keep.append(o)
        for o in keep:
            if o.name[:4] == want + ':': o.name = o.name[5:]
        e.obls = keep
        discharge(self.P, e, self.p.body_id(b), prefix=f'dimension {self.N}: ')

def run(W, name, args, want, post=None):
    b = W.fn(name)
    if not cover(W.P, W.e, W.st, name): return
    outs = W.e.call_body(W.st, b, args)
    if not outs: W.P.undecided('returns', name, 'no returning path'); return
    W.P.note(f'{name} ({W.N}): {len(outs)} symbolic paths')
    post(outs)
    W.done(b, want)

def u_bruteforce(P, N, want):
    W = Tri(P, N); W.opaque = True
    W.contracts(('BarycentricTransformation::solve', W.c_solve), ('BarycentricTransformation::is_degenerate', W.c_degenerate))
    out = Ptr(W.C)
    run(W, 'SimplexSearcher::find_best_simplex_bruteforce', [Ptr(W.S), Ptr(W.Q), out], want, lambda o: W.post(o, out, 'bruteforce'))
def start_simplex(W, b):
    i = z3.Int('start'); W.st.axiom(AND(i >= 0, i < W.M))
    return W.simplex(lty(b, 3), i)
def u_directed(P, N, want):
    W = Tri(P, N); out = Ptr(W.C)
    b = W.fn('SimplexSearcher::find_best_simplex_directed')
    W.contracts(('BarycentricTransformation::is_degenerate', W.c_degenerate), ('SimplexSearcher::find_best_simplex_bruteforce', W.c_search()))
    run(W, 'SimplexSearcher::find_best_simplex_directed', [Ptr(W.S), Ptr(W.Q), start_simplex(W, b), out], want, lambda o: W.post(o, out, 'directed'))

# ---------------------------------------------------------------- the transform
def tmat(W, i):
    """matrix of the edge vectors of simplex i to its last vertex"""
    n = W.N
    return Mat(n, n, [F(W.px(W.sv(Z(i), Z(c)), Z(r)) - W.px(W.sv(Z(i), Z(n)), Z(r))) for c in range(n) for r in range(n)])
def u_transform(P, N, want):
    W = Tri(P, N); e = W.e; st = W.st
    b = W.fn('BarycentricTransformation::new'); i = z3.Int('simplex'); st.axiom(AND(i >= 0, i < W.M))
    T = tmat(W, i)
    def post(outs):
        for s, v in outs:
            ns = [x for x, _ in W.fields(v.ty)]; ti, rv = v.f[ns.index('t_inv')], v.f[ns.index('r_vec')]
            for k in range(N): goal(e, s, deep_eq(rv.cells[k], F(W.px(W.sv(i, Z(N)), Z(k)))), f'C02: component {k} of the reference point is the last vertex\'s')
            nan = [x.nan for x in ti.cells]
            goal(e, s, AND(*[EQ(nan[0], x) for x in nan[1:]]), 'C02: a transform is degenerate in every entry or in none')
            t = s.fork(); t.assume(NOT(nan[0])) if nan[0] is not False else None
            if nan[0] is True: continue
            for a, c, nm in ((ti, T, 'inverse times edges'), (T, ti, 'edges times inverse')):
                for r in range(N):
                    for k in range(N):
                        x = fconst(0)
                        for j in range(N): x = fadd(x, fmul(a.at(r, j), c.at(j, k)))
                        goal(e, t, req(x.v, Fraction(int(r == k))), f'C02: {nm}, entry ({r},{k})')
    run(W, 'BarycentricTransformation::new', [W.simplex(lty(b, 1), i)], want, post)
def fconst(x): return F(Fraction(x))
def u_solve(P, N, want):
    W = Tri(P, N); e = W.e; st = W.st
    i = z3.Int('simplex'); st.axiom(AND(i >= 0, i < W.M))
    out = Ptr(W.C); t = Ptr(W.S, (W.snames.index('transforms'), ('i', i)))
    def post(outs):
        for s, v in outs:
            c = e.load(s, W.C, ())
            for k, (a, w) in enumerate(zip(c.cells, W.bary(i).cells)):
                goal(e, s, True if loops.ident(a, w) else deep_eq(a, w), f'C02: coordinate {k} is the query\'s in that simplex')
    run(W, 'BarycentricTransformation::solve', [t, W.q, out], want, post)
def u_degenerate(P, N, want):
    W = Tri(P, N); e = W.e; st = W.st
    i = z3.Int('simplex'); st.axiom(AND(i >= 0, i < W.M))
    t = Ptr(W.S, (W.snames.index('transforms'), ('i', i)))
    run(W, 'BarycentricTransformation::is_degenerate', [t], want,
        lambda outs: [goal(e, s, EQ(v, W.deg(i)), 'C02: a simplex is degenerate exactly if its transform is not a number') for s, v in outs])
def u_meaning(P, N, want):
    """lemma over the contracts: the coordinates sum to one and mix the simplex's vertices to the query"""
    W = Tri(P, N); e = W.e; st = W.st; i = z3.Int('simplex'); n = N
    T = tmat(W, i); ti = Mat(n, n, [F(W.ti(i, Z(r), Z(k))) for k in range(n) for r in range(n)])
    for k in range(n): st.axiom(NOT(W.q.cells[k].nan))
    st.axiom(NOT(W.deg(i)))
    c = W.bary(i); d = [W.q.cells[k].v - W.px(W.sv(i, Z(n)), Z(k)) for k in range(n)]
    tot = z3.Sum([x.v for x in c.cells])
    goal(e, st, z3.simplify(tot - 1, som=True) == 0, 'C02: the coordinates sum to one')
    for r in range(n):
        # polynomial identity: mixture - query = sum over k of (row r of edges*inverse - identity)[k] * (query - reference)[k], and each law is zero
        mix = z3.Sum([c.cells[k].v * W.px(W.sv(i, Z(k)), Z(r)) for k in range(n + 1)])
        rest = z3.Sum([(z3.Sum([T.at(r, j).v * ti.at(j, k).v for j in range(n)]) - (1 if r == k else 0)) * d[k] for k in range(n)])
        goal(e, st, z3.simplify(mix - W.q.cells[r].v - rest, som=True) == 0, f'C02: component {r} of the mixture of the vertices is the query\'s')
    for o in e.obls: o.name = o.name[5:]
    discharge(P, e, 'lemma over the transform contract', prefix=f'dimension {N}: ')

# ---------------------------------------------------------------- walking and entry points
class Walk:
    """contracts of the lifting and of the plane distance: one number per simplex for the query"""
    def __init__(self, W):
        self.W = W; self.h = z3.Function('height', I, R); self.nan = z3.Function('height_nan', I, B)
    def lift(self, ctx, st, args):
        W = self.W
        if not (isinstance(args[0], Ptr) and args[0].obj == W.D and loops.ident(deref(ctx, st, args[1]), W.q)): return NotImplemented
        return [(st, Mat(W.N + 1, 1, [F(z3.Real(f'lifted_{k}'), z3.Bool(f'lifted_nan_{k}')) for k in range(W.N + 1)]))]
    def dist(self, ctx, st, args):
        W = self.W; v = deref(ctx, st, args[0]); d, i = W.parts(v); m = deref(ctx, st, args[1])
        if not (isinstance(d, Ptr) and d.obj == W.D and isinstance(m, Mat) and str(m.cells[0].v) == 'lifted_0'): return NotImplemented
        W.e.oblige(st, AND(LE(0, i), LT(i, W.M)), 'pre', ctx.where('the plane asked for is a simplex of this triangulation'))
        return [(st, F(self.h(Z(i)), self.nan(Z(i))))]
    def leaves(self, S, t): return [(lambda st, key=key: loops.proj(st.store[key[0]], key[1:])) for key, c in S.cls.items() if c['t'] == t]
    def climbs(self, S, st0, s):
        """candidate invariant: the running best is the height of the current simplex"""
        return [(lambda st, i=i, d=d: deep_eq(d(st), F(self.h(Z(i(st))), self.nan(Z(i(st)))))) for i in self.leaves(S, 'hI') for d in self.leaves(S, 'hF')]
    def variant(self, S, s, b, backs):
        """every round that does not end the walk moves to a strictly higher simplex; there are finitely many"""
        out = []
        go = [g for g in self.leaves(S, 'hB') if all(self.W.e.check(list(x.forms()) + [z3.Not(Z(g(s)))], x.facts, timeout=3000) == 'unsat' for x in backs)]
        for i in self.leaves(S, 'hI'):
            j, j2 = i(s), i(b)
            out.append(AND(0 <= Z(j2), Z(j2) < self.W.M, OR(self.h(Z(j)) < self.h(Z(j2)), *[NOT(g(b)) for g in go])))
        return OR(*out) if out else None
def pre_start(W):
    def check(ctx, st, args):
        if len(args) == 4:
            d, i = W.parts(args[2])
            W.e.oblige(st, AND(isinstance(d, Ptr) and d.obj == W.D, LE(0, i), LT(i, W.M)), 'pre', 'C03: the directed search starts from a simplex of this triangulation')
    return check
def u_locate(P, N, want):
    W = Tri(P, N); W.opaque = True; K = Walk(W); out = Ptr(W.C)
    W.contracts(('SimplexSearcher::find_best_simplex_directed', W.c_search(pre_start(W))), ('SimplexSearcher::find_best_simplex_bruteforce', W.c_search()),
                ('Delaunay::lift_point', K.lift), ('Simplex::plane_distance', K.dist))
    W.e.houdini_extra.append(K.climbs); W.e.variants.append(K.variant)
    run(W, 'SimplexSearcher::find_simplex_mut', [Ptr(W.S), Ptr(W.Q), out], want, lambda o: W.post(o, out, 'find_simplex_mut'))
def u_find(P, N, want):
    W = Tri(P, N); W.opaque = True
    W.contracts(('SimplexSearcher::find_simplex_mut', W.c_search()),)
    run(W, 'SimplexSearcher::find_simplex', [Ptr(W.S), Ptr(W.Q)], want, lambda o: W.post(o, None, 'find_simplex'))
def u_coords(P, N, want):
    for name in ('barycentric_coords', 'barycentric_coords_mut'):
        W = Tri(P, N); W.opaque = True; e = W.e
        W.contracts(('BarycentricTransformation::solve', W.c_solve))
        b = W.fn('SimplexSearcher::' + name)
        i = z3.Int('simplex'); W.st.axiom(AND(i >= 0, i < W.M))
        out = [Ptr(W.C)] if name.endswith('mut') else []
        def post(outs):
            for s, v in outs:
                c = e.load(s, W.C, ()) if out else v
                goal(e, s, AND(*[deep_eq(x, y) for x, y in zip(c.cells, W.bary(i).cells)]), f'C02: {name} gives the query\'s coordinates in that simplex')
        run(W, 'SimplexSearcher::' + name, [Ptr(W.S), W.simplex(lty(b, 2), i), W.q] + out, want, post)
def u_new(P, N, want):
    """a new searcher satisfies the type's invariant, whatever the triangulation"""
    W = Tri(P, N); e = W.e; st = W.st
    b = W.fn('SimplexSearcher::new')
    bt = W.bty; tn = [x for x, _ in W.fields(bt)]
    def c_new(ctx, st, args):
        d, i = W.parts(args[0])
        if not (isinstance(d, Ptr) and d.obj == W.D): return NotImplemented
        W.e.oblige(st, AND(LE(0, i), LT(i, W.M)), 'pre', ctx.where('a transform is asked for a simplex of this triangulation'))
        return [(st, st.store[W.S].f[W.snames.index('transforms')].get(i))]
    W.contracts(('BarycentricTransformation::new', c_new))
    def post(outs):
        for s, v in outs:
            f = dict(zip(W.snames, v.f)); h = f['start_hint'].f[0]
            goal(e, s, EQ(h.d, 0), 'C03: a new searcher remembers no start')
            goal(e, s, isinstance(f['delaunay'], Ptr) and f['delaunay'].obj == W.D and f['delaunay'].path == (), 'C02: a new searcher searches the triangulation it was made for')
            goal(e, s, AND(NOT(f['eps'].nan), rle(Fraction(0), f['eps'].v)), 'C02: the tolerance is a number, not negative')
            goal(e, s, NOT(Z(f['bruteforce'])) if isz(f['bruteforce']) else not f['bruteforce'], 'C02: a new searcher does not always use brute force')
            t = f['transforms']
            if isinstance(t, Ptr): t = e.load(s, t.obj, t.path)
            goal(e, s, EQ(t.n, W.M), 'C02: one transform per simplex')
            i = z3.Int('simplex'); x = s.fork(); x.axiom(AND(i >= 0, i < W.M))
            goal(e, x, deep_eq(t.get(i), W.st.store[W.S].f[W.snames.index('transforms')].get(i)), 'C02: transform number i is that of simplex i')
            j = z3.Int('vertex number'); x = s.fork(); x.axiom(AND(j >= 0, j < W.V))
            for k in range(N):
                for nm, op in (('max_bounds', lambda a, c: a <= c), ('min_bounds', lambda a, c: a >= c)):
                    c = f[nm].cells[k]
                    goal(e, x, AND(NOT(c.nan), op(W.px(j, Z(k)), ZR(c.v))), f'C02: every vertex lies within {nm}, component {k}')
    run(W, 'SimplexSearcher::new', [Ptr(W.D)], want, post)
def u_settings(P, N, want):
    for name in ('set_bruteforce', 'set_eps', 'clear_start_hint', 'bruteforce', 'eps'):
        W = Tri(P, N); e = W.e; b = W.fn('SimplexSearcher::' + name)
        arg = {'set_bruteforce': [z3.Bool('flag')], 'set_eps': [F(z3.Real('tolerance'), z3.Bool('tolerance_nan'))]}.get(name, [])
        def post(outs):
            for s, v in outs:
                new = dict(zip(W.snames, s.store[W.S].f)); old = dict(zip(W.snames, W.st.store[W.S].f))
                want_ = dict(old)
                if name == 'set_bruteforce': want_['bruteforce'] = arg[0]
                if name == 'set_eps': want_['eps'] = arg[0]
                for k in W.snames:
                    if k == 'start_hint':
                        h = new[k].f[0]
                        if name == 'clear_start_hint': goal(e, s, EQ(h.d, 0), 'C03: the remembered start is forgotten')
                        else: goal(e, s, OR(EQ(h.d, 0), AND(EQ(h.d, 1), LE(0, h.p[1][0]), LT(h.p[1][0], W.M)) if 1 in h.p else False), f'C03: {name} keeps the remembered start valid')
                    elif want_[k] is not new[k]: goal(e, s, deep_eq(want_[k], new[k]), f'C02: {name} leaves {k} as documented')
                if name in ('bruteforce', 'eps'): goal(e, s, deep_eq(v, old[name]), f'C02: {name} reports the setting')
        run(W, 'SimplexSearcher::' + name, [Ptr(W.S)] + arg, want, post)
def u_lift(P, N, want):
    W = Tri(P, N); e = W.e; q = W.q; n = N
    def post(outs):
        for s, v in outs:
            for k in range(n): goal(e, s, deep_eq(v.cells[k], q.cells[k]), f'C14: component {k} of the lifted point is the point\'s')
            t = fconst(0)
            for k in range(n): t = fadd(t, fmul(q.cells[k], q.cells[k]))
            goal(e, s, deep_eq(v.cells[n], fadd(fmul(t, W.scale), W.shift)), 'C14: the added component is the scaled and shifted sum of squares')
            goal(e, s, v.r == n + 1 and v.c == 1, 'C14: one component more')
    run(W, 'Delaunay::lift_point', [Ptr(W.D), Ptr(W.Q)], want, post)
def u_plane(P, N, want):
    W = Tri(P, N); e = W.e; st = W.st; n = N; b = W.fn('Simplex::plane_distance')
    i = z3.Int('simplex'); st.axiom(AND(i >= 0, i < W.M))
    pt = Mat(n + 1, 1, [F(z3.Real(f'p_{k}'), z3.Bool(f'pnan_{k}')) for k in range(n + 1)]); o = e.alloc(st, pt, 'lifted')
    so = e.alloc(st, W.simplex(e.T[lty(b, 1)]['to'], i), 'simplex')
    def post(outs):
        for s, v in outs: goal(e, s, deep_eq(v, W.plane(i, pt)), 'C14: the distance is the inner product with the simplex\'s normal plus its offset')
    run(W, 'Simplex::plane_distance', [Ptr(so), Ptr(o)], want, post)
