"""The qhull C library and its memory at their contracts."""
from clib import *
from models import It

class Mem:
    def __init__(self, P):
        self.P = P; p = self.p = prog(P); W = self
        M = {}
        def ext(name, f):
            M['binding::' + name] = f; M['unix::' + name] = f; M[name] = f
        def rec(name, ret=None):
            def f(ctx, st, args):
                s = st.fork(); s.ev = s.ev + ((name,) + tuple(args),)
                return [(s, ret(ctx, s, args) if ret else Agg(None, []))]
            ext(name, f)
        rec('rqh_malloc', lambda c, s, a: CPtr('qh', 1))
        for n in ('rqh_stdin', 'rqh_stdout', 'rqh_stderr'): ext(n, lambda ctx, st, args: CPtr('file', 1))
        for n in ('qh_init_A', 'qh_init_B', 'qh_qhull', 'qh_triangulate', 'qh_freeqhull', 'qh_memfreeshort', 'free'): rec(n)
        ext('qh_initflags', lambda ctx, st, args: Agg(None, []))
        def field(ctx, st, args):
            s = st.fork(); o = ctx.e.alloc(s, z3.Int('flag'), 'flag')
            return [(s, Ptr(o))]
        for n in ('rqh_get_NOerrexit', 'rqh_get_PROJECTdelaunay'): ext(n, field)
        def malloc(ctx, st, args):
            s = st.fork(); k = sum(1 for x in s.ev if x[0] == 'malloc') + 1
            s.ev = s.ev + (('malloc', k, args[0]),)
            return [(s, CPtr('malloc', k))]
        ext('malloc', malloc)
        def calloc(ctx, st, args): return malloc(ctx, st, [MUL(args[0], args[1])])
        ext('calloc', calloc)
        def memcpy(ctx, st, args):
            """ISO C: both regions are n bytes long; the destination becomes a copy of the source"""
            d, q, n = args; e = ctx.e
            if not (isinstance(d, CPtr) and d.ty == 'malloc'): raise Unsupported('copy to memory not from malloc')
            size = [x[2] for x in st.ev if x[0] == 'malloc' and x[1] == d.addr][0]
            e.oblige(st, LE(n, size), 'memory', ctx.where('the copy fits into the allocated buffer'))
            if isinstance(q, Sl): q = Ptr(q.obj, q.path + (('i', q.start),))
            if not (isinstance(q, Ptr) and q.path and isinstance(q.path[-1], tuple) and q.path[-1][0] == 'i'): raise Unsupported('copy from this memory')
            b = e.load(st, q.obj, q.path[:-1]); k = q.path[-1][1]; es = W.esize(b)
            e.oblige(st, LE(ADD(MUL(k, es), n), MUL(b.n, es)), 'memory', ctx.where('the copy stays within the points given'))
            s = st.fork(); s.ev = s.ev + (('copy', d.addr, b, k, n),)
            return [(s, d)]
        for n in ('memcpy', 'memmove'): ext(n, memcpy)
        def cno(ctx, st, args):
            q, d, n = args
            if isinstance(d, CPtr):
                t = ctx.T['args'][0]
                return [(s, Agg(None, [])) for s, _ in memcpy(ctx, st, [d, q, MUL(n, ctx.e.size(t))])]
            return models._pcopy(ctx, st, args)
        M['ptr::copy_nonoverlapping'] = M['ptr::copy'] = cno
        self.e = Engine(p, contracts={}, models=M); self.st = State()
    def esize(self, b):
        """bytes of one element of a sequence of points"""
        x = b.get(0) if not (isinstance(b, SeqL) and b.n == 0) else None
        if isinstance(x, (Mat, Seq)): return 8 * x.n
        if isinstance(x, F): return 8
        raise Unsupported('element size')
    def dim(self, b):
        m = re.findall(r'Const<(\d+)', b['name']) or re.findall(r';\s*(\d+)\]', b['name'])
        T = [self.e.T[x[0] if isinstance(x, list) else x]['s'] for x in b['locals'][:b['argc'] + 1]]
        if not m: m = re.findall(r'Const<(\d+)', ' '.join(T))
        if not m: raise Unsupported('dimension of ' + b['name'])
        return int(m[0])
    def is_qh(self, v):
        if isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
        return isinstance(v, CPtr) and v.ty == 'qh' and v.addr == 1
    def hull(self, ty):
        e = self.e; fs = e.T[ty]['variants'][0]['fields']
        def val(n, t):
            return Agg(t, [CPtr('qh', 1)]) if 'NonNull' in e.T[t]['s'] else Agg(t, [])
        return Agg(ty, [val(n, t) for n, t in fs])
    def state_of(self, v):
        """the qhull state kept by a raw hull or triangulation"""
        e = self.e
        ns = [n for n, _ in e.T[v.ty]['variants'][0]['fields']]
        if 'qh' in ns: return v.f[ns.index('qh')]
        for x in v.f:
            if isinstance(x, Agg) and x.ty is not None and e.T[x.ty]['k'] == 'adt':
                r = self.state_of(x)
                if r is not None: return r
        return None
    def buffer_ok(self, s, buf, cnt, n, N, x):
        """buf is a heap buffer of exactly n*N doubles holding the points in order"""
        e = self.e
        if not (isinstance(buf, CPtr) and buf.ty == 'malloc'): goal(e, s, False, 'the buffer is on the C heap'); return
        size = [y[2] for y in s.ev if y[0] == 'malloc' and y[1] == buf.addr][0]
        goal(e, s, EQ(size, MUL(n, 8 * N)), 'the buffer is exactly as long as the points')
        goal(e, s, EQ(cnt, n), 'the number of points is the one given')
        cp = [y for y in s.ev if y[0] == 'copy' and y[1] == buf.addr]
        goal(e, s, len(cp) == 1, 'the points are copied once')
        if len(cp) != 1: return
        _, _, b, k, m = cp[0]
        goal(e, s, EQ(m, MUL(n, 8 * N)), 'every point is copied')
        es = self.esize(b); j, c = z3.Int('point'), z3.Int('component')
        t = s.fork(); t.axiom(AND(j >= 0, j < n))
        for c in range(N):
            at = b.get(ADD(k, j)).get(c) if es == 8 * N else b.get(ADD(k, ADD(MUL(j, N), c)))
            goal(e, t, AND(NOT(at.nan), EQ(at.v, x(j, Z(c)))), f'component {c} of every point is unchanged and in its place')
        goal(e, s, not [y for y in s.ev if y[0] == 'free'], 'the buffer is left to its new owner')
    def abstract_hull(self, N, dims=None):
        """contracts of the accessors of a hull in N dimensions that has been built: facets and vertices are known by their
        position in qhull's lists; N vertices and N neighbours to a facet (Qt), all of them in the lists; ids tell them apart"""
        e = self.e; p = self.p; W = self; self.HN = N
        UF = lambda nm, k, r=I: z3.Function(nm, *([I] * k + [r]))
        self.nf, self.nv = z3.Int('qhull facets'), z3.Int('qhull vertices')
        self.st.axiom(AND(self.nf >= 0, self.nf < 2 ** 32, self.nv >= 0, self.nv < 2 ** 32))
        self.fv, self.fn_, self.fid, self.vid = UF('facet_vertex', 2), UF('facet_neighbour', 2), UF('facet_id', 1), UF('vertex_id', 1)
        self.fpos, self.vpos = UF('facet_of_id', 1), UF('vertex_of_id', 1)
        self.upper = UF('upper', 1, B); self.nrm = UF('facet_normal', 2, R); self.off = UF('facet_offset', 1, R); self.pt = UF('vertex_point', 2, R)
        v = z3.Int('@t')
        self.st.facts = self.st.facts + (
            Fact(v, IMP(AND(v >= 0, v < self.nf), AND(*[AND(f(v, Z(k)) >= 0, f(v, Z(k)) < n) for k in range(N) for f, n in ((self.fv, self.nv), (self.fn_, self.nf))])), 'facets are simplices of listed vertices with listed neighbours'),
            Fact(v, IMP(AND(v >= 0, v < self.nf), AND(self.fid(v) >= 1, self.fid(v) < 2 ** 32, self.fpos(self.fid(v)) == v)), 'facet ids are distinct'),
            Fact(v, IMP(AND(v >= 0, v < self.nv), AND(self.vid(v) >= 1, self.vid(v) < 2 ** 32, self.vpos(self.vid(v)) == v)), 'vertex ids are distinct'))
        def ty(nm):
            r = [i for i, t in enumerate(e.T) if t['k'] == 'adt' and t['name'].endswith('raw::' + nm)]
            return r[0] if r else None
        ft, vt = ty('Facet'), ty('Vertex')
        def ref(t, kind): return lambda i: Agg(t, [Agg(None, [CPtr(kind, i)]), Agg(None, [])])
        self.facet, self.vertex = ref(ft, 'facet'), ref(vt, 'vertex')
        def pos(st, x, kind):
            while isinstance(x, Ptr): x = e.load(st, x.obj, x.path)
            while isinstance(x, Agg) and x.f: x = x.f[0]
            return x.addr if isinstance(x, CPtr) and x.ty == kind else None
        self.pos = pos
        C = {}
        def acc(name, kind, f):
            def g(ctx, st, args):
                i = pos(st, args[0], kind)
                return NotImplemented if i is None else f(ctx, st, Z(i))
            C['raw.rs|' + name] = g
        facets = lambda ctx, st, args: [(st, It('seq', Seq(W.nf, W.facet, ('sym', 'facets')), 0))]
        vertices = lambda ctx, st, args: [(st, It('seq', Seq(W.nv, W.vertex, ('sym', 'vertices')), 0))]
        for n in ('RawHull::facets', 'RawDelaunay::simplices', 'RawDelaunay::full_simplices'): C['raw.rs|' + n] = facets
        for n in ('RawHull::vertices', 'RawDelaunay::vertices', 'RawDelaunay::full_vertices'): C['raw.rs|' + n] = vertices
        def nxt(ctx, st, args):
            v = args[0]
            while isinstance(v, Ptr): v = e.load(st, v.obj, v.path)
            return models._next(ctx, st, args) if isinstance(v, models.It) else NotImplemented
        C['raw.rs|next'] = nxt
        acc('Facet::id', 'facet', lambda c, s, i: [(s, W.fid(i))])
        acc('Vertex::id', 'vertex', lambda c, s, i: [(s, W.vid(i))])
        acc('Facet::is_upper_delaunay', 'facet', lambda c, s, i: [(s, W.upper(i))])
        acc('Facet::offset', 'facet', lambda c, s, i: [(s, F(W.off(i)))])
        acc('Facet::vertices', 'facet', lambda c, s, i: [(s, It('seq', SeqL([W.vertex(W.fv(i, Z(k))) for k in range(N)]), 0))])
        acc('Facet::neighbors', 'facet', lambda c, s, i: [(s, It('seq', SeqL([W.facet(W.fn_(i, Z(k))) for k in range(N)]), 0))])
        def cells(ctx, st, q):
            s = st.fork(); o = e.alloc(s, q, 'cells')
            return [(s, Sl(o, (), 0, q.n))]
        self.slack = 0
        acc('Facet::normal', 'facet', lambda c, s, i: cells(c, s, SeqL([F(W.nrm(i, Z(k))) for k in range(N + W.slack)])))
        acc('Vertex::point', 'vertex', lambda c, s, i: cells(c, s, SeqL([F(W.pt(i, Z(k))) for k in range(W.pdim)])))
        self.pdim = N
        def eq(ctx, st, args):
            for k in ('facet', 'vertex'):
                a, b = pos(st, args[0], k), pos(st, args[1], k)
                if a is not None and b is not None: return [(st, EQ(a, b))]
            return NotImplemented
        C['raw.rs|eq'] = eq
        for n in ('last_low', 'last_high', 'last_newhigh'):
            C['raw.rs|RawDelaunay::' + n] = lambda ctx, st, args, n=n: [(st, F(z3.Real('qhull ' + n)))]
        e.contracts.update(C)
