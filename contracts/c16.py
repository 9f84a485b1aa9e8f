"""C16: the point buffers handed to qhull.  malloc, memcpy, free and qhull's own functions are taken at their C contracts and
recorded as events; every constructor has to make a buffer of n*dim*8 bytes holding the given points in order and hand it
over with its ownership."""
from clib import *
import raw

def handed(W, s, src, what):
    """the call of init_shared / qh_init_B in state s gets a complete buffer; src = (count, sequence of the points' cells)"""
    e = W.e
def constructors(P):
    p = prog(P)
    names = [b for b in body(p, r'raw\.rs\|(RawHull|RawDelaunay)::(from_arrays|from_vectors)$') + body(p, r'raw\.rs\|from_iter$') ]
    seen = {}
    for b in names:
        if not re.search(r'qhull_rs|RawHull|RawDelaunay|ConvexHull|Delaunay', b['name']): continue
        attempt(P, b['name'], p.body_id(b), lambda: constructor(P, b['name'], b['key']))
def constructor(P, name, key):
    W = raw.Mem(P); e, p, st = W.e, W.p, W.st
    b = p.B[key]
    at = lty(b, 1); N = W.dim(b)
    res = []
    def c_init(ctx, s, args):
        t = s.fork(); t.ev = t.ev + (('init', args[0], args[1]),)
        return [(t, Opaque('hull'))]
    for ib in body(p, r'raw\.rs\|(RawHull|RawDelaunay)::init_shared$'): e.contracts[p.body_id(ib)] = c_init
    T = e.T[at]
    x = z3.Function('coordinate', I, I, R); n = z3.Int('points'); st.axiom(AND(n >= 0, n * N * 8 < 2 ** 63))
    def item(et):
        k = e.T[et]['k']
        if k == 'array': return lambda j: SeqL([F(x(Z(j), Z(i)), False) for i in range(N)])
        return lambda j: Mat(N, 1, [F(x(Z(j), Z(i)), False) for i in range(N)])
    if T['k'] == 'ref':
        et = e.T[T['to']]['elem']
        q = Seq(n, item(et), ('sym', 'points')); o = e.alloc(st, q, 'points')
        args = [Sl(o, (), 0, n)]
    else:
        # whatever the iterator is, it yields n points
        q = Seq(n, lambda j: Mat(N, 1, [F(x(Z(j), Z(i)), False) for i in range(N)]), ('sym', 'points')); args = [q]; o = None
    if not cover(P, e, st, name): raise Unsupported('precondition')
    outs = e.call_body(st, b, args)
    if not outs: raise Unsupported('no returning path')
    for s, v in outs:
        ini = [x_ for x_ in s.ev if x_[0] in ('init', 'qh_init_B')]
        if len(ini) != 1: goal(e, s, False, 'the hull is initialised once'); continue
        W.buffer_ok(s, ini[0][1], ini[0][2], n, N, x)
        if o is not None: goal(e, s, s.store[o] is q, 'the given points are only read')
    discharge(P, e, p.body_id(b), prefix=name.split('::')[-1] + f' ({e.T[at]["s"][:40]}): ')

def inits(P):
    p = prog(P)
    for b in body(p, r'raw\.rs\|(RawHull|RawDelaunay)::init_shared$'): attempt(P, b['name'], p.body_id(b), lambda: init(P, b['name'], b['key']))
def init(P, name, key):
    W = raw.Mem(P); e, p, st = W.e, W.p, W.st
    b = p.B[key]; N = W.dim(b); W.abstract_hull(N + 1 if "Delaunay" in p.body_id(b) else N); W.pdim = N
    buf = CPtr('malloc', 1); n = z3.Int('points'); st.axiom(AND(n >= 0, n < 2 ** 31))
    outs = e.call_body(st, b, [buf, n])
    if not outs: raise Unsupported('no returning path')
    for s, v in outs:
        ini = [x for x in s.ev if x[0] == 'qh_init_B']
        if len(ini) != 1: goal(e, s, False, 'qhull is given the points once'); continue
        qh, pts, cnt, dim, own = ini[0][1:6]
        goal(e, s, isinstance(pts, CPtr) and pts.ty == 'malloc' and pts.addr == 1, 'qhull is given the buffer passed in')
        goal(e, s, EQ(cnt, n), 'qhull is told the number of points')
        goal(e, s, EQ(dim, N), 'qhull is told the dimension')
        goal(e, s, EQ(own, 1), 'qhull is given the ownership of the buffer')
        mk = [x for x in s.ev if x[0] == 'rqh_malloc']
        goal(e, s, len(mk) == 1 and W.is_qh(qh), 'there is one qhull state')
        runs = [x[0] for x in s.ev if x[0] in ('qh_init_A', 'qh_init_B', 'qh_qhull', 'qh_triangulate')]
        goal(e, s, runs == ['qh_init_A', 'qh_init_B', 'qh_qhull', 'qh_triangulate'], 'qhull is initialised before it runs')
        goal(e, s, W.is_qh(W.state_of(v)), 'the hull keeps that state')
        goal(e, s, not [x for x in s.ev if x[0] in ('free', 'qh_freeqhull')], 'the state and the buffer are not released')
    discharge(P, e, p.body_id(b), prefix=name.split('::')[-3].replace('qhull_rs', '') + f' init_shared ({N}): ')

def drops(P):
    p = prog(P)
    bs = [b for b in body(p, r'raw\.rs\|drop$')]
    for b in bs: attempt(P, b['name'], p.body_id(b), lambda: drop(P, b['name'], b['key']))
def drop(P, name, key):
    W = raw.Mem(P); e, p, st = W.e, W.p, W.st
    b = p.B[key]
    h = W.hull(e.T[lty(b, 1)]['to'])
    o = e.alloc(st, h, 'hull')
    outs = e.call_body(st, b, [Ptr(o)])
    if not outs: raise Unsupported('no returning path')
    for s, v in outs:
        k = [x[0] for x in s.ev]
        goal(e, s, k.count('qh_freeqhull') == 1 and k.count('qh_memfreeshort') == 1 and k.count('free') == 1, 'every part of qhull\'s state is released once')
        goal(e, s, k == ['qh_freeqhull', 'qh_memfreeshort', 'free'], 'the state is released last')
        goal(e, s, all(W.is_qh(x[1]) for x in s.ev), 'what is released is this hull\'s state')
    discharge(P, e, p.body_id(b), prefix=f'drop ({e.T[lty(b, 1)]["s"][-30:]}): ')
def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.trust('malloc, memcpy, free and the qhull entry points at their C contracts')
    P.assume('memory is not exhausted', 'at most 2^31-1 points, which is all qhull can count')
    constructors(P); inits(P); drops(P)
