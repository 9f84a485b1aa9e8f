"""C05: the closest-point function against the variational characterisation of the nearest point.

The four vectors v0, E0 = v1-v0, E1 = v2-v0 and D = v0-point are arbitrary; inner products are the
entries of their Gram matrix, of which only positive semi-definiteness is used."""
from clib import *

def setup(P):
    p = prog(P); eng = Engine(p)
    basis = {n: [z3.Real(f'{n}_{i}') for i in range(3)] for n in ('V', 'E', 'G', 'D')}
    gram = {}
    for a in 'EGD':
        for b in 'EGD':
            k = tuple(sorted((a, b))); gram[k] = z3.Real('g_' + ''.join(k))
    return p, eng, basis, gram
def lincomb(basis, m):
    """coefficients of a 3-vector over V,E,G,D or None; the coefficients may contain Gram entries"""
    co = {}
    cells = [ZR(m.cells[i].v) for i in range(3)]
    for n in basis:
        sub = [(x, z3.RealVal(0)) for k in basis for x in basis[k]]
        def at(i):
            s = [(x, z3.RealVal(1 if (k == n and j == i) else 0)) for k in basis for j, x in enumerate(basis[k])]
            return z3.simplify(z3.substitute(cells[i], *s), som=True)
        co[n] = at(0)
    goals = []
    for i in range(3):
        want = sum((co[n] * basis[n][i] for n in basis), z3.RealVal(0))
        goals.append(cells[i] == want)
    return co, goals
def psd(g):
    E, G, D, EG, ED, GD = g['E', 'E'], g['G', 'G'], g['D', 'D'], g['E', 'G'], g['D', 'E'], g['D', 'G']
    return [E >= 0, G >= 0, D >= 0, E * G - EG * EG >= 0, E * D - ED * ED >= 0, G * D - GD * GD >= 0,
            E * (G * D - GD * GD) - EG * (EG * D - GD * ED) + ED * (EG * GD - G * ED) >= 0]

def closest(P):
    p, eng, basis, gram = setup(P)
    def gdot(ctx, st, a, b):
        if not (isinstance(a, Mat) and isinstance(b, Mat) and a.n == 3 and b.n == 3): return None
        ca, ga = lincomb(basis, a); cb, gb = lincomb(basis, b)
        for g in ga + gb:
            if not z3.is_true(z3.simplify(g, som=True)) and eng.check([z3.Not(g)], timeout=3000) != 'unsat': return None
        tot = z3.RealVal(0)
        for x in ca:
            for y in cb:
                c = z3.simplify(ca[x] * cb[y], som=True)
                if z3.is_rational_value(c) and c.as_fraction() == 0: continue
                if x == 'V' or y == 'V': return None
                tot = tot + c * gram[tuple(sorted((x, y)))]
        return F(z3.simplify(tot, som=True), OR(*[q.nan for q in a.cells + b.cells]))
    eng.models['hook:dot'] = gdot
    b = body1(p, r'triangle_closest_point$')
    st = State()
    vec = lambda f: Mat(3, 1, [F(z3.simplify(f(i))) for i in range(3)])
    V, E, G, D = (basis[n] for n in 'VEGD')
    ps = [vec(lambda i: V[i] - D[i]), vec(lambda i: V[i]), vec(lambda i: V[i] + E[i]), vec(lambda i: V[i] + G[i])]
    for a in psd(gram): st.axiom(a)
    if not cover(P, eng, st, 'triangle_closest_point'): return
    outs = eng.call_body(st, b, [Ptr(eng.alloc(st, v, 'a')) for v in ps])
    fn = p.body_id(b)
    if not outs: P.undecided('returns', fn, 'no returning path'); return
    g = gram; E_, G_, EG, ED, GD = g['E', 'E'], g['G', 'G'], g['E', 'G'], g['D', 'E'], g['D', 'G']
    for n, (s, v) in enumerate(outs):
        co, gs = lincomb(basis, v)
        goal(eng, s, NOT(OR(*[q.nan for q in v.cells])), 'the nearest point is a finite point')
        x, y = co['E'], co['G']
        goal(eng, s, AND(*gs, co['V'] == 1, co['D'] == 0), 'the result is v0 + s(v1-v0) + t(v2-v0)')
        goal(eng, s, AND(x >= 0, y >= 0, x + y <= 1), 'the result lies in the triangle')
        gx = ED + x * E_ + y * EG; gy = GD + x * EG + y * G_
        m = x * gx + y * gy
        for nm, q in (('v0', -m), ('v1', gx - m), ('v2', gy - m)):
            goal(eng, s, q >= 0, f'no point towards {nm} is closer to the query point')
    P.note(f'triangle_closest_point: {len(outs)} symbolic paths')
    discharge(P, eng, fn, 40000)

def distance(P):
    p = prog(P); eng = Engine(p)
    b = body1(p, r'triangle_distance_sqr$')
    C = [z3.Real(f'C_{i}') for i in range(3)]
    calls = []
    def contract(ctx, st, args):
        calls.append([deref(ctx, st, a) for a in args])
        return Mat(3, 1, [F(c) for c in C])
    eng.contracts[p.body_id(body1(p, r'triangle_closest_point$'))] = contract
    st = State(); args = args_of(eng, st, b, {1: 'p', 2: 'a', 3: 'b', 4: 'c'})
    vs = [eng.load(st, a.obj, a.path) for a in args]
    outs = eng.call_body(st, b, args)
    fn = p.body_id(b)
    for s, v in outs:
        if len(calls) == 1:
            goal(eng, s, AND(*[deep_eq(x, y) for x, y in zip(calls[0], vs)]), 'the nearest point asked for is the given point\'s in the given triangle')
        else: P.undecided('uses the nearest point', fn, f'{len(calls)} calls'); 
        d = sum(((ZR(vs[0].cells[i].v) - C[i]) * (ZR(vs[0].cells[i].v) - C[i]) for i in range(3)), z3.RealVal(0))
        goal(eng, s, AND(NOT(v.nan), ZR(v.v) == d), 'the reported squared distance is the squared distance to the nearest point')
    discharge(P, eng, fn)

def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.assume('variational inequality at the three corners implies minimality over the whole triangle (convexity of the squared distance)')
    attempt(P, 'triangle_closest_point', 'triangle_distance.rs', lambda: closest(P))
    attempt(P, 'triangle_distance_sqr', 'triangle_distance.rs', lambda: distance(P))
