"""C08: channel images.

Data structure invariant of DecomposedImage (established by DecomposedImage::new, see C06):
the matrix has width*height rows."""
from clib import *

def decomposed(eng, st, b, name='self'):
    """an arbitrary decomposed image that satisfies the invariant"""
    T = eng.T[eng.T[lty(b, 1)]['to']]
    v = eng.symbolic(st, eng.T[lty(b, 1)]['to'], name)
    names = [f[0] for f in T['variants'][0]['fields']]
    g = {n: v.f[i] for i, n in enumerate(names)}
    m = next(x for x in v.f if isinstance(x, MatF))
    w, h = g['width'], g['height']
    nf = list(v.f); nf[v.f.index(m)] = MatF(w * h, m.c, m._at)
    v = Agg(v.ty, nf)
    st.axiom(AND(w >= 0, h >= 0, w * h <= 2 ** 60, m.c >= 0))
    return Ptr(eng.alloc(st, v, name)), nf[[i for i, x in enumerate(nf) if isinstance(x, MatF)][0]], w, h
def level(x):
    """specification of the conversion: clamp to 0..255, drop the fraction; not-a-number gives 0"""
    v = ZR(x.v)
    t = z3.If(v < 0, z3.RealVal(0), z3.If(v > 255, z3.RealVal(255), v))
    return ITE(x.nan, 0, z3.ToInt(t))

def channel(P):
    p = prog(P); eng = Engine(p)
    b = body1(p, r'lib\.rs\|DecomposedImage::get_channel_grayscale$')
    st = State()
    self_, m, w, h = decomposed(eng, st, b)
    n = z3.Int('n'); st.axiom(AND(n >= 0, n < 2 ** 64))
    if not cover(P, eng, st, 'get_channel_grayscale'): return
    outs = eng.call_body(st, b, [self_, n])
    fn = p.body_id(b)
    if not outs: P.undecided('returns', fn, 'no returning path'); return
    for s, v in outs:
        goal(eng, s, EQ(v.d, 0) if False else IMP(n >= m.c, EQ(v.d, 0)), 'a channel beyond the last gives nothing')
        goal(eng, s, IMP(n < m.c, EQ(v.d, 1)), 'every other channel gives an image')
        if 1 not in v.p or not v.p[1]: continue
        im = v.p[1][0]
        c = EQ(v.d, 1)
        if c is False: continue
        t = s.fork()
        if c is not True: t.assume(c)
        goal(eng, t, AND(EQ(im.w, w), EQ(im.h, h)), 'the channel image has the image\'s dimensions')
        i = z3.Int('pixel'); t.axiom(AND(i >= 0, i < w * h))
        px = im.data.get(i)
        want = level(fmul(m.at(i, n), F(Fraction(255))))
        goal(eng, t, EQ(px.f[0].get(0), want), 'every pixel is its own weight of that channel, scaled, clamped and converted')
    P.note(f'get_channel_grayscale: {len(outs)} symbolic paths')
    discharge(P, eng, fn)

def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.assume('DecomposedImage invariant: the matrix has width*height rows (established by the constructor, proved under C06)')
    attempt(P, 'get_channel_grayscale', 'lib.rs', lambda: channel(P))
