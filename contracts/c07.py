"""C07: reconstruction.

Data structure invariant of DecomposedImage: the matrix has width*height rows (see C06)."""
from clib import *
from c08 import decomposed, level

def reconstruct(P):
    p = prog(P); eng = Engine(p)
    b = body1(p, r'lib\.rs\|DecomposedImage::reconstruct$')
    st = State()
    self_, m, w, h = decomposed(eng, st, b)
    pal = eng.symbolic(st, lty(b, 2), 'palette')
    if not cover(P, eng, st, 'reconstruct'): return
    outs = eng.call_body(st, b, [self_, pal])
    fn = p.body_id(b)
    if not outs: P.undecided('returns', fn, 'no returning path'); return
    base = eng.load(st, pal.obj, pal.path)
    for s, v in outs:
        goal(eng, s, IMP(NOT(EQ(pal.len, m.c)), EQ(v.d, 0)), 'a palette of another length gives nothing')
        goal(eng, s, IMP(EQ(pal.len, m.c), EQ(v.d, 1)), 'a palette with one colour per channel gives an image')
        if v.d is False or v.d == 0 and not isz(v.d) or 1 not in v.p: continue
        im = v.p[1][0]
        t = s.fork()
        if isz(v.d): t.assume(v.d == 1)
        goal(eng, t, AND(EQ(im.w, w), EQ(im.h, h)), 'the result has the image\'s dimensions')
        i = z3.Int('pixel'); t.axiom(AND(i >= 0, i < w * h))
        px = im.data.get(i)
        for c in range(3):
            want = nalg.sumterm(eng, t, m.c, lambda k: fmul(m.at(i, k), F(z3.ToReal(base.get(ADD(pal.start, k)).f[0].get(c)))))
            goal(eng, t, EQ(px.f[0].get(c), level(want)), f'component {c} of every pixel is the palette mixture at its own position, clamped and converted')
    P.note(f'reconstruct: {len(outs)} symbolic paths')
    discharge(P, eng, fn)

def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.assume('DecomposedImage invariant: the matrix has width*height rows (established by the constructor, proved under C06)')
    attempt(P, 'reconstruct', 'lib.rs', lambda: reconstruct(P))
