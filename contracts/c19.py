"""C19: colour lists. The text is an arbitrary byte string; str::split(',') is taken at its documented
meaning (maximal comma-free pieces, in order); hexadecimal digits and their values are defined here."""
from clib import *
from strs import pieces, hexd, hexval

def parse(P):
    p = prog(P, 'image_palette_recoloring_cli'); eng = Engine(p)
    b = body1(p, r'parse_color_list$')
    st = State()
    txt = eng.symbolic(st, lty(b, 1), 'text')
    if not cover(P, eng, st, 'parse_color_list'): return
    q = pieces(eng, st, txt, ord(','))
    outs = eng.call_body(st, b, [txt])
    fn = p.body_id(b)
    if not outs: P.undecided('returns', fn, 'no returning path'); return
    P.note(f'parse_color_list: {len(outs)} symbolic paths')
    base = eng.load(st, txt.obj, txt.path)
    at = lambda j: base.get(ADD(txt.start, j))
    def good(k): return AND(EQ(q.b(k) - q.a(k), 6), *[hexd(at(q.a(k) + c)) for c in range(6)])
    for s, v in outs:
        # an accepted text: every piece is a colour, and the colours are those of the pieces in order
        if v.d is not True and not (not isz(v.d) and v.d != 0):
            t = s.fork()
            if isz(v.d): t.assume(v.d == 0)
            if eng.feasible(t):
                cols = v.p[0][0].f[0]
                k = z3.Int('piece'); t.axiom(AND(k >= 0, k < q.m))
                goal(eng, t, EQ(cols.n, q.m), 'an accepted text yields one colour per comma-separated piece')
                goal(eng, t, good(Z(k)), 'in an accepted text every piece is a six-digit hexadecimal colour')
                px = cols.get(k).f[0]
                for c, nm in enumerate(('red', 'green', 'blue')):
                    goal(eng, t, EQ(px.get(c), ADD(MUL(hexval(at(q.a(k) + 2 * c)), 16), hexval(at(q.a(k) + 2 * c + 1)))), f'{nm} of the k-th colour is the value of its own two digits')
        if v.d != 0 or isz(v.d):
            t = s.fork()
            if isz(v.d): t.assume(v.d == 1)
            if eng.feasible(t):
                w = z3.Int(freshname('w'))
                t.facts = t.facts + (Fact(w, IMP(AND(w >= 0, w < q.m), good(w)), 'all pieces are colours'),)
                goal(eng, t, False, 'a list of six-digit hexadecimal colours is never rejected')
    discharge(P, eng, fn)

def prove(P):
    P.trust(*STD)
    P.assume('joining texts without commas by commas and splitting the result at commas gives the texts back (str::split, slice::join)')
    import cli
    attempt(P, 'parse_color_list', 'main.rs', lambda: parse(P))
    attempt(P, 'printed palette', 'main.rs', lambda: cli.prints(P))
