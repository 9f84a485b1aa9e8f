"""The command line tool's own function, with the outside world (files, argument parsing, terminal) as recorded events."""
from clib import *
import strs
from strs import Text, Joined

def run_main(P, crate='image_palette_recoloring_cli'):
    """symbolic execution of main_inner: -> engine, [(state, value, events)], functions replaced by events"""
    p = prog(P, crate)
    ev = []
    def ok(v): return lambda ctx, st, args: En(ctx.dty, 0, {0: (v(ctx, st, args),)})
    def opq(name): return lambda ctx, st, args: Opaque(name, ())
    def some_opq(name):
        def f(ctx, st, args):
            return En(ctx.dty, 1, {1: (Ptr(ctx.e.alloc(st, Opaque(name), name)),)})
        return f
    def into_rgb8(ctx, st, args): return Opaque('decoded:' + args[0].name)
    def thing(v, ctx, st):
        while isinstance(v, Ptr): v = ctx.e.load(st, v.obj, v.path)
        return v
    def reader(ctx, st, args): return Opaque('file', (thing(args[0], ctx, st),))
    def decode(ctx, st, args): return Opaque('decoded', args[0].args)
    def into_rgb8(ctx, st, args): return Opaque('image', args[0].args)
    def save(ctx, st, args):
        v = thing(args[0], ctx, st)
        if isinstance(v, Opaque) and v.name == 'channel': return [(st, En(ctx.dty, 0, {0: (Agg(None, []),)}))]
        st = st.fork(); st.ev = st.ev + (('save', thing(args[0], ctx, st), thing(args[1], ctx, st)),)
        return [(st, En(ctx.dty, 0, {0: (Agg(None, []),)}))]
    def prnt(ctx, st, args):
        st = st.fork(); st.ev = st.ev + (('print', args[0]),)
        return [(st, Agg(None, []))]
    def deref_(ctx, st, args):
        v = thing(args[0], ctx, st)
        if isinstance(v, Opaque): return args[0]
        return models.MODELS['Deref::deref'](ctx, st, args)
    def clone(ctx, st, args):
        v = thing(args[0], ctx, st)
        return v
    M = {'fresh:PathBuf': lambda e, st, t, name, idx: Opaque('path:' + name), 'fresh:ImageBuffer': lambda e, st, t, name, idx: Opaque('img:' + name),
         'Parser::parse': lambda ctx, st, args: ctx.e.symbolic(st, ctx.dty, 'cli'),
         'Reader::open': ok(reader), 'Reader::decode': ok(decode), 'DynamicImage::into_rgb8': into_rgb8, 'ImageBuffer::save': save,
         'io::_print': prnt, 'Deref::deref': deref_, 'Path::file_stem': some_opq('stem'), 'Path::extension': some_opq('extension'),
         'PathBuf::pop': lambda ctx, st, args: True, 'OsStr::to_os_string': opq('name'), 'Write::write_fmt': ok(lambda c, s, a: Agg(None, [])),
         'OsString::push': lambda ctx, st, args: Agg(None, []), 'Path::join': opq('channel path'), 'Clone::clone': clone,
         'rt::panic_fmt': lambda ctx, st, args: []}
    C = {}
    def snap(ctx, st, sl):
        base = ctx.e.load(st, sl.obj, sl.path)
        return Seq(sl.len, lambda k: base.get(ADD(sl.start, k)))
    def palette(ctx, st, args):
        s = st.fork(); n = z3.Const('npalette', I)
        s.axiom(n >= 0)
        q = ctx.e.symseq(s, ctx.e.T[ctx.dty]['args'][0], 'computed')
        s.ev = s.ev + (('compute_palette', [thing(args[0], ctx, st)] + list(args[1:])),)
        return [(s, q)]
    def weights(ctx, st, args):
        return [(st, Opaque('weights', (thing(args[0], ctx, st),)))]
    def decompose(ctx, st, args):
        s = st.fork(); s.ev = s.ev + (('decompose', thing(args[0], ctx, st), snap(ctx, st, args[1])),)
        return [(s, En(ctx.dty, 0, {0: (Opaque('decomposed', ()),)}))]
    def reconstruct(ctx, st, args):
        s = st.fork(); s.ev = s.ev + (('reconstruct', thing(args[0], ctx, st), snap(ctx, st, args[1])),)
        return [(s, En(ctx.dty, 1, {1: (Opaque('recoloured'),)}))]
    def gray(ctx, st, args):
        return [(st, En(ctx.dty, 1, {1: (Opaque('channel', (args[1],)),)}))]
    for pat, f in ((r'\|image_palette_recoloring::compute_palette$', palette), (r'\|ImageWeights::new$', weights), (r'\|DecomposedImage::new$', decompose),
                   (r'\|DecomposedImage::reconstruct$', reconstruct), (r'\|DecomposedImage::get_channel_grayscale$', gray)):
        for b in body(p, pat): C[p.body_id(b)] = f
    eng = Engine(p, contracts=C, models=M)
    b = body1(p, r'image_palette_recoloring_cli::main_inner$')
    outs = eng.call_body(State(), b, [])
    eng.obls = []          # main may panic on missing files and mismatched lists
    return eng, p.body_id(b), outs

def prints(P):
    """the palette is printed as its colours' lower-case hexadecimal digits, joined by commas"""
    eng, fn, outs = run_main(P)
    n = 0
    for s, v in outs:
        pr = [x for x in s.ev if x[0] == 'print']
        if not any(x[0] == 'compute_palette' for x in s.ev): continue
        n += 1
        ok = len(pr) == 1 and isinstance(pr[0][1], Text) and len(pr[0][1].pieces) == 2 and pr[0][1].pieces[1] == b'\n' and isinstance(pr[0][1].pieces[0], tuple) \
            and pr[0][1].pieces[0][2].kind == 'display' and isinstance(pr[0][1].pieces[0][2].val, Joined)
        if not ok: P.undecided('printed text', fn, 'the printed text is not a joined list'); continue
        j = pr[0][1].pieces[0][2].val
        goal(eng, s, j.sep == b',', 'the printed colours are separated by commas')
        pal = eng.symseq(s, None, 'computed')
        goal(eng, s, EQ(j.seq.n, pal.n), 'every colour of the palette is printed')
        k = z3.Int('colour'); t = s.fork(); t.axiom(AND(k >= 0, k < pal.n))
        q = j.seq.get(k)
        col = j_color(eng, t, P, k)
        if not isinstance(q, SeqL) or q.n != 6:
            P.undecided('printed colour', fn, 'the printed colour is not six characters of known form'); continue
        for i in range(6):
            x = q.get(i)
            goal(eng, t, AND(strs.hexd(x), NOT(EQ(x, 44))), f'printed character {i} of every colour is a hexadecimal digit')
        for c, nm in enumerate(('red', 'green', 'blue')):
            goal(eng, t, EQ(ADD(MUL(strs.hexval(q.get(2 * c)), 16), strs.hexval(q.get(2 * c + 1))), col.get(c)), f'reading the printed {nm} digits back gives the colour')
    if not n: P.undecided('printed text', fn, 'no path prints a palette')
    discharge(P, eng, fn)
def j_color(eng, st, P, k):
    et = next(i for i, t in enumerate(eng.T) if t['k'] == 'adt' and t['name'].endswith('Rgb') and eng.T[t['args'][0]]['k'] == 'uint' and eng.T[t['args'][0]]['bits'] == 8)
    return eng.symbolic(st, et, 'computed[]', (k,)).f[0]
