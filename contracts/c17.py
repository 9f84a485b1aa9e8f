"""C17: the C interface. Caller memory is an object of exactly the size the interface's documentation asks for;
every view of it must stay inside, and what is written is compared with what the library function returned.
The library functions are taken at their own contracts (C01, C06, C07, C08, C09)."""
from clib import *
CR = 'image_palette_recoloring_c'
from nalg import Img

def unwrap(eng, st, v):
    while isinstance(v, Ptr): v = eng.load(st, v.obj, v.path)
    return v
class World:
    """the library functions at their contracts, recording what they are given"""
    def __init__(self, P):
        self.P = P; p = self.p = prog(P, CR)
        W = self
        def snap(e, st, sl):
            b = e.load(st, sl.obj, sl.path)
            return (sl, Seq(sl.len, lambda k: b.get(ADD(sl.start, k))))
        def weights(ctx, st, args):
            s = st.fork(); s.ev = s.ev + (('weights', unwrap(ctx.e, s, args[0])),)
            return [(s, Opaque('weights'))]
        def palette(ctx, st, args):
            s = st.fork(); s.ev = s.ev + (('palette', unwrap(ctx.e, s, args[0])) + tuple(args[1:]),)
            return [(s, ctx.e.symseq(s, ctx.e.T[ctx.dty]['args'][0], 'computed'))]
        def new(ctx, st, args):
            s = st.fork(); s.ev = s.ev + (('new', args[0], snap(ctx.e, s, args[1])),)
            return [(s.fork().assume(z3.Bool('palette accepted')), En(ctx.dty, 0, {0: (Opaque('decomposed'),)})),
                    (s.fork().assume(z3.Not(z3.Bool('palette accepted'))), En(ctx.dty, 1, {1: (Opaque('error'),)}))]
        def recon(ctx, st, args):
            e = ctx.e; s = st.fork(); s.ev = s.ev + (('reconstruct', args[0], snap(e, s, args[1])),)
            im = W.image(e, s, ctx.dty)
            return [(s, En(ctx.dty, ITE(EQ(args[1].len, W.m.c), 1, 0), {0: (), 1: (im,)}))]
        def gray(ctx, st, args):
            e = ctx.e; s = st.fork(); s.ev = s.ev + (('channel', args[0], args[1]),)
            return [(s, En(ctx.dty, ITE(LT(args[1], W.m.c), 1, 0), {0: (), 1: (W.image(e, s, ctx.dty),)}))]
        C = {}
        for pat, f in ((r'\|ImageWeights::new$', weights), (r'\|image_palette_recoloring::compute_palette$', palette), (r'\|DecomposedImage::new$', new),
                       (r'\|DecomposedImage::reconstruct$', recon), (r'\|DecomposedImage::get_channel_grayscale$', gray)):
            for b in body(p, pat): C[p.body_id(b)] = f
        self.e = Engine(p, contracts=C)
        self.st = State()
    def image(self, e, st, ty):
        """an image of the decomposition's size with arbitrary pixels"""
        pt = e.T[e.T[ty]['args'][0]]['args'][0]
        return Img(self.w, self.h, Seq(self.w * self.h, lambda j: e.symbolic(st, pt, 'result[]', (j,))), pt)
    def buffer(self, name, n, et):
        """a caller's buffer of exactly n elements: raw pointer to its first element"""
        e = self.e
        q = Seq(n, lambda j: e.symbolic(self.st, et, name + '[]', (j,)), ('caller', name))
        o = e.alloc(self.st, q, name)
        return Ptr(o, (('i', 0),)), o, q
    def handle(self):
        """a decomposed image obtained from the interface: its palette had at most 255 colours"""
        import c08
        wb = body1(self.p, r'\|DecomposedImage::width$')
        d, self.m, self.w, self.h = c08.decomposed(self.e, self.st, wb)
        self.st.axiom(AND(self.m.c <= 255, self.m.c >= 0))
        return d
    def fn(self, name): return body1(self.p, r'\|%s::%s$' % (CR, name))
    def u8(self): return self.e.u8()
    def run(self, name, args):
        b = self.fn(name)
        if len(args) != b['argc']: raise Unsupported('parameters of ' + name)
        if not cover(self.P, self.e, self.st, name): raise Unsupported('precondition of ' + name)
        outs = self.e.call_body(self.st, b, args)
        if not outs: raise Unsupported('no returning path of ' + name)
        self.P.note(f'{name}: {len(outs)} symbolic paths')
        return outs
    def done(self, name): discharge(self.P, self.e, self.p.body_id(self.fn(name)), prefix=name + ': ')
def isnull(v): return isinstance(v, CPtr) and not isz(v.addr) and v.addr == 0
def evs(s, k): return [x for x in s.ev if x[0] == k]

def image_args(W):
    w, h = z3.Int('w'), z3.Int('h')
    W.st.axiom(AND(w >= 0, w < 2 ** 32, h >= 0, h < 2 ** 32))
    size = w * h * 3
    # a buffer of that size can exist only when the size fits the address space
    ptr, o, q = W.buffer('image', z3.If(size < 2 ** 64, size, 0), W.u8())
    return w, h, size, ptr, o, q
def image_ok(W, s, im, w, h, q, what):
    e = W.e
    goal(e, s, AND(EQ(im.w, w), EQ(im.h, h)), what + ' gets an image of the given dimensions')
    i = z3.Int('pixel'); t = s.fork(); t.axiom(AND(i >= 0, i < w * h))
    for c in range(3):
        goal(e, t, EQ(im.data.get(i).f[0].get(c), q.get(3 * i + c)), what + f' gets component {c} of every pixel from its own byte')

def weights(P):
    W = World(P); e = W.e
    w, h, size, ptr, o, q = image_args(W)
    for s, v in W.run('create_image_weights', [w, h, ptr]):
        ws = evs(s, 'weights')
        goal(e, s, EQ(s.store[o] is q, True), 'the image is only read')
        if isnull(v):
            goal(e, s, size >= 2 ** 64, 'only an image whose size cannot be represented gives a null handle')
            continue
        if len(ws) != 1: goal(e, s, False, 'weights are computed once'); continue
        goal(e, s, size < 2 ** 64, 'no size computation wraps')
        image_ok(W, s, ws[0][1], w, h, q, 'the weight computation')
        handle(W, s, v, 'free_image_weights', lambda: [v])
    W.done('create_image_weights')
def handle(W, s, v, free, args):
    """the matching release function frees exactly what was allocated"""
    e = W.e
    made = evs(s, 'into_raw')
    if not (len(made) == 1 and isinstance(v, Ptr) and v.obj == made[0][1]):
        goal(e, s, False, 'the handle is the allocation made'); return
    b = W.fn(free)
    s0 = s.fork(); s0.ev = ()
    for t, r in e.call_body(s0, b, args()):
        fr = evs(t, 'from_raw'); fd = evs(t, 'free')
        ok = len(fr) == 1 and len(fd) == 1 and fd[0][1] == fr[0][3]
        goal(e, t, ok, free + ' frees its argument exactly once')
        if not ok: continue
        p, ty = fr[0][1], fr[0][2]
        goal(e, t, p.obj == made[0][1], free + ' frees the allocation that was made')
        ta, tb = W.p.tystr(made[0][2]), W.p.tystr(ty)
        if isinstance(p, Sl):
            n = e.load(s, p.obj, ()).n
            def el(x): return W.p.T[x]['elem'] if W.p.T[x]['k'] == 'slice' else x
            goal(e, t, AND(EQ(p.start, 0), EQ(MUL(p.len, e.size(el(ty))), MUL(n, e.size(el(made[0][2]))))), free + ' frees as many bytes as were allocated')
        else: goal(e, t, ta == tb, free + ' frees the type that was allocated')
def palette(P):
    W = World(P); e = W.e
    w, h, size, ptr, o, q = image_args(W)
    mn, mx = z3.Int('min'), z3.Int('max'); W.st.axiom(AND(mn >= 0, mn <= 255, mx >= 0, mx <= 255))
    eb = F(z3.Real('bound'))
    out = W.e.alloc(W.st, z3.Int('old'), 'out')
    for s, v in W.run('compute_palette', [w, h, ptr, mn, mx, eb, Ptr(out)]):
        ps = evs(s, 'palette')
        goal(e, s, EQ(s.store[o] is q, True), 'the image is only read')
        n = z3.Const('computed.len', I)
        if isnull(v):
            goal(e, s, OR(size >= 2 ** 64, AND(len(ps) == 1, n > 255)), 'null only for an unrepresentable image size or a palette too long to count')
            continue
        if len(ps) != 1: goal(e, s, False, 'the palette is computed once'); continue
        goal(e, s, size < 2 ** 64, 'no size computation wraps')
        image_ok(W, s, ps[0][1], w, h, q, 'the palette computation')
        goal(e, s, AND(EQ(ps[0][2], mn), EQ(ps[0][3], mx), EQ(ps[0][4].v, eb.v)), 'minimum, maximum and error bound are passed on as given')
        goal(e, s, EQ(s.store[out], n), 'the reported palette size is the palette\'s')
        if isinstance(v, Ptr):
            b = e.load(s, v.obj, ())
            i = z3.Int('colour'); t = s.fork(); t.axiom(AND(i >= 0, i < n))
            goal(e, t, AND(EQ(b.n, n), v.path == () or v.path == (('i', 0),)), 'the returned buffer is the whole palette')
            x = b.get(i); x = x.f[0] if isinstance(x, Agg) else x
            et = e.T.index(next(T for T in e.T if T['k'] == 'adt' and T['name'].endswith('Rgb') and e.T[T['args'][0]]['s'] == 'u8'))
            y = e.symbolic(s, et, 'computed[]', (i,)).f[0]
            goal(e, t, AND(*[EQ(x.get(c), y.get(c)) for c in range(3)]), 'every colour is the palette\'s')
        handle(W, s, v, 'free_computed_palette', lambda: [v, s.store[out]])
    W.done('compute_palette')
def create(P):
    W = World(P); e = W.e
    wt = Ptr(e.alloc(W.st, Opaque('weights'), 'weights'))
    n = z3.Int('palette_size'); W.st.axiom(AND(n >= 0, n <= 255))
    pt = e.T.index(next(T for T in e.T if T['k'] == 'adt' and T['name'].endswith('Rgb') and e.T[T['args'][0]]['s'] == 'u8'))
    ptr, o, q = W.buffer('palette', n, pt)
    for s, v in W.run('create_decomposed_image', [wt, n, ptr]):
        new = evs(s, 'new')
        if len(new) != 1: goal(e, s, False, 'the palette is checked once'); continue
        goal(e, s, EQ(unwrap(e, s, new[0][1]) is s.store[wt.obj], True), 'the decomposition uses the given weights')
        sl = new[0][2][0]
        goal(e, s, AND(sl.obj == o, EQ(sl.start, 0), EQ(sl.len, n)), 'exactly the given palette is read')
        goal(e, s, EQ(s.store[o] is q, True), 'the palette is only read')
        acc = z3.Bool('palette accepted')
        goal(e, s, EQ(acc, not isnull(v)), 'a rejected palette yields a null handle, an accepted one does not')
        if not isnull(v): handle(W, s, v, 'free_decomposed_image', lambda: [v])
    W.done('create_decomposed_image')
def counts(P):
    for f, g in (('get_decomposed_image_width', 'w'), ('get_decomposed_image_height', 'h'), ('get_decomposed_image_num_channels', 'c')):
        def one(f=f, g=g):
            W = World(P); d = W.handle()
            for s, v in W.run(f, [d]): goal(W.e, s, EQ(v, {'w': W.w, 'h': W.h, 'c': W.m.c}[g]), 'the reported number is the true one')
            W.done(f)
        attempt(P, f, CR, one)
def output(P, name):
    W = World(P); e = W.e
    d = W.handle(); u8 = W.u8()
    rgb = name == 'reconstruct_image'
    size = W.w * W.h * (3 if rgb else 1)
    outp, o, old = W.buffer('output', size, u8)
    if rgb:
        pt = e.T.index(next(T for T in e.T if T['k'] == 'adt' and T['name'].endswith('Rgb') and e.T[T['args'][0]]['s'] == 'u8'))
        pal, po, pq = W.buffer('palette', W.m.c, pt)
        args = [d, pal, outp]
    else:
        ch = z3.Int('channel'); W.st.axiom(AND(ch >= 0, ch <= 255))
        args = [d, ch, outp]
    for s, v in W.run(name, args):
        c = evs(s, 'reconstruct' if rgb else 'channel')
        if len(c) != 1: goal(e, s, False, 'the image is computed once'); continue
        goal(e, s, EQ(unwrap(e, s, c[0][1]) is s.store[d.obj], True), 'the given handle is used')
        if rgb:
            sl = c[0][2][0]
            goal(e, s, AND(sl.obj == po, EQ(sl.start, 0), EQ(sl.len, W.m.c)), 'exactly one colour per channel is read')
            goal(e, s, EQ(s.store[po] is pq, True), 'the palette is only read')
            good = True
        else:
            goal(e, s, EQ(c[0][2], ch), 'the channel asked for is used')
            good = LT(ch, W.m.c)
        goal(e, s, EQ(v, ITE(good, 1, 0)), 'success is reported exactly when there is an image')
        new = s.store[o]
        i = z3.Int('byte'); t = s.fork(); t.axiom(AND(i >= 0, i < size))
        im = W.image(e, s, rty_img(e, rgb))
        want = im.data.get(norm(i / 3) if rgb else i).f[0].get(norm(i % 3) if rgb else 0)
        if new is old: goal(e, t, NOT(good), 'an unwritten output buffer means failure')
        else:
            goal(e, t, good, 'the output is written only on success')
            goal(e, t, EQ(new.get(i), want), 'every output byte is the image\'s own')
    W.done(name)
def rty_img(e, rgb):
    n = 'Rgb' if rgb else 'Luma'
    for i, T in enumerate(e.T):
        if T['k'] == 'adt' and T['name'].endswith('option::Option') and T['s'].count('ImageBuffer<image::%s<u8>, std::vec::Vec' % n): return i
    raise Unsupported('result type')
def prove(P):
    P.trust(*STD)
    P.assume('callers pass valid handles and buffers of the documented size (precondition of the interface)')
    P.assume('the library functions called satisfy their own contracts (C01, C06, C07, C08, C09)')
    attempt(P, 'create_image_weights', CR, lambda: weights(P))
    attempt(P, 'compute_palette', CR, lambda: palette(P))
    attempt(P, 'create_decomposed_image', CR, lambda: create(P))
    counts(P)
    for f in ('reconstruct_image', 'grayscale_image_channel'): attempt(P, f, CR, lambda f=f: output(P, f))
