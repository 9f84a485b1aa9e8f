"""Models of the text functions the workspace calls. A str is a slice of bytes (UTF-8 validity is not needed:
every boundary obligation is proved from the bytes)."""
import z3
from values import *
from models import MODELS, model, It, as_slice, deref, some, none, I, R
from engine import Fact

def byte(e, st, s, i):
    return e.load(st, s.obj, s.path).get(ADD(s.start, i))
def conc(e, st, n, limit=16):
    """n as a python int when the path determines it"""
    n = norm(n) if isz(n) else n
    if not isz(n): return n
    # the path's own conditions usually settle it; the quantified facts are the fallback
    for forms, facts in ((list(st.pc), ()), (st.forms(), st.facts)):
        r, m = e.check(forms, facts, timeout=1500, model=True)
        if m is None: continue
        v = m.eval(Z(n), model_completion=True)
        if not z3.is_int_value(v) or not 0 <= v.as_long() <= limit: continue
        v = v.as_long()
        if e.check(list(forms) + [Z(n) != v], facts, timeout=1500) == 'unsat': return v
    return n

class Pieces:
    """the maximal separator-free pieces of a text, in order"""
    def __init__(self, e, s, sep, key):
        nm = freshname('split')
        self.s = s
        self.m = z3.Const(nm + '.n', I)
        self.a = z3.Function(nm + '.start', I, I); self.b = z3.Function(nm + '.end', I, I); self.p = z3.Function(nm + '.piece', I, I)
        self.facts = None; self.sep = sep
    def axioms(self, e, st):
        """attach the meaning of the pieces to st"""
        if any(f.name == ('split', id(self)) for f in st.facts): return
        s, m, a, b, p = self.s, self.m, self.a, self.b, self.p
        base = e.load(st, s.obj, s.path); n = s.len; c = self.sep
        at = lambda j: base.get(ADD(s.start, j))
        st.axiom(AND(m >= 1, EQ(a(0), 0), EQ(b(m - 1), n), m <= ADD(n, 1)))
        v = z3.Int(freshname('sv')); w = z3.Int(freshname('sw'))
        st.facts = st.facts + (
            Fact(v, IMP(AND(v >= 0, v < m), AND(a(v) >= 0, a(v) <= b(v), LE(b(v), n))), ('split', id(self))),
            Fact(v, IMP(AND(v >= 0, v + 1 < m), AND(EQ(a(v + 1), b(v) + 1), LT(b(v), n), EQ(at(b(v)), c))), 'split-next'),
            Fact(w, IMP(AND(w >= 0, LT(w, n)), AND(p(w) >= 0, p(w) < m, a(p(w)) <= w, w <= b(p(w)), EQ(w == b(p(w)), EQ(at(w), c)))), 'split-cover'))
    def piece(self, k):
        k = Z(k)
        return Sl(self.s.obj, self.s.path, ADD(self.s.start, self.a(k)), SUB(self.b(k), self.a(k)))
def pieces(e, st, s, sep):
    """one decomposition per text: the meaning of split determines it"""
    c = getattr(e, '_pieces', None)
    if c is None: c = e._pieces = []
    for q in c:
        if q.s.obj == s.obj and patheq(q.s.path, s.path) and same(q.s.start, s.start) and same(q.s.len, s.len) and q.sep == sep: break
    else:
        q = Pieces(e, s, sep, None); c.append(q)
    q.axioms(e, st)
    return q

@model('str::split')
def _split(ctx, st, args):
    s, c = args
    if isz(c) or not isinstance(c, int) or c > 127 or not isinstance(s, Sl): raise Unsupported('split by a pattern')
    st = st.fork()
    q = pieces(ctx.e, st, s, c)
    return [(st, It('seq', Seq(q.m, lambda k: q.piece(k)), 0))]
@model('str::bytes')
def _bytes(ctx, st, args):
    s = args[0]; e = ctx.e
    n = conc(e, st, s.len); base = e.load(st, s.obj, s.path)
    if not isz(n): return It('seq', SeqL([base.get(ADD(s.start, i)) for i in range(n)]), 0)
    return It('seq', Seq(n, lambda i: base.get(ADD(s.start, i)), ('bytes', s)), 0)
@model('str::chars')
def _chars(ctx, st, args):
    """only for texts already known to be ASCII"""
    s = args[0]; e = ctx.e
    n = conc(e, st, s.len); base = e.load(st, s.obj, s.path)
    if isz(n): raise Unsupported('characters of a text of unknown length')
    bs = [base.get(ADD(s.start, i)) for i in range(n)]
    if e.check(list(st.forms()) + [Z(OR(*[LE(128, b) for b in bs]))], st.facts, timeout=2000) != 'unsat': raise Unsupported('characters of a non-ASCII text')
    return It('seq', SeqL(bs), 0)
def all_bytes(e, st, s, pred):
    """is pred true of every byte of s -> [(st, bool)]"""
    n = conc(e, st, s.len); base = e.load(st, s.obj, s.path)
    if not isz(n):
        r = AND(*[pred(base.get(ADD(s.start, i))) for i in range(n)])
        return [(st, norm(r) if isz(r) else r)]
    v = z3.Int(freshname('q')); res = []
    s1 = st.fork(); s1.facts = s1.facts + (Fact(v, IMP(AND(LE(s.start, v), LT(v, ADD(s.start, s.len))), pred(base.get(v))), 'all-bytes'),)
    res.append((s1, True))
    s2 = st.fork(); w = e.const(s2, 'wit', I)
    s2.axiom(AND(LE(s.start, w), LT(w, ADD(s.start, s.len)))); s2.assume(NOT(pred(base.get(w))))
    if e.feasible(s2): res.append((s2, False))
    return res
@model('str::is_ascii', 'slice::is_ascii')
def _is_ascii(ctx, st, args): return all_bytes(ctx.e, st, as_slice(ctx, st, args[0]), lambda b: LT(b, 128))
def hexd(x): return OR(AND(LE(48, x), LE(x, 57)), AND(LE(65, x), LE(x, 70)), AND(LE(97, x), LE(x, 102)))
def hexval(x): return ITE(LE(x, 57), SUB(x, 48), ITE(LE(x, 70), SUB(x, 55), SUB(x, 87)))
@model('u8::is_ascii_hexdigit', 'char::is_ascii_hexdigit')
def _hexdigit(ctx, st, args): return hexd(deref(ctx, st, args[0]))
@model('u8::is_ascii_digit', 'char::is_ascii_digit')
def _digit(ctx, st, args):
    x = deref(ctx, st, args[0]); return AND(LE(48, x), LE(x, 57))
@model('u8::is_ascii', 'char::is_ascii')
def _isasc(ctx, st, args): return LT(deref(ctx, st, args[0]), 128)

def boundary(e, st, s, i):
    """is byte offset i a character boundary of s"""
    if i == 0: return True
    if same(i, s.len): return True
    b = byte(e, st, s, i)
    return OR(EQ(i, 0), EQ(i, s.len), AND(LT(i, s.len), OR(LT(b, 128), LE(192, b))))
def str_index(ctx, st, s, i):
    e = ctx.e; T = e.T[i.ty]['name'].split('::')[-1]
    if T == 'RangeFull': return s
    lo = i.f[0] if T in ('Range', 'RangeFrom') else 0
    hi = {'Range': lambda: i.f[1], 'RangeTo': lambda: i.f[0], 'RangeFrom': lambda: s.len}[T]()
    if not ctx.panic(st, AND(LE(lo, hi), LE(hi, s.len), boundary(e, st, s, lo), boundary(e, st, s, hi)), 'text index'): return []
    return Sl(s.obj, s.path, ADD(s.start, lo), SUB(hi, lo))
@model('str::get')
def _strget(ctx, st, args):
    s, i = args; e = ctx.e
    if not isinstance(i, Agg): return NotImplemented
    T = e.T[i.ty]['name'].split('::')[-1]
    lo = i.f[0] if T in ('Range', 'RangeFrom') else 0
    hi = {'Range': lambda: i.f[1], 'RangeTo': lambda: i.f[0], 'RangeFrom': lambda: s.len}[T]()
    ok = AND(LE(lo, hi), LE(hi, s.len), boundary(e, st, s, lo), boundary(e, st, s, hi))
    return En(ctx.dty, ITE(ok, 1, 0), {0: (), 1: (Sl(s.obj, s.path, ADD(s.start, lo), SUB(hi, lo)),)})
@model('u8::from_str_radix')
def _fsr(ctx, st, args):
    s, r = args; e = ctx.e
    if isz(r) or r != 16: raise Unsupported('radix')
    res = []
    n = conc(e, st, s.len)
    if isz(n) or n > 4: raise Unsupported('number of unknown length')
    b = [byte(e, st, s, i) for i in range(n)]
    err = (Opaque('ParseIntError'),)
    def val(ds):
        ok = AND(True, *[hexd(d) for d in ds]); v = 0
        for d in ds: v = ADD(MUL(v, 16), hexval(d))
        return AND(ok, LE(v, 255)), v
    if n == 0: return En(ctx.dty, 1, {1: err})
    ok, v = val(b)
    if n >= 2:
        ok2, v2 = val(b[1:])
        plus = EQ(b[0], 43)
        ok = ITE(plus, ok2, ok); v = ITE(plus, v2, v)
    ok = Z(ok)
    return [(s2, En(ctx.dty, 0, {0: (v,)}) if good else En(ctx.dty, 1, {1: err})) for s2, good in e.branch(st, [(norm(ok), True), (NOT(ok), False)])]

# ------------------------------------------------------------ the ? operator
@model('Try::branch')
def _trybranch(ctx, st, args):
    v = args[0]; e = ctx.e
    if not isinstance(v, En): return NotImplemented
    T = e.T[v.ty]['name'].split('::')[-1]
    rty = e.T[ctx.dty]['args'][0]
    if T == 'Result':
        p = {}
        if 0 in v.p: p[0] = v.p[0]
        if 1 in v.p: p[1] = (En(rty, 1, {1: v.p[1]}),)
        return En(ctx.dty, v.d, p)
    if T == 'Option':
        p = {1: (En(rty, 0, {0: ()}),)}
        if 1 in v.p: p[0] = v.p[1]
        return En(ctx.dty, SUB(1, v.d), p)
    return NotImplemented
@model('FromResidual::from_residual')
def _residual(ctx, st, args):
    v = args[0]; e = ctx.e
    T = e.T[ctx.dty]['name'].split('::')[-1]
    if T == 'Option': return En(ctx.dty, 0, {0: ()})
    er = e.T[ctx.dty]['args'][1]
    x = v.p[1][0]
    return En(ctx.dty, 1, {1: (x,)})
@model('Result::map_err')
def _map_err(ctx, st, args):
    v, f = args; e = ctx.e; res = []
    for s, ok in e.branch(st, [(EQ(v.d, 0), True), (EQ(v.d, 1), False)]):
        if ok: res.append((s, En(ctx.dty, 0, {0: v.p[0]})))
        else:
            for s2, y in e.call_closure(s, f, [v.p[1][0]], ctx.fr): res.append((s2, En(ctx.dty, 1, {1: (y,)})))
    return res
@model('Result::map')
def _map(ctx, st, args):
    v, f = args; e = ctx.e; res = []
    y = 0 if ctx.name.startswith('Result') else 1
    for s, ok in e.branch(st, [(EQ(v.d, y), True), (NOT(EQ(v.d, y)), False)]):
        if not ok: res.append((s, En(ctx.dty, 1 - y, {1 - y: v.p.get(1 - y, ())})))
        else:
            for s2, r in e.call_closure(s, f, [v.p[y][0]], ctx.fr): res.append((s2, En(ctx.dty, y, {y: (r,)})))
    return res
@model('Option::ok_or', 'Option::ok_or_else')
def _okor(ctx, st, args):
    v, f = args; e = ctx.e; res = []
    for s, ok in e.branch(st, [(EQ(v.d, 1), True), (EQ(v.d, 0), False)]):
        if ok: res.append((s, En(ctx.dty, 0, {0: v.p[1]})))
        elif ctx.name.endswith('else'):
            for s2, y in e.call_closure(s, f, [], ctx.fr): res.append((s2, En(ctx.dty, 1, {1: (y,)})))
        else: res.append((s, En(ctx.dty, 1, {1: (f,)})))
    return res

# ------------------------------------------------------------ formatting
class FArg(Native):
    """a formatting argument: kind and value"""
    def __init__(self, kind, val): self.kind = kind; self.val = val
    def fields(self): return (self.val,)
    def rebuild(self, fs): return FArg(self.kind, fs[0])
    def key(self): return self.kind
class Text(Native):
    """the text a format template and its arguments describe: pieces = bytes | ('arg', spec, FArg)"""
    def __init__(self, pieces): self.pieces = tuple(pieces)
    def fields(self): return tuple(p[2] for p in self.pieces if isinstance(p, tuple))
    def rebuild(self, fs):
        it = iter(fs); return Text([p[:2] + (next(it),) if isinstance(p, tuple) else p for p in self.pieces])
    def key(self): return tuple(p[:2] if isinstance(p, tuple) else p for p in self.pieces)
for _k, _n in (('display', 'Argument::new_display'), ('x', 'Argument::new_lower_hex'), ('X', 'Argument::new_upper_hex'), ('debug', 'Argument::new_debug')):
    def _mk(k):
        def f(ctx, st, args):
            try: v = deref(ctx, st, args[0])
            except Unsupported: v = Opaque('value')
            if isinstance(v, Ptr): v = deref(ctx, st, v)
            return FArg(k, v)
        return f
    MODELS[_n] = _mk(_k)
FLAG = {'plus': 1 << 21, 'minus': 1 << 22, 'alt': 1 << 23, 'zero': 1 << 24, 'width': 1 << 27, 'prec': 1 << 28}
def template(bs, args):
    """decode the compiler's template encoding (core::fmt::Arguments)"""
    out = []; i = 0; k = 0
    def le(n):
        nonlocal i
        v = int.from_bytes(bytes(bs[i:i + n]), 'little'); i += n; return v
    while True:
        n = bs[i]; i += 1
        if n == 0: return out
        if n < 0x80: out.append(bytes(bs[i:i + n])); i += n; continue
        if n == 0x80:
            m = le(2); out.append(bytes(bs[i:i + m])); i += m; continue
        fl = le(4) if n & 1 else 0x20 | 3 << 29
        w = le(2) if n & 2 else None
        pr = le(2) if n & 4 else None
        if n & 8: k = le(2)
        if n & 0x30: return None
        out.append(('arg', (fl, w, pr), args[k])); k += 1
@model('Arguments::new')
def _argsnew(ctx, st, args):
    try:
        t, a = (deref(ctx, st, x) if isinstance(x, Ptr) else x for x in args)
        if isinstance(t, Sl): t = SeqL([byte(ctx.e, st, t, i) for i in range(t.len)])
        if isinstance(a, Sl): a = SeqL([byte(ctx.e, st, a, i) for i in range(a.len)])
        ps = template(list(t.items), a.items)
        if ps is not None: return Text(ps)
    except (Unsupported, AttributeError, TypeError): pass
    return Opaque('text')
@model('Arguments::from_str', 'Arguments::from_str_nonconst')
def _argsstr(ctx, st, args):
    s = args[0]
    if isinstance(s, Sl) and not isz(s.len):
        return Text([bytes(byte(ctx.e, st, s, i) for i in range(s.len))])
    return Opaque('text')
def hexchar(d, upper=False): return ITE(LE(d, 9), ADD(d, 48), ADD(d, 55 if upper else 87))
def rendered(t):
    """bytes of a text whose pieces are literals and zero-padded two-digit hexadecimal bytes, else None"""
    out = []
    for p in t.pieces:
        if isinstance(p, bytes): out += list(p); continue
        (fl, w, pr), a = p[1], p[2]
        if a.kind in 'xX' and (isz(a.val) or isinstance(a.val, int)) and w == 2 and fl & FLAG['width'] and fl & FLAG['zero'] and not fl & (FLAG['alt'] | FLAG['plus'] | FLAG['prec']):
            q, r = (a.val // 16, a.val % 16) if not isz(a.val) else (norm(a.val / 16), norm(a.val % 16))
            out += [hexchar(q, a.kind == 'X'), hexchar(r, a.kind == 'X')]
        else: return None
    return out
@model('fmt::format')
def _format(ctx, st, args):
    t = args[0]
    if not isinstance(t, Text): return Opaque('text')
    b = rendered(t)
    if b is not None: return SeqL(b)
    return t
class Joined(Native):
    """texts joined by a separator"""
    def __init__(self, seq, sep): self.seq = seq; self.sep = sep
    def fields(self): return (self.seq,)
    def rebuild(self, fs): return Joined(fs[0], self.sep)
    def key(self): return self.sep
@model('slice::join', 'Join::join')
def _join(ctx, st, args):
    s, sep = args; e = ctx.e
    s = as_slice(ctx, st, s)
    if not (isinstance(sep, Sl) and not isz(sep.len)): return NotImplemented
    base = e.load(st, s.obj, s.path)
    return Joined(Seq(s.len, lambda k: base.get(ADD(s.start, k))), bytes(byte(e, st, sep, i) for i in range(sep.len)))
@model('TryFrom::try_from', 'TryInto::try_into')
def _tryfrom(ctx, st, args):
    v = args[0]; e = ctx.e
    T = e.T[ctx.dty]
    if not (isinstance(v, int) or isz(v)) or T['name'].split('::')[-1] != 'Result' or e.T[T['args'][0]]['k'] not in ('uint', 'int'): return NotImplemented
    lo, hi = e.irange(T['args'][0])
    ok = AND(LE(lo, v), LE(v, hi))
    return En(ctx.dty, ITE(ok, 0, 1), {0: (v,), 1: (Opaque('TryFromIntError'),)})
