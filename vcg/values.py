"""Symbolic values of the VC generator.

Integers are mathematical (wrap-around is a separate obligation), floats are reals with a
not-a-number flag, aggregates are immutable trees, sequences are functional arrays."""
import z3
from fractions import Fraction

class Unsupported(Exception):
    pass
class Pending(Unsupported):
    """an element of a vector the loop is still filling"""
    def __init__(self, seq): super().__init__('element of a vector that the loop is still filling'); self.seq = seq

# ---------------------------------------------------------------- scalars
def isz(x): return isinstance(x, z3.ExprRef)
def Z(x):
    if isz(x): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(str(x.numerator) + '/' + str(x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    raise TypeError(x)
def ZR(x):
    if isz(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    return Z(Fraction(x))
def norm(e):
    """simplify and return a python constant when the term is one"""
    if not isz(e): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e
def num(e):
    """cheap constant folding only"""
    if not isz(e): return e
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def AND(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = AND(*x)
        if x is True: continue
        if x is False: return False
        if isz(x) and z3.is_true(x): continue
        if isz(x) and z3.is_false(x): return False
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def OR(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = OR(*x)
        if x is False: continue
        if x is True: return True
        if isz(x) and z3.is_false(x): continue
        if isz(x) and z3.is_true(x): return True
        ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def NOT(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def IMP(a, b): return OR(NOT(a), b)
def same(a, b):
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b): return Z(a).eq(Z(b)) if not (isinstance(a, F) or isinstance(b, F)) else False
    return a == b
def EQ(a, b):
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    if isinstance(a, Fraction) or isinstance(b, Fraction): a, b = ZR(a), ZR(b)
    return Z(a) == Z(b)
def ITE(c, a, b):
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else NOT(c)
    if isinstance(a, bool) or (isz(a) and z3.is_bool(a)):
        return z3.If(c, Z(a), Z(b))
    if isinstance(a, Fraction) or isinstance(b, Fraction) or (isz(a) and a.sort() == z3.RealSort()):
        return z3.If(c, ZR(a), ZR(b))
    return z3.If(c, Z(a), Z(b))
def LT(a, b):
    if not isz(a) and not isz(b): return a < b
    return Zn(a) < Zn(b)
def LE(a, b):
    if not isz(a) and not isz(b): return a <= b
    if isz(a) and isz(b) and a.eq(b): return True
    return Zn(a) <= Zn(b)
def Zn(x): return x if isz(x) else (Z(x))
def ADD(a, b):
    if not isz(a) and not isz(b): return a + b
    if not isz(a) and a == 0: return b
    if not isz(b) and b == 0: return a
    return norm_i(Zn(a) + Zn(b))
def SUB(a, b):
    if not isz(a) and not isz(b): return a - b
    if not isz(b) and b == 0: return a
    if isz(a) and isz(b) and a.eq(b): return 0
    return norm_i(Zn(a) - Zn(b))
def norm_i(e):
    if e.sort() == z3.IntSort(): return norm(e)
    return e
DIVF = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
MODF = z3.Function('imod', z3.IntSort(), z3.IntSort(), z3.IntSort())
MULF = z3.Function('imul', z3.IntSort(), z3.IntSort(), z3.IntSort())
def MUL(a, b):
    if not isz(a) and not isz(b): return a * b
    for x, y in ((a, b), (b, a)):
        if not isz(x):
            if x == 0: return 0
            if x == 1: return y
    return norm_i(Zn(a) * Zn(b))

# ---------------------------------------------------------------- floats
class F:
    """f64: exact real value plus 'not a finite number' flag"""
    __slots__ = ('v', 'nan')
    def __init__(self, v, nan=False):
        self.v = v; self.nan = nan
    def __repr__(self): return f'F({self.v}{"" if self.nan is False else ",nan=" + str(self.nan)})'
NAN = F(Fraction(0), True)
def rsub(a, b):
    if not isz(a) and not isz(b): return Fraction(a) - Fraction(b)
    if not isz(b) and b == 0: return a
    return ZR(a) - ZR(b)
def radd(a, b):
    if not isz(a) and not isz(b): return Fraction(a) + Fraction(b)
    if not isz(b) and b == 0: return a
    if not isz(a) and a == 0: return b
    return ZR(a) + ZR(b)
def rmul(a, b):
    if not isz(a) and not isz(b): return Fraction(a) * Fraction(b)
    for x, y in ((a, b), (b, a)):
        if not isz(x):
            if x == 0: return Fraction(0)
            if x == 1: return y
            if x == -1: return rneg(y)
    return ZR(a) * ZR(b)
def rneg(a):
    return -ZR(a) if isz(a) else -Fraction(a)
def rdiv(a, b):
    if not isz(a) and not isz(b): return Fraction(a) / Fraction(b)
    if not isz(b): return rmul(a, Fraction(1) / Fraction(b))
    return ZR(a) / ZR(b)
def rlt(a, b):
    if not isz(a) and not isz(b): return a < b
    return ZR(a) < ZR(b)
def rle(a, b):
    if not isz(a) and not isz(b): return a <= b
    return ZR(a) <= ZR(b)
def req(a, b):
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    return ZR(a) == ZR(b)
def fadd(a, b): return F(radd(a.v, b.v), OR(a.nan, b.nan))
def fsub(a, b): return F(rsub(a.v, b.v), OR(a.nan, b.nan))
def fmul(a, b): return F(rmul(a.v, b.v), OR(a.nan, b.nan))
def fneg(a): return F(rneg(a.v), a.nan)
def fdiv(a, b):
    z = req(b.v, Fraction(0))
    if z is True: return F(Fraction(0), True)
    return F(rdiv(a.v, b.v), OR(a.nan, b.nan, z))
def fcmp(op, a, b):
    n = AND(NOT(a.nan), NOT(b.nan))
    r = {'Lt': lambda: rlt(a.v, b.v), 'Le': lambda: rle(a.v, b.v), 'Gt': lambda: rlt(b.v, a.v),
         'Ge': lambda: rle(b.v, a.v), 'Eq': lambda: req(a.v, b.v), 'Ne': lambda: NOT(req(a.v, b.v))}[op]()
    if op == 'Ne': return OR(NOT(n), r)
    return AND(n, r)

# ---------------------------------------------------------------- aggregates
class Agg:
    """struct / tuple / closure value"""
    __slots__ = ('ty', 'f')
    def __init__(self, ty, f):
        self.ty = ty; self.f = tuple(f)
    def __repr__(self): return f'Agg{self.f}'
class IdAgg(Agg):
    """struct of which a term is the identity: every field is a function of it"""
    __slots__ = ('h', 'mk')
    def __init__(self, h, mk):
        a = mk(h); Agg.__init__(self, a.ty, a.f); self.h = h; self.mk = mk
class En:
    """enum value; d = variant index, p = {variant: fields}"""
    __slots__ = ('ty', 'd', 'p')
    def __init__(self, ty, d, p):
        self.ty = ty; self.d = d; self.p = p
    def __repr__(self): return f'En({self.d},{self.p})'
class Undef:
    def __repr__(self): return 'Undef'
UNDEF = Undef()
class Opaque:
    """a value nothing looks into; named so that equal names mean the same value"""
    __slots__ = ('name', 'args')
    def __init__(self, name, args=()):
        self.name = name; self.args = tuple(args)
    def __repr__(self): return f'Opaque({self.name})'
class Ptr:
    __slots__ = ('obj', 'path')
    def __init__(self, obj, path=()):
        self.obj = obj; self.path = tuple(path)
    def __repr__(self): return f'Ptr({self.obj},{self.path})'
class Sl:
    """slice reference: elements path+('i',start..start+len) of obj"""
    __slots__ = ('obj', 'path', 'start', 'len')
    def __init__(self, obj, path, start, ln):
        self.obj = obj; self.path = tuple(path); self.start = start; self.len = ln
    def __repr__(self): return f'Sl({self.obj},{self.path},{self.start},{self.len})'
class CPtr:
    """raw pointer into foreign (C) memory: address term plus pointee type name"""
    __slots__ = ('ty', 'addr')
    def __init__(self, ty, addr):
        self.ty = ty; self.addr = addr
    def __repr__(self): return f'CPtr({self.ty},{self.addr})'
class FnVal:
    __slots__ = ('ty',)
    def __init__(self, ty): self.ty = ty
class Choice:
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return f'Choice({self.alts})'
class NeedFork(Exception):
    def __init__(self, conds): self.conds = conds
class Native:
    """base of python-side model values (iterators, maps, ...). fields() lists the sub-values"""
    def fields(self): return ()
    def rebuild(self, fs): return self
    def key(self): return ()

# ---------------------------------------------------------------- sequences
class Seq:
    """functional sequence; n = length (int or term); get(i) = value"""
    def __init__(self, n, get, origin=None):
        self.n = n; self._get = get; self.origin = origin; self._c = {}
    def get(self, i):
        i = num(i)
        k = i if not isz(i) else ('z', i.get_id())
        if k in self._c: return self._c[k][1]
        v = self._get(i)
        self._c[k] = (i, v)
        return v
    def set(self, i, v): return SeqSt(self, i, v)
    def __repr__(self): return f'{type(self).__name__}(n={self.n})'
class SeqL(Seq):
    def __init__(self, items):
        self.items = tuple(items); self.n = len(self.items); self.origin = None
    def get(self, i):
        i = num(i)
        if not isz(i):
            if not 0 <= i < self.n: raise Unsupported(f'concrete index {i} of {self.n}')
            return self.items[i]
        if self.n == 0: raise Unsupported('index into empty sequence')
        r = self.items[-1]
        for j in range(self.n - 2, -1, -1):
            r = merge(i == j, self.items[j], r)
        return r
    def set(self, i, v):
        i = num(i)
        if not isz(i):
            if not 0 <= i < self.n: raise Unsupported(f'concrete index {i} of {self.n}')
            l = list(self.items); l[i] = v
            return SeqL(l)
        return SeqL([merge(i == j, v, x) for j, x in enumerate(self.items)])
    def push(self, v): return SeqL(self.items + (v,))
    def __repr__(self): return f'SeqL{self.items}'
class SeqSt(Seq):
    """base with element i replaced by v"""
    def __init__(self, base, i, v):
        self.base = base; self.i = i; self.v = v; self.n = base.n; self.origin = None; self._c = {}
    def _get(self, j):
        c = EQ(j, self.i)
        c = norm(c) if isz(c) else c
        if c is True: return self.v
        if c is False: return self.base.get(j)
        return merge(c, self.v, self.base.get(j))
class SeqApp(Seq):
    """base followed by one more item"""
    def __init__(self, base, v):
        self.base = base; self.v = v; self.n = ADD(base.n, 1); self.origin = None; self._c = {}
    def _get(self, j):
        c = EQ(j, self.base.n)
        c = norm(c) if isz(c) else c
        if c is True: return self.v
        if c is False: return self.base.get(j)
        if not isz(self.base.n) and self.base.n == 0: return self.v      # the only item there can be
        return merge(c, self.v, self.base.get(j))
class SeqC(Seq):
    """base followed by v when c holds"""
    def __init__(self, base, c, v):
        self.base = base; self.c = c; self.v = v; self.n = ADD(base.n, ITE(c, 1, 0)); self.origin = None; self._c = {}
    def _get(self, j):
        c = AND(self.c, EQ(j, self.base.n))
        c = norm(c) if isz(c) else c
        if c is True: return self.v
        if c is False: return self.base.get(j)
        if not isz(self.base.n) and self.base.n == 0: return self.v      # the only item there can be
        return merge(c, self.v, self.base.get(j))
def appended(new, cur):
    """[(condition, item)] appended in order to cur to get new, or None"""
    xs = []; x = new
    while True:
        if x is cur: return xs[::-1]
        if isinstance(x, SeqApp): xs.append((True, x.v)); x = x.base; continue
        if isinstance(x, SeqC): xs.append((x.c, x.v)); x = x.base; continue
        if isinstance(x, SeqL) and isinstance(cur, SeqL) and x.n >= cur.n and all(a is b for a, b in zip(cur.items, x.items)):
            return [(True, y) for y in x.items[cur.n:]] + xs[::-1]
        return None
def merge_appended(c, a, b, base):
    """both grew from base: the merged vector as conditional appends to base; None when that is not how they were made"""
    if isinstance(a, Native) and type(a) is type(b) is type(base) and a.key() == b.key() == base.key():
        fs = [merge_appended(c, x, y, z) if x is not z or y is not z else z for x, y, z in zip(a.fields(), b.fields(), base.fields())]
        return None if any(x is None for x in fs) else a.rebuild(fs)
    if not (isinstance(a, Seq) and isinstance(b, Seq) and isinstance(base, Seq)): return None
    p, q = appended(a, base), appended(b, base)
    if p is None or q is None: return None
    r = base; n = 0
    while n < len(p) and n < len(q) and p[n][1] is q[n][1] and same(p[n][0], q[n][0]):
        r = SeqC(r, *p[n]) if p[n][0] is not True else SeqApp(r, p[n][1]); n += 1
    for k, v in p[n:]: r = SeqC(r, AND(c, k), v)
    for k, v in q[n:]: r = SeqC(r, AND(NOT(c), k), v)
    return r
def seq_push(s, v):
    if isinstance(s, SeqL) and s.n < 4096: return s.push(v)
    return SeqApp(s, v)

class Mat:
    """matrix with concrete dimensions, column-major cells"""
    __slots__ = ('r', 'c', 'cells')
    def __init__(self, r, c, cells):
        self.r = r; self.c = c; self.cells = tuple(cells); assert len(self.cells) == r * c, (r, c, len(self.cells))
    n = property(lambda s: s.r * s.c)
    def get(self, i):
        return SeqL(self.cells).get(i)
    def set(self, i, v):
        return Mat(self.r, self.c, SeqL(self.cells).set(i, v).items)
    def at(self, i, j):
        i, j = num(i), num(j)
        if not isz(i) and not isz(j):
            if not (0 <= i < self.r and 0 <= j < self.c): raise Unsupported('matrix index')
            return self.cells[j * self.r + i]
        return self.get(ADD(MUL(j, self.r), i))
    def __repr__(self): return f'Mat{self.r}x{self.c}{self.cells}'
class MatF:
    """matrix with symbolic dimensions; at(i,j)"""
    def __init__(self, r, c, at, origin=None):
        self.r = r; self.c = c; self._at = at; self.origin = origin
    def at(self, i, j): return self._at(i, j)
class MatSt(MatF):
    def __init__(self, base, i, j, v):
        self.base = base; self.i = i; self.j = j; self.v = v; self.r = base.r; self.c = base.c; self.origin = None
    def _at(self, i, j):
        c = AND(EQ(i, self.i), EQ(j, self.j))
        c = norm(c) if isz(c) else c
        if c is True: return self.v
        if c is False: return self.base.at(i, j)
        return merge(c, self.v, self.base.at(i, j))

# ---------------------------------------------------------------- generic traversals
def merge(c, a, b):
    """if c then a else b"""
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, F) and isinstance(b, F):
        return F(ITE(c, a.v, b.v) if not (not isz(a.v) and not isz(b.v) and a.v == b.v) else a.v, ITE(c, a.nan, b.nan))
    if (isz(a) or isinstance(a, (int, Fraction))) and (isz(b) or isinstance(b, (int, Fraction))): return ITE(c, a, b)
    if isinstance(a, IdAgg) and isinstance(b, IdAgg) and a.mk is b.mk: return IdAgg(ITE(c, a.h, b.h), a.mk)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return pull(Agg(a.ty, [merge(c, x, y) for x, y in zip(a.f, b.f)]))
    if isinstance(a, En) and isinstance(b, En):
        p = dict(a.p)
        for k, v in b.p.items():
            p[k] = tuple(merge(c, x, y) for x, y in zip(a.p[k], v)) if k in a.p else v
        for v in p.values():
            if any(isinstance(x, Choice) for x in v): return Choice([(c, a), (NOT(c), b)])
        return En(a.ty, ITE(c, a.d, b.d), p)
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return Mat(a.r, a.c, [merge(c, x, y) for x, y in zip(a.cells, b.cells)])
    if isinstance(a, SeqL) and isinstance(b, SeqL) and a.n == b.n:
        return SeqL([merge(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(ITE(c, a.n, b.n), lambda j: merge(c, a.get(j), b.get(j)), ('ite', c, a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and len(a.path) == len(b.path):
        path = []
        for x, y in zip(a.path, b.path):
            if x == y if not (isinstance(x, tuple) and isinstance(y, tuple)) else False: path.append(x)
            elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and len(x) == len(y):
                path.append((x[0],) + tuple(ITE(c, p, q) for p, q in zip(x[1:], y[1:])))
            else: break
        else: return Ptr(a.obj, path)
    if isinstance(a, Sl) and isinstance(b, Sl) and a.obj == b.obj and patheq(a.path, b.path):
        return Sl(a.obj, a.path, ITE(c, a.start, b.start), ITE(c, a.len, b.len))
    if isinstance(a, CPtr) and isinstance(b, CPtr) and a.ty == b.ty:
        return CPtr(a.ty, ITE(c, a.addr, b.addr))
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name and len(a.args) == len(b.args) == 0: return a
    if isinstance(a, FnVal) and isinstance(b, FnVal) and a.ty == b.ty: return a
    if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
    if isinstance(a, Native) and isinstance(b, Native) and type(a) is type(b) and a.key() == b.key():
        fa, fb = a.fields(), b.fields()
        if len(fa) == len(fb):
            return a.rebuild([merge(c, x, y) for x, y in zip(fa, fb)])
    alts = []
    for cc, v in ((c, a), (NOT(c), b)):
        if isinstance(v, Choice): alts += [(AND(cc, k), x) for k, x in v.alts]
        else: alts.append((cc, v))
    return Choice(alts)
def pull(agg):
    """a struct with an unmergeable field becomes a choice of structs"""
    if not any(isinstance(x, Choice) for x in agg.f): return agg
    i = next(i for i, x in enumerate(agg.f) if isinstance(x, Choice))
    alts = []
    for c, v in agg.f[i].alts:
        g = list(agg.f); g[i] = v
        w = pull(Agg(agg.ty, g))
        if isinstance(w, Choice): alts += [(AND(c, k), x) for k, x in w.alts]
        else: alts.append((c, w))
    return Choice(alts)
def patheq(p, q):
    if len(p) != len(q): return False
    for x, y in zip(p, q):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x[0] != y[0] or len(x) != len(y): return False
            if not all(same(a, b) if not isinstance(a, str) else a == b for a, b in zip(x[1:], y[1:])): return False
        elif isinstance(x, tuple) or isinstance(y, tuple) or x != y: return False
    return True

_fresh = [0]
def freshname(b):
    _fresh[0] += 1
    return f'{b}!{_fresh[0]}'

def subst(v, pairs):
    """replace z3 constants in a value; pairs = [(old, new)]"""
    pairs = [(a, Z(b)) for a, b in pairs]
    def s(x):
        if isinstance(x, z3.ExprRef):
            r = z3.substitute(x, *pairs)
            return norm(r) if r.sort() == z3.IntSort() else num(r)
        if isinstance(x, (bool, int, Fraction, str)) or x is None: return x
        if isinstance(x, F): return F(s(x.v), s(x.nan))
        if isinstance(x, IdAgg): return IdAgg(s(x.h), x.mk)
        if isinstance(x, Agg): return Agg(x.ty, [s(y) for y in x.f])
        if isinstance(x, En): return En(x.ty, s(x.d), {k: tuple(s(y) for y in f) for k, f in x.p.items()})
        if isinstance(x, SeqL): return SeqL([s(y) for y in x.items])
        if isinstance(x, Seq):
            def g(j, x=x):
                j0 = z3.Int(freshname('j'))
                w = x.get(j0)
                return subst(w, pairs + [(j0, Z(j))])
            return Seq(s(x.n), g, ('subst', x, pairs))
        if isinstance(x, Mat): return Mat(x.r, x.c, [s(y) for y in x.cells])
        if isinstance(x, MatF):
            def g2(i, j, x=x):
                i0 = z3.Int(freshname('j')); j0 = z3.Int(freshname('j'))
                return subst(x.at(i0, j0), pairs + [(i0, Z(i)), (j0, Z(j))])
            return MatF(s(x.r), s(x.c), g2, ('subst', x, pairs))
        if isinstance(x, Ptr): return Ptr(x.obj, [spe(p) for p in x.path])
        if isinstance(x, Sl): return Sl(x.obj, [spe(p) for p in x.path], s(x.start), s(x.len))
        if isinstance(x, CPtr): return CPtr(x.ty, s(x.addr))
        if isinstance(x, Choice): return Choice([(s(c), s(y)) for c, y in x.alts])
        if isinstance(x, Opaque): return Opaque(x.name, [s(y) for y in x.args])
        if isinstance(x, Native): return x.rebuild([s(y) for y in x.fields()])
        if isinstance(x, tuple): return tuple(s(y) for y in x)
        return x
    def spe(p):
        return (p[0],) + tuple(s(y) for y in p[1:]) if isinstance(p, tuple) else p
    return s(v)

def deep_eq(a, b):
    """formula 'a equals b' for first-order values (concretely shaped)"""
    if isinstance(a, F): return AND(EQ(a.nan, b.nan), OR(a.nan, req(a.v, b.v)))
    if isinstance(a, Agg): return AND(*[deep_eq(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Mat): return AND(*[deep_eq(x, y) for x, y in zip(a.cells, b.cells)])
    if isinstance(a, SeqL) and isinstance(b, SeqL):
        return a.n == b.n and AND(*[deep_eq(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, En):
        r = [EQ(a.d, b.d)]
        for k in set(a.p) & set(b.p):
            e = AND(*[deep_eq(x, y) for x, y in zip(a.p[k], b.p[k])])
            if e is not True: r.append(IMP(EQ(a.d, k), e))
        return AND(*r)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj or len(a.path) != len(b.path): return False
        r = []
        for x, y in zip(a.path, b.path):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]: r += [EQ(p, q) for p, q in zip(x[1:], y[1:])]
            elif isinstance(x, tuple) or isinstance(y, tuple) or x != y: return False
        return AND(*r)
    if isinstance(a, CPtr) and isinstance(b, CPtr): return EQ(a.addr, b.addr)
    if isinstance(a, (bool, int, Fraction)) or isz(a): return EQ(a, b)
    if isinstance(a, Opaque) and isinstance(b, Opaque): return AND(a.name == b.name, *[deep_eq(x, y) for x, y in zip(a.args, b.args)])
    raise Unsupported(f'equality of {type(a).__name__} and {type(b).__name__}')
