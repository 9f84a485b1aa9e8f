"""Loop summaries by induction on the iteration number.

The state at the head of iteration k is written as a function of k ("widened"): counters are
linear, vectors that only grow are comprehensions, containers written at an injective index are
in-place maps, running float totals are sums, everything else is an arbitrary function of k that is
constrained only by invariants the solver proves inductive.  The body is then run once for a generic
k; what it does on the paths that come back to the head must reproduce the widened state at k+1
(checked structurally or by the solver), which is the induction step."""
import z3
from fractions import Fraction
from values import *
import os
I = z3.IntSort(); R = z3.RealSort(); B = z3.BoolSort()
DEBUG = bool(os.environ.get('VP_LOOPDEBUG'))

class Unstable(Exception): pass

def ident(a, b):
    """syntactic equality of values"""
    if a is b: return True
    if type(a) is not type(b):
        if (isz(a) or isinstance(a, (int, Fraction, bool))) and (isz(b) or isinstance(b, (int, Fraction, bool))):
            return scal_eq(a, b)
        return False
    if isz(a) or isinstance(a, (int, Fraction, bool)): return scal_eq(a, b)
    if isinstance(a, F): return scal_eq(a.v, b.v) and scal_eq(a.nan, b.nan)
    if isinstance(a, IdAgg): return a.mk is b.mk and scal_eq(a.h, b.h)
    if isinstance(a, Agg): return len(a.f) == len(b.f) and all(ident(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, En): return scal_eq(a.d, b.d) and a.p.keys() == b.p.keys() and all(len(a.p[k]) == len(b.p[k]) and all(ident(x, y) for x, y in zip(a.p[k], b.p[k])) for k in a.p)
    if isinstance(a, Mat): return (a.r, a.c) == (b.r, b.c) and all(ident(x, y) for x, y in zip(a.cells, b.cells))
    if isinstance(a, SeqL): return a.n == b.n and all(ident(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, (Ptr,)): return a.obj == b.obj and patheq(a.path, b.path)
    if isinstance(a, Sl): return a.obj == b.obj and patheq(a.path, b.path) and scal_eq(a.start, b.start) and scal_eq(a.len, b.len)
    if isinstance(a, CPtr): return a.ty == b.ty and scal_eq(a.addr, b.addr)
    if isinstance(a, Opaque): return a.name == b.name and len(a.args) == len(b.args) and all(ident(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, FnVal): return a.ty == b.ty
    if isinstance(a, Undef): return True
    if isinstance(a, Native) and a.key() == b.key():
        fa, fb = a.fields(), b.fields()
        return len(fa) == len(fb) and len(fa) > 0 and all(ident(x, y) for x, y in zip(fa, fb))
    if isinstance(a, (str, tuple)): return a == b
    return False
def scal_eq(a, b):
    if isinstance(a, bool) != isinstance(b, bool) and not (isz(a) or isz(b)): return False
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    try:
        if isz(a) and isz(b) and a.sort() != b.sort(): return False
        x = z3.simplify((ZR(a) - ZR(b)) if (isz(a) and a.sort() == R) or (isz(b) and b.sort() == R) else (Z(a) - Z(b)), som=True) if not ((isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b))) else z3.simplify(Z(a) == Z(b))
        return z3.is_true(x) or (z3.is_int_value(x) and x.as_long() == 0) or (z3.is_rational_value(x) and x.as_fraction() == 0)
    except Exception:
        return False

def multiple(x, m):
    """x as (q, r) with x = m*q + r, when that can be read off"""
    x = z3.simplify(x)
    q, r = z3.IntVal(0), 0
    for t in (x.children() if z3.is_add(x) else [x]):
        if z3.is_int_value(t): r += t.as_long()
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % m == 0:
            rest = t.children()[1:]; y = rest[0]
            for z in rest[1:]: y = y * z
            q = q + y * (t.arg(0).as_long() // m)
        else: return None
    return z3.simplify(q + r // m), r % m
class PushSeq(Seq):
    """v0 followed by the items pushed in iterations 0..k-1 (m per iteration)"""
    def __init__(self, v0, k, m, items, kconst):
        self.v0 = v0; self.k = k; self.m = m; self.items = items; self.kc = kconst
        self.n = ADD(v0.n, MUL(m, k)); self.origin = ('push', self); self._c = {}
    def itemat(self, j, r):
        if self.items is None: raise Pending(self)
        return subst(self.items[r], [(self.kc, j)])
    def _get(self, j):
        off = SUB(j, self.v0.n)
        c = norm(Z(LT(j, self.v0.n)))
        if c is True: return self.v0.get(j)
        if self.items is None: raise Pending(self)
        if self.m == 1: new = self.itemat(off, 0)
        elif not isz(off): new = self.itemat(off // self.m, off % self.m)
        elif multiple(off, self.m): new = self.itemat(*multiple(off, self.m))
        else:
            q, r = DIVF(Z(off), Z(self.m)), MODF(Z(off), Z(self.m))
            new = self.itemat(q, self.m - 1)
            for i in range(self.m - 2, -1, -1): new = merge(EQ(r, i), self.itemat(q, i), new)
        if c is False or (not isz(self.v0.n) and self.v0.n == 0): return new
        return merge(c, self.v0.get(j), new)
class CondPush(Seq):
    """v0 followed by at most one item per iteration; cnt(k) items so far, sel(j) = iteration of the j-th"""
    def __init__(self, v0, k, cnt, sel, items, kconst):
        self.v0 = v0; self.k = k; self.cnt = cnt; self.sel = sel; self.items = items; self.kc = kconst
        self.n = ADD(v0.n, cnt(k)); self.origin = ('cpush', self); self._c = {}
    def _get(self, j):
        if self.items is None: raise Pending(self)
        off = SUB(j, self.v0.n)
        new = subst(self.items, [(self.kc, self.sel(off))])
        if not isz(self.v0.n) and self.v0.n == 0: return new
        return merge(LT(j, self.v0.n), self.v0.get(j), new)
class GrowSeq(Seq):
    """v0 followed by whatever earlier iterations appended: element j is the same in every later iteration"""
    def __init__(self, v0, cnt, item, it, distinct=None):
        self.v0 = v0; self.cnt = cnt; self.item = item; self.it = it; self.n = ADD(v0.n, cnt); self.origin = ('grow', self); self._c = {}
    def _get(self, j):
        off = SUB(j, self.v0.n)
        if not isz(self.v0.n) and self.v0.n == 0: return self.item(off)
        return merge(LT(j, self.v0.n), self.v0.get(j), self.item(off))
def grown_in(q, j, k):
    """the iteration that appended element j of a vector that grows in a loop (k the current one), or None"""
    if isinstance(q, GrowSeq): return q.it(SUB(j, q.v0.n))
    if isinstance(q, SeqApp): c = EQ(j, q.base.n)
    elif isinstance(q, SeqC): c = AND(q.c, EQ(j, q.base.n))
    else: return None
    r = grown_in(q.base, j, k)
    return None if r is None else ITE(c, k, r)
def like(v, mk):
    """a value of v's shape made of unknown leaves; mk(sort) makes one"""
    if isinstance(v, F): return F(mk(R), mk(B))
    if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return mk(B)
    if isinstance(v, int) or (isz(v) and v.sort() == I): return mk(I)
    if isinstance(v, Agg): return Agg(v.ty, [like(x, mk) for x in v.f])
    if isinstance(v, Mat): return Mat(v.r, v.c, [like(x, mk) for x in v.cells])
    if isinstance(v, SeqL): return SeqL([like(x, mk) for x in v.items])
    raise Unsupported('growing vector of ' + type(v).__name__)
def scalars(v):
    if isinstance(v, F): return [v.v, v.nan]
    if isinstance(v, Agg): return [y for x in v.f for y in scalars(x)]
    if isinstance(v, Mat): return [y for x in v.cells for y in scalars(x)]
    if isinstance(v, SeqL): return [y for x in v.items for y in scalars(x)]
    if isz(v) or isinstance(v, (int, Fraction, bool)): return [v]
    raise Unsupported('key of ' + type(v).__name__)
def toz(x): return x if isz(x) else z3.BoolVal(x) if isinstance(x, bool) else z3.RealVal(x) if isinstance(x, Fraction) else z3.IntVal(x)
class ElemSeq(Seq):
    """v0 with elements a, a+1, .. a+k-1 replaced by item(0..k-1)"""
    def __init__(self, v0, k, a, item, kconst):
        self.v0 = v0; self.k = k; self.a = a; self.item = item; self.kc = kconst
        self.n = v0.n; self.origin = ('elem', self); self._c = {}
    def _get(self, j):
        off = SUB(j, self.a)
        c = norm(Z(AND(LE(0, off), LT(off, self.k))))
        if c is False: return self.v0.get(j)
        if self.item is None: raise Unsupported('element of a vector the loop is rewriting')
        new = subst(self.item, [(self.kc, off)])
        return new if c is True else merge(c, new, self.v0.get(j))
class RowMat(MatF):
    """v0 with rows a..a+k-1 written; each iteration writes cells (a+k, col_r) := val_r in order"""
    def __init__(self, v0, k, a, writes, kconst):
        self.v0 = v0; self.k = k; self.a = a; self.writes = writes; self.kc = kconst; self.r = v0.r; self.c = v0.c
        self.origin = ('row', self)
    def _at(self, i, j):
        off = SUB(i, self.a)
        c = norm(Z(AND(LE(0, off), LT(off, self.k))))
        if c is False: return self.v0.at(i, j)
        if self.writes is None: raise Unsupported('matrix the loop is filling')
        new = self.v0.at(i, j)
        for cond, col, val in self.writes:
            w = subst(Agg(None, [cond, col, val]), [(self.kc, off)])
            new = merge(norm(Z(AND(w.f[0], EQ(w.f[1], j)))), w.f[2], new)
        return new if c is True else merge(c, new, self.v0.at(i, j))

def unpush(new, cur):
    """items appended to cur to get new, or None"""
    xs = []
    x = new
    while True:
        if x is cur: return xs[::-1]
        if isinstance(x, SeqApp): xs.append(x.v); x = x.base; continue
        if isinstance(x, SeqL) and isinstance(cur, SeqL) and x.n >= cur.n and all(ident(a, b) for a, b in zip(cur.items, x.items)):
            return list(x.items[cur.n:]) + xs[::-1]
        return None
def unstores(new, cur):
    """[(index, value)] written to cur in order, or None"""
    ws = []; x = new
    while x is not cur:
        if isinstance(x, SeqSt): ws.append((x.i, x.v)); x = x.base
        else: return None
    return ws[::-1]
def unmat(new, cur):
    ws = []; x = new
    while x is not cur:
        if isinstance(x, MatSt): ws.append((x.i, x.j, x.v)); x = x.base
        else: return None
    return ws[::-1]

class Summ:
    def __init__(self, eng, st0, where):
        self.e = eng; self.st0 = st0; self.where = where
        self.k = z3.Int(freshname('k'))
        self.base = st0.fork(); self.base.params = st0.params + (self.k,)
        self.base.axiom(self.k >= 0)
        self.cls = {}        # leaf key -> class
        self.cands = []
        self.hav = []        # havocked scalars (key, term)
        self.noncon = set(); self.mapkeys = set()
    # fresh function of k
    def fresh(self, sort, base='w'):
        return self.e.const(self.base, base, sort)
    def initial(self, key, v): pass
    def freshlike(self, v, key):
        e = self.e
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return self.fresh(B)
        if isinstance(v, F):
            c = self.cls.setdefault(key, {'t': 'hF', 'x': self.fresh(R), 'nan': self.fresh(B)})
            return F(c['x'], c['nan'])
        if isinstance(v, (int,)) or (isz(v) and v.sort() == I):
            c = self.cls.setdefault(key, {'t': 'hI', 'x': self.fresh(I)})
            return c['x']
        if isinstance(v, IdAgg): return IdAgg(self.freshlike(v.h, key + ('h',)), v.mk)
        if isinstance(v, Agg): return Agg(v.ty, [self.freshlike(x, key + (i,)) for i, x in enumerate(v.f)])
        if isinstance(v, Mat): return Mat(v.r, v.c, [self.freshlike(x, key + (i,)) for i, x in enumerate(v.cells)])
        if isinstance(v, SeqL): return SeqL([self.freshlike(x, key + (i,)) for i, x in enumerate(v.items)])
        if isinstance(v, En): return En(v.ty, self.freshlike(v.d, key + ('d',)), {k: tuple(self.freshlike(x, key + (k, i)) for i, x in enumerate(f)) for k, f in v.p.items()})
        if isinstance(v, Ptr):
            return Ptr(v.obj, [(p[0],) + tuple(self.freshlike(y, key + ('p', i, j)) for j, y in enumerate(p[1:])) if isinstance(p, tuple) else p for i, p in enumerate(v.path)])
        if isinstance(v, CPtr): return CPtr(v.ty, self.freshlike(v.addr, key + ('addr',)))
        if isinstance(v, (FnVal, Opaque, Undef)): return v
        raise Unsupported(f'loop variable of kind {type(v).__name__}')
    # ---- value at iteration k
    def value(self, key, v0):
        c = self.cls.get(key)
        e = self.e
        if c is None:
            sub = [k2 for k2 in self.cls if len(k2) > len(key) and k2[:len(key)] == key]
            if not sub: return v0
            if isinstance(v0, IdAgg): return IdAgg(self.value(key + ('h',), v0.h), v0.mk)
            if isinstance(v0, Agg): return Agg(v0.ty, [self.value(key + (i,), x) for i, x in enumerate(v0.f)])
            if isinstance(v0, Mat): return Mat(v0.r, v0.c, [self.value(key + (i,), x) for i, x in enumerate(v0.cells)])
            if isinstance(v0, SeqL): return SeqL([self.value(key + (i,), x) for i, x in enumerate(v0.items)])
            if isinstance(v0, Ptr): return Ptr(v0.obj, [(p[0],) + tuple(self.value(key + ('p', i, j), y) for j, y in enumerate(p[1:])) if isinstance(p, tuple) else p for i, p in enumerate(v0.path)])
            if isinstance(v0, CPtr): return CPtr(v0.ty, self.value(key + ('addr',), v0.addr))
            if isinstance(v0, Sl): return Sl(v0.obj, v0.path, self.value(key + ('start',), v0.start), self.value(key + ('len',), v0.len))
            if isinstance(v0, Native): return v0.rebuild([self.value(key + (i,), x) for i, x in enumerate(v0.fields())])
            raise Unsupported(f'loop value {type(v0).__name__}')
        t = c['t']
        if t == 'lin': return ADD(v0, MUL(c['c'], self.k))
        if t in ('hI', 'hB'): return c['x']
        if t == 'hF': return F(c['x'], c['nan'])
        if t == 'en':
            return En(c['ty'], self.value(key + ('d',), v0.d), {k: tuple(self.value(key + (k, i), x) for i, x in enumerate(f)) for k, f in c['p'].items()})
        if t in ('push', 'cpush', 'elem', 'row', 'key', 'obj', 'grow'): return c['v']
        raise Unsupported('class ' + t)
    # ---- adjust classes so that the widened value covers what came back; True if something changed
    def adjust(self, key, v0, cur, news):
        """news: [(cond, value)]"""
        if all(ident(cur, n) for _, n in news) and key not in self.cls: return False
        c = self.cls.get(key)
        if c is None:
            if any(type(n) is not type(cur) for _, n in news) and not all(sc(n) for _, n in news + [(0, cur)]):
                if isinstance(cur, Undef): raise Unsupported('loop variable without initial value')
                if not (isinstance(cur, Seq) and all(isinstance(n, Seq) for _, n in news)) and not (isinstance(cur, MatF) and all(isinstance(n, MatF) for _, n in news)):
                    raise Unsupported(f'loop variable changes kind: {type(cur).__name__} / {[type(n).__name__ for _, n in news]}')
            if isinstance(cur, F):
                self.cls[key] = {'t': 'hF', 'x': self.fresh(R), 'nan': self.fresh(B)}; return True
            if isinstance(cur, bool) or (isz(cur) and z3.is_bool(cur)):
                self.cls[key] = {'t': 'hB', 'x': self.fresh(B)}; return True
            if isinstance(cur, int) or (isz(cur) and cur.sort() == I):
                ds = [SUB(n, cur) for _, n in news]
                if all(not isz(d) for d in ds) and len(set(ds)) == 1: self.cls[key] = {'t': 'lin', 'c': ds[0]}
                else: self.cls[key] = {'t': 'hI', 'x': self.fresh(I)}
                return True
            if isinstance(cur, En):
                p = {}
                for x in [cur] + [n for _, n in news]:
                    for kk, f in x.p.items(): p.setdefault(kk, f)
                ch = False
                if set(p) != set(cur.p) or True:
                    c = self.cls[key] = {'t': 'en', 'ty': cur.ty, 'p': {}}
                    for kk, f in p.items():
                        if kk in cur.p: c['p'][kk] = v0.p[kk]
                        else: c['p'][kk] = tuple(self.freshlike(x, key + (kk, i)) for i, x in enumerate(f))
                return True
            return self.adjust_sub(key, v0, cur, news)
        t = c['t']
        if t == 'lin':
            ds = [SUB(n, cur) for _, n in news]
            if all(not isz(d) and d == c['c'] for d in ds): return False
            self.cls[key] = {'t': 'hI', 'x': self.fresh(I)}; return True
        if t in ('hI', 'hB', 'hF'): 
            c['news'] = news; return False
        if t == 'en':
            ch = False
            for _, n in news:
                for kk, f in n.p.items():
                    if kk not in c['p']:
                        c['p'][kk] = tuple(self.freshlike(x, key + (kk, i)) for i, x in enumerate(f)); ch = True
            if ch: return True
            ch = self.adjust(key + ('d',), v0.d, cur.d, [(cc, n.d) for cc, n in news])
            for kk in c['p']:
                fs = [(cc, n.p[kk]) for cc, n in news if kk in n.p]
                for i in range(len(c['p'][kk])):
                    ch |= self.adjust(key + (kk, i), c['p'][kk][i], cur.p[kk][i], [(cc, f[i]) for cc, f in fs])
            return ch
        if t in ('push', 'cpush', 'elem', 'row', 'key', 'grow'): return self.adjust_seq(key, v0, cur, news, c)
        return False
    def adjust_sub(self, key, v0, cur, news):
        ch = False
        if isinstance(cur, IdAgg):
            if any(n.mk is not cur.mk for _, n in news): raise Unsupported('loop variable changes kind')
            return self.adjust(key + ('h',), v0.h, cur.h, [(c, n.h) for c, n in news])
        if isinstance(cur, (Agg, Mat)) or (isinstance(cur, SeqL) and all(isinstance(n, SeqL) and n.n == cur.n for _, n in news)):
            g = (lambda x: x.f) if isinstance(cur, Agg) else (lambda x: x.cells) if isinstance(cur, Mat) else (lambda x: x.items)
            for i in range(len(g(cur))): ch |= self.adjust(key + (i,), g(v0)[i], g(cur)[i], [(c, g(n)[i]) for c, n in news])
            return ch
        if isinstance(cur, Ptr):
            for _, n in news:
                if n.obj != cur.obj or len(n.path) != len(cur.path): raise Unsupported('loop variable points to different objects')
            for i, p in enumerate(cur.path):
                if isinstance(p, tuple):
                    for j in range(len(p) - 1):
                        if isinstance(p[j + 1], str): continue
                        ch |= self.adjust(key + ('p', i, j), v0.path[i][j + 1], p[j + 1], [(c, n.path[i][j + 1]) for c, n in news])
                elif any(n.path[i] != p for _, n in news): raise Unsupported('loop variable points to different fields')
            return ch
        if isinstance(cur, CPtr):
            return self.adjust(key + ('addr',), v0.addr, cur.addr, [(c, n.addr) for c, n in news])
        if isinstance(cur, Sl):
            for _, n in news:
                if n.obj != cur.obj or not patheq(n.path, cur.path): raise Unsupported('loop slice of different objects')
            a = self.adjust(key + ('start',), v0.start, cur.start, [(c, n.start) for c, n in news])
            return self.adjust(key + ('len',), v0.len, cur.len, [(c, n.len) for c, n in news]) or a
        if isinstance(cur, (Seq, MatF)): return self.adjust_seq(key, v0, cur, news, None)
        if isinstance(cur, Native):
            if hasattr(cur, 'loop_adjust'):
                return cur.loop_adjust(self, key, v0, news)
            for _, n in news:
                if n.key() != cur.key(): raise Unsupported('loop iterator changes kind')
            fs = cur.fields()
            if hasattr(cur, 'log'): self.mapkeys.add(key + (0,))
            for i in range(len(fs)): ch |= self.adjust(key + (i,), v0.fields()[i], fs[i], [(c, n.fields()[i]) for c, n in news])
            return ch
        raise Unsupported(f'loop writes {type(cur).__name__}')
    def adjust_seq(self, key, v0, cur, news, c):
        e = self.e
        if isinstance(cur, MatF):
            ws = [(cc, unmat(n, cur)) for cc, n in news]
            if any(w is None for _, w in ws): raise Unsupported('matrix update in loop')
            rows = [w[0] for _, w in ws for w in w]
            if not rows: return False
            a = SUB(rows[0], self.k)
            if mentions(a, self.k) or any(not scal_eq(r, rows[0]) for r in rows):
                self.deferred = 'matrix rows written in a loop'; return False
            writes = []
            for cc, w in ws:
                for (i, j, v) in w: writes.append((cc, j, v))
            if len(ws) == 1: writes = [(True, j, v) for _, j, v in writes]
            if c is None:
                self.cls[key] = {'t': 'row', 'v': RowMat(v0, self.k, a, None, self.k), 'w': writes}; return True
            c['w'] = writes; return False
        if all(n is cur for _, n in news): 
            return False
        ps = [(cc, unpush(n, cur)) for cc, n in news]
        ms = {len(p) for _, p in ps} if all(p is not None for _, p in ps) else None
        if ms is None or (len(ms) > 1 and not ms <= {0, 1}) or (c is not None and c['t'] == 'grow'):
            gs = [(cc, appended(n, cur)) for cc, n in news]
            if all(g is not None for _, g in gs): return self.adjust_grow(key, v0, gs, c)
        if ms is not None:
            kind = 'push' if len(ms) == 1 else 'cpush'
            if kind == 'cpush' and not ms <= {0, 1}: raise Unsupported('varying number of pushes')
            if ms == {0}: return False
            if c is not None and c['t'] == 'cpush': kind = 'cpush'
            if c is None or (c['t'] == 'push' and kind == 'cpush'):
                if kind == 'push':
                    m = ms.pop()
                    self.cls[key] = {'t': 'push', 'm': m, 'v': PushSeq(v0, self.k, m, None, self.k), 'ps': ps}
                else:
                    nm, sn = freshname('cnt'), freshname('sel')
                    pr = self.st0.params
                    cf = z3.Function(nm, *([I] * (len(pr) + 1)), I); sf = z3.Function(sn, *([I] * (len(pr) + 1)), I)
                    cnt = lambda j: cf(*pr, Z(j)); sel = lambda j: sf(*pr, Z(j))
                    self.cls[key] = {'t': 'cpush', 'v': CondPush(v0, self.k, cnt, sel, None, self.k), 'ps': ps, 'cnt': cnt, 'sel': sel}
                return True
            if c['t'] == 'push' and ms != {c['m']}: raise Unsupported('pushes vary')
            c['ps'] = ps; return False
        ws = [(cc, unstores(n, cur)) for cc, n in news]
        if all(w is not None for _, w in ws):
            idx = [i for _, w in ws for i, v in w]
            a = SUB(idx[0], self.k)
            if mentions(a, self.k) or any(not scal_eq(i, idx[0]) for i in idx):
                if DEBUG: print('indices', idx)
                self.deferred = 'vector elements written in a loop'; return False
            if c is None:
                self.cls[key] = {'t': 'elem', 'v': ElemSeq(v0, self.k, a, None, self.k), 'w': ws}; return True
            c['w'] = ws; return False
        raise Unsupported('vector update in loop')

    def adjust_grow(self, key, v0, gs, c):
        if c is not None and c['t'] == 'grow': c['gs'] = gs; return False
        pr = self.st0.params; np = len(pr)
        tag = freshname('grow')
        def uf(nm, sort): f = z3.Function(f'{nm}!{tag}', *([I] * (np + 1)), sort); return lambda j: f(*pr, Z(j))
        cnt, it = uf('count', I), uf('made', I)
        shape = [v for _, g in gs for _, v in g][0]
        made = []
        like(shape, lambda s: made.append(uf('item%d' % len(made), s)) or z3.Const('junk', s))
        def item(j):
            i = iter(made); return like(shape, lambda s: next(i)(j))
        c = self.cls[key] = {'t': 'grow', 'v': GrowSeq(v0, cnt(self.k), item, it), 'cnt': cnt, 'it': it, 'item': item, 'gs': gs}
        if key in self.mapkeys:
            sorts = [z3.Const('x', toz(x).sort()).sort() for x in scalars(shape.f[0])]
            f = z3.Function(f'slot!{tag}', *([I] * np), *sorts, I)
            c['slot'] = lambda kv: f(*pr, *[toz(x) for x in scalars(kv)])
        return True

def sc(x): return isz(x) or isinstance(x, (int, Fraction, bool))
def mentions(e, k):
    if not isz(e): return False
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(k): return True
        st.extend(x.children())
    return False
def mention_any(e, ids):
    if not isz(e): return False
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        st.extend(x.children())
    return False

def hasptr(v, objs):
    """does v point to one of objs"""
    if isinstance(v, (Ptr, Sl)): return v.obj in objs
    if isinstance(v, Agg): return any(hasptr(x, objs) for x in v.f)
    if isinstance(v, En): return any(hasptr(x, objs) for f in v.p.values() for x in f)
    if isinstance(v, SeqL): return any(hasptr(x, objs) for x in v.items)
    if isinstance(v, Mat): return any(hasptr(x, objs) for x in v.cells)
    if isinstance(v, Native): return any(hasptr(x, objs) for x in v.fields())
    if isinstance(v, Choice): return any(hasptr(x, objs) for _, x in v.alts)
    return False

def summarise(eng, st0, body, where, kill=None, bound=None, limit=14):
    S = Summ(eng, st0, where)
    e = eng; k = S.k
    ob0 = len(e.obls)
    eng.nloops = getattr(eng, 'nloops', 0) + 1
    def head():
        s = S.base.fork()
        for o, v in st0.store.items():
            nv = S.value((o,), v) if any(kk[0] == o for kk in S.cls) else v
            s.store[o] = nv
        for c in S.cls.values():
            if 'hyp' in c:
                s.facts = s.facts + tuple(c['hyp'](z3.Int('@hyp'), k))
                for f in (EQ(c['cnt'](0), 0), LE(0, c['cnt'](k)), LE(c['cnt'](k), k)): s.axiom(f)
            if c['t'] == 'grow': grow_head(S, s, c)
        qhead(s)
        return s
    def qhead(s):
        for q in quant:
            j = z3.Int('@q'); s.facts = s.facts + (Fact(j, q(s, j, k), 'quantified invariant'),)
    quant = []; qdone = False
    cands = None
    for rnd in range(limit):
        del e.obls[ob0:]
        s = head()
        for c in (cands or []):
            s.axiom(c(s))
        outs = body(s.fork())
        backs = [o[1] for o in outs if o[0] == 'back']
        if not backs: break
        if kill:
            for b in backs: kill(b)
        ch = False; S.deferred = None
        n0 = len(s.pc)
        conds = [AND(*b.pc[n0:]) for b in backs]
        newobjs = set()
        for b in backs: newobjs |= set(b.store) - set(st0.store)
        for o in list(st0.store):
            cur = s.store[o]
            if all(b.store.get(o) is cur for b in backs):
                continue
            news = [(c, b.store[o]) for c, b in zip(conds, backs) if o in b.store]
            if any(isinstance(n, Undef) for _, n in news):
                if all(isinstance(n, Undef) for _, n in news) or not isinstance(cur, Undef):
                    if not isinstance(st0.store[o], Undef): 
                        st0.store[o] = UNDEF
                        for kk in [kk for kk in S.cls if kk[0] == o]: del S.cls[kk]
                        ch = True
                    continue
            if isinstance(cur, Undef): continue
            if any(hasptr(n, newobjs) for _, n in news): raise Unsupported('loop-carried pointer to a temporary')
            ch |= S.adjust((o,), st0.store[o], cur, news)
        if DEBUG: print('loop', where, 'round', rnd, 'changed', ch, {str(kk): c['t'] for kk, c in S.cls.items()})
        if ch: cands = None; quant = []; qdone = False; continue
        # the elements so far are needed inside the loop: what one round computed is the next round's induction hypothesis
        again = False
        for c in S.cls.values():
            q = c.get('v')
            if c['t'] in ('push', 'cpush') and getattr(q, 'need', False):
                its = items_of(S, st0, c, backs)
                pr = OR(*[cc for cc, p in c['ps'] if p]) if c['t'] == 'cpush' else True
                if q.items is None or not (ident(Agg(None, its), Agg(None, q.items)) if c['t'] == 'push' else ident(its, q.items) and scal_eq(pr, c['hpred'])):
                    nq = PushSeq(q.v0, q.k, q.m, its, q.kc) if c['t'] == 'push' else CondPush(q.v0, q.k, q.cnt, q.sel, its, q.kc)
                    nq.need = True; c['v'] = nq; again = True
                    if DEBUG: print('again', c['t'], Agg(None, its).f if isinstance(its, list) else its, q.items, pr, c.get('hpred'))
                    if c['t'] == 'cpush': c['hyp'] = cpush_facts(S, c); c['hpred'] = pr
        if again: cands = None; continue
        if S.deferred and cands is not None: raise Unsupported(S.deferred)
        # invariants for the havocked leaves
        if cands is None:
            cands = houdini(S, st0, head, body, kill, s, backs)
            if cands: continue
            if S.deferred: raise Unsupported(S.deferred)
        if not qdone and e.quantified:
            qdone = True
            quant = [q for f in e.quantified for q in f(S, st0, s)]
            if DEBUG: print('quantified candidates', len(quant))
            while quant:
                h = head(); ob = len(e.obls); ho = body(h.fork()); del e.obls[ob:]
                bad = []
                for q in quant:
                    j = z3.Int('@q!new')
                    for t, kk in [(st0, z3.IntVal(0))] + [(o[1], k + 1) for o in ho if o[0] == 'back']:
                        g = q(t, j, kk)
                        if g is True: continue
                        if prove_q(e, S, t, g, kk): continue
                        if DEBUG: print('not kept', getattr(q, 'name', q))
                        bad.append(q); break
                if not bad: break
                quant = [q for q in quant if q not in bad]
            if quant: continue
        break
    else: raise Unsupported('loop does not stabilise')
    final = S
    if not backs:
        # the loop never comes back: its exits are those of the first iteration
        del e.obls[ob0:]
        s = st0.fork()
        return [o for o in body(s)]
    if any(b.ev != s.ev for b in backs): raise Unsupported('external effects in a loop')
    fill(S, s, backs, conds)
    if e.variants is not None: variant(S, s, backs, where)
    # facts about every completed iteration
    v = z3.Int(freshname('v'))
    sub = lambda f, t: z3.substitute(Z(f), (k, Z(t)))
    facts = []
    rngv = AND(LE(0, v), LT(v, k))
    nax, nf = len(s.ax), len(s.facts)
    bc = OR(*conds)
    facts.append(Fact(v, IMP(rngv, sub(bc, v)), 'iterated'))
    def inst(t):
        out = [sub(bc, t)]
        return AND(*out)
    for b, c in zip(backs, conds):
        for a in b.ax[nax:]:
            facts.append(Fact(v, IMP(AND(rngv, sub(c, v)), sub(a, v)), 'iter-ax'))
        for f in b.facts[nf:]:
            # nested: for all iterations v, for all inner indices
            facts.append(nested(v, AND(rngv, sub(c, v)), f.sub(k, v)))
    for c in (cands or []):
        f = c(s)
        facts.append(Fact(v, IMP(AND(LE(0, v), LE(v, k)), sub(f, v)), 'invariant'))
    for key, c in S.cls.items():
        if c['t'] == 'cpush': facts += c['facts'](v, k) + same_counts(S, c, v)
    for key, c in S.cls.items():
        if 'facts2' in c: facts += c['facts2'](v, k)
        if c['t'] == 'grow': facts += grow_facts(S, c, v, k, sub)
    res = []
    last = IMP(k > 0, sub(bc, k - 1))
    extra = recur_axioms(S, st0, k)
    for o in outs:
        if o[0] == 'back': continue
        x = o[1].fork()
        x.params = st0.params
        x.ax = tuple(x.ax) + (Z(last),) + tuple(Z(q) for q in extra)
        x.facts = tuple(x.facts) + tuple(facts)
        # k becomes an ordinary constant (function of the outer parameters)
        if not e.feasible(x): continue
        res.append((o[0], x) + tuple(o[2:]))
    # obligations of the generic iteration may use the facts as well
    for ob in e.obls[ob0:]:
        if ob.status is None:
            ob.facts = tuple(ob.facts) + tuple(facts); ob.forms = list(ob.forms) + [Z(last)] + [Z(q) for q in extra]
    return res

def variant(S, s, backs, where):
    """termination: the iteration number stays below something that does not depend on it, or a
    variant supplied by the contract moves on every path back to the head"""
    e = S.e; k = S.k; cand = {}
    def walk(v, d=0):
        if isz(v):
            if v.sort() == I and not mentions(v, k): cand[v.get_id()] = v
        elif isinstance(v, (Seq, Mat, MatF)):
            if isinstance(v, Seq) and isz(v.n): walk(v.n)
        elif isinstance(v, Agg): [walk(x) for x in v.f]
        elif isinstance(v, En): [walk(x) for f in v.p.values() for x in f]
        elif isinstance(v, Sl): walk(v.len)
        elif isinstance(v, Native): [walk(x) for x in v.fields()]
    for v in s.store.values(): walk(v)
    cs = [c for c in cand.values() if not (z3.is_const(c) and any(isz(x.get('x')) and c.eq(x['x']) for x in S.cls.values()))]
    cs = [c for c in cs if not any(mentions(c, x['x']) for x in S.cls.values() if isz(x.get('x')))]
    for b in backs:
        g = [k < c for c in cs[:40]]
        for h in e.variants:
            f = h(S, s, b, backs)
            if f is not None: g.append(f)
        e.oblige(b, norm(Z(OR(*g))) if g else False, 'termination', where + ' comes to an end')

from engine import Fact, nested

def leaves(S, v, key=()):
    pass

def recur_axioms(S, st0, k):
    """value of the havocked leaves in iteration 0"""
    out = []
    return out + [a for c in S.cls.values() for a in c.get('init', [])]

def grow_head(S, s, c):
    s.axiom(EQ(c['cnt'](0), 0)); s.axiom(LE(0, c['cnt'](S.k)))
    q = c['v']; j = z3.Int('@g')
    g = AND(LE(0, j), LT(j, q.n))
    b = [IMP(LE(q.v0.n, j), AND(LE(0, grown_in(q, j, S.k)), LT(grown_in(q, j, S.k), S.k)))]
    if 'slot' in c: b.append(EQ(c['slot'](q.get(j).f[0]), j))
    s.facts = s.facts + (Fact(j, IMP(g, AND(*b)), 'grown'),)
def grow_facts(S, c, v, k, conds_sub):
    """what iteration v < k appended"""
    out = []; v0n = c['v'].v0.n; cnt = c['cnt']; r = AND(LE(0, v), LT(v, k))
    for cc, g in c['gs']:
        pos = cnt(v); b = []
        for ci, x in g:
            ci, x = subst(Agg(None, [ci, x]), [(S.k, v)]).f
            at = AND(EQ(c['it'](pos), v), deep_eq(c['item'](pos), x))
            if 'slot' in c: at = AND(at, EQ(c['slot'](x.f[0]), ADD(pos, v0n)))
            b.append(IMP(ci, at))
            pos = ADD(pos, ITE(ci, 1, 0))
        b += [LE(0, cnt(v)), EQ(cnt(v + 1), pos), LE(pos, cnt(k)), LE(cnt(v), cnt(k))]
        out.append(Fact(v, IMP(AND(r, conds_sub(cc, v)), AND(*b)), 'iter-grow'))
    return out
def prove_q(e, S, t, g, kk):
    """the quantified invariant holds in state t (after iteration k when kk = k + 1)"""
    r = e.check(list(t.forms()) + [z3.Not(Z(g))], t.facts, timeout=4000)
    return r == 'unsat'
def cpush_facts(S, c):
    """which iterations push, how many did before, and which one made element number j"""
    cnt, sel, pred, k0 = c['cnt'], c['sel'], OR(*[cc for cc, p in c['ps'] if p]), S.k
    s0 = lambda f, t: z3.substitute(Z(f), (k0, Z(t)))
    def facts(v, k):
        r = AND(LE(0, v), LT(v, k))
        return [Fact(v, IMP(r, AND(EQ(cnt(v + 1), z3.If(s0(pred, v), cnt(v) + 1, cnt(v))), LE(0, cnt(v)), LE(cnt(v), v), LE(cnt(v), cnt(k)))), 'count'),
                Fact(v, IMP(AND(r, s0(pred, v)), AND(EQ(sel(cnt(v)), v), LT(cnt(v), cnt(k)))), 'selected'),
                Fact(v, IMP(AND(LE(0, v), LT(v, cnt(k))), AND(LE(0, sel(v)), LT(sel(v), k), s0(pred, sel(v)), EQ(cnt(sel(v)), v))), 'select')]
    return facts
def same_counts(S, c, v):
    """loops that select by the same condition count alike: equal counting functions have equal values"""
    e = S.e; k = S.k; pred = Z(OR(*[cc for cc, p in c['ps'] if p])); out = []
    reg = e.__dict__.setdefault('counts', [])
    for cnt, sel, k2, pred2, pr in reg:
        if len(pr) != len(S.st0.params) or any(not a.eq(b) for a, b in zip(pr, S.st0.params)): continue
        w = z3.Int('@count'); a, b = z3.substitute(pred, (k, w)), z3.substitute(pred2, (k2, w))
        if not z3.simplify(a).eq(z3.simplify(b)) and e.check(list(S.st0.forms()) + [w >= 0, w < k, w < k2, a != b], S.st0.facts, timeout=3000) != 'unsat': continue
        out.append(Fact(v, IMP(AND(LE(0, v), LE(v, k), LE(v, k2)), EQ(c['cnt'](v), cnt(v))), 'same count'))
        out.append(Fact(v, IMP(AND(LE(0, v), LT(v, c['cnt'](k)), LT(v, cnt(k2))), EQ(c['sel'](v), sel(v))), 'same selection'))
        break
    else: reg.append((c['cnt'], c['sel'], k, pred, S.st0.params))
    return out
def items_of(S, st0, c, backs):
    newobjs = set()
    for b in backs: newobjs |= set(b.store) - set(st0.store)
    def mg(vals):
        v = vals[-1][1]
        for cc, x in vals[-2::-1]: v = merge(cc, x, v)
        if hasptr(v, newobjs): raise Unsupported('container of pointers to temporaries')
        return v
    if c['t'] == 'push': return [mg([(cc, p[r]) for cc, p in c['ps']]) for r in range(c['m'])]
    return mg([(cc, p[0]) for cc, p in c['ps'] if p])
def fill(S, s, backs, conds):
    """complete the widened containers with the values written in a generic iteration"""
    e = S.e; k = S.k
    newobjs = set()
    for b in backs: newobjs |= set(b.store) - set(S.st0.store)
    def mg(vals):
        v = vals[-1][1]
        for c, x in vals[-2::-1]: v = merge(c, x, v)
        if hasptr(v, newobjs): raise Unsupported('container of pointers to temporaries')
        return v
    for key, c in S.cls.items():
        t = c['t']
        if t == 'push':
            c['v'].items = [mg([(cc, p[r]) for cc, p in c['ps']]) for r in range(c['m'])]
        elif t == 'cpush':
            yes = [(cc, p[0]) for cc, p in c['ps'] if p]
            c['v'].items = mg(yes)
            cnt = c['cnt']
            c['facts'] = cpush_facts(S, c)
            c['init'] = [EQ(cnt(0), 0), LE(0, cnt(k)), LE(cnt(k), k)]
        elif t == 'elem':
            vals = []
            for cc, w in c['w']:
                vals.append((cc, w[-1][1] if w else c['v'].v0.get(ADD(c['v'].a, k))))
            c['v'].item = mg(vals); c['v']._c = {}
        elif t == 'row': c['v'].writes = c['w']
        elif t == 'key': c['fill'](c, mg)
        elif t in ('hF',) and 'news' in c and not c.get('sumok'):
            sumclass(S, key, c, conds)
        elif t in ('hI', 'hB') and 'news' in c and c.get('recur'):
            pass
def sumclass(S, key, c, conds):
    """x_{k+1} = x_k + t(k): record x as a running total"""
    x = c['x']; k = S.k; e = S.e
    terms = []
    for cc, n in c['news']:
        if not isinstance(n, F): return
        d = z3.simplify(ZR(n.v) - x, som=True)
        if mentions(d, x): return
        terms.append((cc, d, n.nan))
    t = terms[-1][1]; nan = terms[-1][2]
    for cc, d, nn in terms[-2::-1]:
        t = ITE(cc, d, t); nan = ITE(cc, nn, nan)
    c['sum'] = (k, t, nan)
    e.sums[x.decl().name()] = {'k': k, 'term': t, 'nan': nan, 'x': x, 'key': key, 'init': proj(S.st0.store[key[0]], key[1:])}

def houdini(S, st0, head, body, kill, s, backs):
    """candidate invariants on havocked leaves, kept when inductive"""
    e = S.e; k = S.k
    cand = []
    lens = {}
    def walk(v, d=0):
        if isinstance(v, Seq) and not isinstance(v, SeqL):
            if isz(v.n): lens[v.n.get_id()] = v.n
            return
        if isinstance(v, Agg): [walk(x, d + 1) for x in v.f]
        elif isinstance(v, Sl):
            if isz(v.len): lens[v.len.get_id()] = v.len
        elif isinstance(v, Native): [walk(x, d + 1) for x in v.fields()]
    for v in s.store.values(): walk(v)
    lens = [l for l in lens.values() if not mentions(l, k)]
    def leaf(key):
        def get(st):
            v = st.store[key[0]]
            return proj(v, key[1:])
        return get
    for key, c in S.cls.items():
        if key[0] in e.ghost or key[-1] == 'h': continue      # ghost state and names: the contract knows what holds of them
        g = leaf(key)
        if c['t'] == 'hI':
            cand.append(lambda st, g=g: LE(0, g(st)))
            for l in lens: cand.append(lambda st, g=g, l=l: LT(g(st), l))
        elif c['t'] == 'hF':
            cand.append(lambda st, g=g: NOT(g(st).nan))
            cand.append(lambda st, g=g: rle(Fraction(0), g(st).v))
    for f in e.houdini_extra:
        cand += f(S, st0, s)
    # initially true
    keep = []
    s00 = st0.fork()
    for c in cand:
        try: f = c(s00)
        except (Unsupported, KeyError, IndexError, AttributeError, TypeError): continue
        if f is True or (f is not False and e.check(list(st0.forms()) + [z3.Not(Z(f))], st0.facts, timeout=1500) == 'unsat'): keep.append(c)
    if not keep: return []
    # preserved
    while keep:
        h = head()
        for c in keep: h.axiom(c(h))
        ob = len(e.obls)
        outs = body(h.fork())
        del e.obls[ob:]
        bs = [o[1] for o in outs if o[0] == 'back']
        bad = []
        for c in keep:
            for b in bs:
                try: f = c(b)
                except Exception: f = False
                if f is True: continue
                if f is False or e.check(list(b.forms()) + [z3.Not(Z(f))], b.facts, timeout=2500) != 'unsat':
                    bad.append(c); break
        if not bad: return keep
        keep = [c for c in keep if c not in bad]
    return []
def proj(v, path):
    i = 0
    while i < len(path):
        p = path[i]
        if p == 'h' and isinstance(v, IdAgg): v = v.h
        elif isinstance(v, Agg): v = v.f[p]
        elif isinstance(v, Mat): v = v.cells[p]
        elif isinstance(v, SeqL): v = v.items[p]
        elif isinstance(v, En):
            if p == 'd': v = v.d
            else:
                i += 1; v = v.p[p][path[i]]
        elif isinstance(v, Ptr):
            a, b = path[i + 1], path[i + 2]; i += 2; v = v.path[a][b + 1]
        elif isinstance(v, CPtr): v = v.addr
        elif isinstance(v, Sl): v = v.start if p == 'start' else v.len
        elif isinstance(v, Native): v = v.fields()[p]
        else: raise Unsupported('leaf')
        i += 1
    return v
