"""Models of nalgebra, image, nalgebra-sparse operations (assumed contracts of dependencies)."""
import z3
from fractions import Fraction
from values import *
import models as M
from models import model, MODELS, It, deref, some, none, fconst, to_seq, to_iter, self_iter, SQRT, Native
I = z3.IntSort(); R = z3.RealSort()

class MView(Native):
    """rectangular view of a matrix object: element (i,j) is cell (i0+i, j0+j)"""
    def __init__(self, obj, path, r, c, i0, j0):
        self.obj = obj; self.path = tuple(path); self.r = r; self.c = c; self.i0 = i0; self.j0 = j0
    def ptr(self, i, j): return Ptr(self.obj, self.path + (('m', ADD(self.i0, i), ADD(self.j0, j)),))
    def fields(self): return (self.r, self.c, self.i0, self.j0)
    def rebuild(self, fs): return MView(self.obj, self.path, *fs)
    def key(self): return ('mview', self.obj, self.path)
    def __repr__(self): return f'MView({self.obj},{self.r}x{self.c}@{self.i0},{self.j0})'
M.MView = MView

def mat_of(ctx, st, v):
    while isinstance(v, Ptr): v = ctx.e.load(st, v.obj, v.path)
    if isinstance(v, (Mat, MatF, MView)): return v
    if isinstance(v, Choice): raise NeedFork([c for c, _ in v.alts])
    return None
def cell(ctx, st, m, i, j):
    if isinstance(m, MView):
        p = m.ptr(i, j); return ctx.e.load(st, p.obj, p.path)
    return m.at(i, j)
def build(ctx, st, r, c, f):
    """matrix r x c of f(i,j)"""
    r, c = num(r), num(c)
    if not isz(r) and not isz(c): return Mat(r, c, [f(i, j) for j in range(c) for i in range(r)])
    return MatF(r, c, f)
def mdot(ctx, st, a, b):
    h = ctx.e.models.get('hook:dot')
    if h:
        r = h(ctx, st, a, b)
        if r is not None: return r
    n = a.r * a.c if not isz(a.r) and not isz(a.c) else None
    if n is None: raise Unsupported('dot of dynamic vectors')
    r = fconst(0)
    for j in range(a.c):
        for i in range(a.r): r = fadd(r, fmul(cell(ctx, st, a, i, j), cell(ctx, st, b, i, j)))
    return r

def elementwise(op):
    def f(ctx, st, args):
        a, b = mat_of(ctx, st, args[0]), mat_of(ctx, st, args[1])
        if a is None or b is None: return NotImplemented
        if not (same(a.r, b.r) and same(a.c, b.c)): raise Unsupported('shape')
        return build(ctx, st, a.r, a.c, lambda i, j: op(cell(ctx, st, a, i, j), cell(ctx, st, b, i, j)))
    return f
def arith(name, op, matop):
    def f(ctx, st, args):
        x = [deref_all(ctx, st, a) for a in args]
        if all(isinstance(v, F) for v in x): return op(*x)
        if all(isinstance(v, int) or isz(v) for v in x):
            iop = {'Add': ADD, 'Sub': SUB, 'Mul': MUL}[name]
            v = iop(*x); lo, hi = ctx.e.irange(ctx.dty)
            if not ctx.panic(st, AND(LE(lo, v), LE(v, hi)), 'arithmetic overflow'): return []
            return v
        h = MODELS.get('arith:' + name)
        if h:
            r = h(ctx, st, x)
            if r is not None: return r
        return matop(ctx, st, args)
    return f
def deref_all(ctx, st, v):
    while isinstance(v, Ptr): v = ctx.e.load(st, v.obj, v.path)
    return v
MODELS['Add::add'] = arith('Add', fadd, elementwise(fadd))
MODELS['Sub::sub'] = arith('Sub', fsub, elementwise(fsub))
def _mulm(ctx, st, args):
    e = ctx.e
    x, y = [deref_all(ctx, st, a) for a in args]
    for s, m in ((x, y), (y, x)):
        if isinstance(s, F) and isinstance(m, (Mat, MatF, MView)):
            return build(ctx, st, m.r, m.c, lambda i, j: fmul(cell(ctx, st, m, i, j), s))
    if isinstance(x, Csr): return x.mul(ctx, st, y)
    if not isinstance(x, (Mat, MatF, MView)) or not isinstance(y, (Mat, MatF, MView)): return NotImplemented
    return matmul(ctx, st, x, y)
MODELS['Mul::mul'] = arith('Mul', fmul, _mulm)
def matmul(ctx, st, x, y):
    e = ctx.e
    if not isz(x.c) and not isz(y.r):
        if x.c != y.r: raise Unsupported('matrix product shape')
        def f(i, j):
            r = None
            for k in range(x.c):
                t = fmul(cell(ctx, st, x, i, k), cell(ctx, st, y, k, j)); r = t if r is None else fadd(r, t)
            return r if r is not None else fconst(0)
        return build(ctx, st, x.r, y.c, f)
    c = EQ(x.c, y.r)
    if not ctx.panic(st, norm(c) if isz(c) else c, 'matrix product shape'): return []
    # inner dimension unknown: entry (i,j) is the sum over k of x(i,k)*y(k,j)
    snap = st.fork()
    def f(i, j):
        return sumterm(e, snap, x.c, lambda k: fmul(cell(ctx, snap, x, i, k), cell(ctx, snap, y, k, j)))
    m = build(ctx, st, x.r, y.c, f); 
    if isinstance(m, MatF): m.origin = ('matmul', x, y)
    return m
def sumterm(e, st, n, item):
    """sum_{k<n} item(k) as a canonical term: equal bodies give equal terms.
    The body is abstracted over its free index; the sum is an uninterpreted function of the body's other atoms."""
    j = e.sumvar()
    it = item(j)
    v = ZR(it.v); nan = it.nan
    return F(sum_canon(e, j, v, n), False if nan is False else nan_any(e, j, nan, n))
def nan_any(e, j, nan, n):
    r = sum_canon(e, j, z3.If(Z(nan), z3.RealVal(1), z3.RealVal(0)), n)
    return r > 0
def sum_canon(e, j, v, n):
    """term for sum_{j<n} v: the skeleton of v (with j-independent index arguments abstracted) names the function"""
    v = z3.simplify(v, som=True)
    # maximal j-free subterms become arguments
    args = []; memo = {}
    def has(x, c={}):
        k = x.get_id()
        if k in memo: return memo[k]
        r = x.eq(j) or any(has(y) for y in x.children())
        memo[k] = r
        return r
    def skel(x):
        if z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x): return x.sexpr()
        if x.eq(j): return '@j'
        if not has(x):
            for i, a in enumerate(args):
                if a.eq(x): return f'@{i}'
            args.append(x); return f'@{len(args) - 1}'
        return '(' + x.decl().name() + ' ' + ' '.join(skel(y) for y in x.children()) + ')'
    s = skel(v)
    a = args + [Z(n)]
    table = e.sumnames
    key = (s, tuple(x.sort().name() for x in a))
    if key not in table: table[key] = f'SUM{len(table)}'
    return z3.Function(table[key], *[x.sort() for x in a], R)(*a)

@model('Neg::neg')
def _neg(ctx, st, args):
    x = deref_all(ctx, st, args[0])
    if isinstance(x, F): return fneg(x)
    m = mat_of(ctx, st, x)
    if m is None: return NotImplemented
    return build(ctx, st, m.r, m.c, lambda i, j: fneg(cell(ctx, st, m, i, j)))
def assign(op):
    def f(ctx, st, args):
        e = ctx.e; p = args[0]
        while isinstance(deref(ctx, st, p), Ptr): p = deref(ctx, st, p)
        x = deref(ctx, st, p); y = deref_all(ctx, st, args[1])
        if isinstance(x, F) and isinstance(y, F):
            e.store(st, p.obj, p.path, op(x, y)); return Agg(None, [])
        m = mat_of(ctx, st, x)
        if m is None: return NotImplemented
        if isinstance(y, F): v = build(ctx, st, m.r, m.c, lambda i, j: op(cell(ctx, st, m, i, j), y))
        else:
            b = mat_of(ctx, st, y)
            v = build(ctx, st, m.r, m.c, lambda i, j: op(cell(ctx, st, m, i, j), cell(ctx, st, b, i, j)))
        if isinstance(x, MView): raise Unsupported('assign through view')
        e.store(st, p.obj, p.path, v)
        return Agg(None, [])
    return f
MODELS['AddAssign::add_assign'] = assign(fadd); MODELS['SubAssign::sub_assign'] = assign(fsub)
MODELS['MulAssign::mul_assign'] = assign(fmul); MODELS['DivAssign::div_assign'] = assign(fdiv)
@model('Div::div')
def _div(ctx, st, args):
    x, y = [deref_all(ctx, st, a) for a in args]
    if isinstance(x, F) and isinstance(y, F): return fdiv(x, y)
    m = mat_of(ctx, st, x)
    if m is None or not isinstance(y, F): return NotImplemented
    return build(ctx, st, m.r, m.c, lambda i, j: fdiv(cell(ctx, st, m, i, j), y))

@model('Matrix::dot')
def _dot(ctx, st, args): return mdot(ctx, st, mat_of(ctx, st, args[0]), mat_of(ctx, st, args[1]))
@model('Matrix::norm_squared')
def _nsq(ctx, st, args):
    m = mat_of(ctx, st, args[0]); return mdot(ctx, st, m, m)
@model('Matrix::norm')
def _norm(ctx, st, args):
    m = mat_of(ctx, st, args[0]); d = mdot(ctx, st, m, m)
    if not isz(d.v): d = F(ZR(d.v), d.nan)
    return F(SQRT(z3.simplify(d.v, som=True)), d.nan)
@model('Matrix::cross')
def _cross(ctx, st, args):
    a, b = mat_of(ctx, st, args[0]), mat_of(ctx, st, args[1])
    A = lambda i: cell(ctx, st, a, i, 0); Bc = lambda i: cell(ctx, st, b, i, 0)
    f = lambda p, q: fsub(fmul(A(p), Bc(q)), fmul(A(q), Bc(p)))
    return Mat(3, 1, [f(1, 2), f(2, 0), f(0, 1)])
@model('Matrix::normalize_mut')
def _normalize(ctx, st, args):
    e = ctx.e; p = args[0]; m = mat_of(ctx, st, p)
    d = mdot(ctx, st, m, m)
    n = F(SQRT(z3.simplify(ZR(d.v), som=True)), d.nan)
    e.store(st, p.obj, p.path, build(ctx, st, m.r, m.c, lambda i, j: fdiv(m.at(i, j), n)))
    return n
@model('Matrix::normalize')
def _normalize2(ctx, st, args):
    m = mat_of(ctx, st, args[0]); d = mdot(ctx, st, m, m)
    n = F(SQRT(z3.simplify(ZR(d.v), som=True)), d.nan)
    return build(ctx, st, m.r, m.c, lambda i, j: fdiv(cell(ctx, st, m, i, j), n))
@model('Matrix::fill')
def _fill(ctx, st, args):
    p = args[0]; m = mat_of(ctx, st, p)
    if isinstance(m, MView): raise Unsupported('fill of view')
    ctx.e.store(st, p.obj, p.path, build(ctx, st, m.r, m.c, lambda i, j: args[1])); return Agg(None, [])
def dims(ctx, args, k):
    """dimensions of the result from its type, dynamic ones from the arguments"""
    e = ctx.e; r, c, _ = e.matdims(ctx.dty); rest = list(args)
    return r, c
@model('Matrix::new')
def _new(ctx, st, args):
    r, c = dims(ctx, args, 0)
    if r * c != len(args): raise Unsupported('Matrix::new')
    return Mat(r, c, [args[i * c + j] for j in range(c) for i in range(r)])
@model('Matrix::zeros')
def _zeros(ctx, st, args):
    r, c = dims(ctx, args, 0); a = list(args)
    if r is None: r = a.pop(0)
    if c is None: c = a.pop(0)
    z = fconst(0) if ctx.e.T[ctx.e.matdims(ctx.dty)[2]]['k'] == 'float' else 0
    return build(ctx, st, r, c, lambda i, j: z)
@model('Matrix::from_element', 'Matrix::repeat', 'Matrix::from_element_generic')
def _from_el(ctx, st, args):
    r, c = dims(ctx, args, 0); a = list(args); x = a.pop()
    if r is None: r = dimval(a[0])
    if c is None: c = dimval(a[-1])
    return build(ctx, st, r, c, lambda i, j: x)
def dimval(v):
    if isinstance(v, Agg) and len(v.f) == 1: return v.f[0]
    return v
def fill_from(ctx, st, q, rowmajor, r, c):
    """matrix from an item sequence"""
    n = MUL(r, c)
    ok = LE(n, q.n)
    if not ctx.panic(st, norm(ok) if isz(ok) else ok, 'too few items for the matrix'): return None
    q2 = flat2(q, c) if rowmajor else None
    def f(i, j):
        if rowmajor: return q2(i, j) if q2 else q.get(ADD(MUL(i, c), j))
        return q.get(ADD(MUL(j, r), i))
    return build(ctx, st, r, c, f)
def flat2(q, w):
    """item (row, column) of a flattened sequence of rows of width w"""
    if q.origin and q.origin[0] == 'flat' and not isz(w) and q.origin[2] == w: return lambda i, j: q.origin[1].get(i).get(j)
    return None
@model('Matrix::from_iterator', 'Matrix::from_iterator_generic', 'Matrix::from_row_iterator', 'Matrix::from_vec', 'Matrix::from_row_slice', 'Matrix::from_column_slice', 'Matrix::from_vec_generic')
def _from_it(ctx, st, args):
    r, c = dims(ctx, args, 0); a = list(args); src = a.pop()
    if r is None: r = dimval(a[0])
    if c is None: c = dimval(a[-1])
    row = '_row_' in ctx.name
    if isinstance(src, (Sl,)) or 'slice' in ctx.name:
        s = M.as_slice(ctx, st, src); b = ctx.e.load(st, s.obj, s.path) if s.obj[0] != 'C' else None
        if b is None:
            q = Seq(s.len, lambda i: ctx.e.load(st, s.obj, s.path + (('i', ADD(s.start, i)),)))
        elif not isz(num(s.len)): q = SeqL([b.get(ADD(s.start, i)) for i in range(num(s.len))])
        else: q = Seq(s.len, lambda i: b.get(ADD(s.start, i)))
        m = fill_from(ctx, st, q, row, r, c)
        return [] if m is None else m
    # only as many items as the matrix needs are taken
    res = []
    it = to_iter(ctx, st, src)
    if not isz(r) and not isz(c):
        n = M.ilen(ctx, st, it)
        cur = [(st, it, [])]
        for _ in range(r * c):
            nxt = []
            for s, i1, xs in cur:
                new = []
                for s2, i2, p, x in M.step(ctx, s, i1):
                    if p: new.append((s2, i2, xs + [deref_once(ctx, s2, x, ctx.e.matdims(ctx.dty)[2])]))
                    else: ctx.panic(s2, False, 'too few items for the matrix')
                nxt += M.mergeitems(ctx.e, s, new)
            cur = M.mergeitems(ctx.e, st, nxt)
        return [(s, Mat(r, c, xs if not row else [xs[i * c + j] for j in range(c) for i in range(r)])) for s, _, xs in cur]
    for s, q in to_seq(ctx, st, it):
        m = fill_from(ctx, s, q, row, r, c)
        if m is not None: res.append((s, m))
    return res
def deref_once(ctx, st, x, et): return x
@model('Matrix::nrows')
def _nrows(ctx, st, args): return mat_of(ctx, st, args[0]).r if mat_of(ctx, st, args[0]) is not None else deref(ctx, st, args[0]).r
@model('Matrix::ncols')
def _ncols(ctx, st, args): return mat_of(ctx, st, args[0]).c
@model('Matrix::len')
def _mlen(ctx, st, args):
    m = mat_of(ctx, st, args[0]); return MUL(m.r, m.c)
@model('Matrix::shape')
def _shape(ctx, st, args):
    m = mat_of(ctx, st, args[0]); return Agg(None, [m.r, m.c])
def view_of(ctx, st, p, r, c, i0, j0):
    v = deref(ctx, st, p) if isinstance(p, Ptr) else p
    while isinstance(v, Ptr): p = v; v = deref(ctx, st, p)
    if isinstance(v, MView): return MView(v.obj, v.path, r, c, ADD(v.i0, i0), ADD(v.j0, j0))
    if not isinstance(p, Ptr): p = Ptr(ctx.e.alloc(st, p, 'mtmp'))
    return MView(p.obj, p.path, r, c, i0, j0)
@model('Matrix::column', 'Matrix::column_mut')
def _column(ctx, st, args):
    m = mat_of(ctx, st, args[0])
    c = LT(args[1], m.c)
    if not ctx.panic(st, norm(c) if isz(c) else c, 'column index'): return []
    return view_of(ctx, st, args[0], m.r, 1, 0, args[1])
@model('Matrix::row', 'Matrix::row_mut')
def _row(ctx, st, args):
    m = mat_of(ctx, st, args[0])
    c = LT(args[1], m.r)
    if not ctx.panic(st, norm(c) if isz(c) else c, 'row index'): return []
    return view_of(ctx, st, args[0], 1, m.c, args[1], 0)
@model('Matrix::columns', 'Matrix::columns_mut')
def _columns(ctx, st, args):
    m = mat_of(ctx, st, args[0]); c = LE(ADD(args[1], args[2]), m.c)
    if not ctx.panic(st, norm(c) if isz(c) else c, 'columns'): return []
    return view_of(ctx, st, args[0], m.r, args[2], 0, args[1])
@model('Matrix::row_iter', 'Matrix::row_iter_mut')
def _row_iter(ctx, st, args):
    m = mat_of(ctx, st, args[0]); v = view_of(ctx, st, args[0], m.r, m.c, 0, 0)
    g = lambda i: MView(v.obj, v.path, 1, v.c, ADD(v.i0, i), v.j0)
    return It('seq', SeqL([g(i) for i in range(m.r)]) if not isz(num(m.r)) else Seq(m.r, g), 0)
@model('Matrix::column_iter', 'Matrix::column_iter_mut')
def _col_iter(ctx, st, args):
    m = mat_of(ctx, st, args[0]); v = view_of(ctx, st, args[0], m.r, m.c, 0, 0)
    g = lambda j: MView(v.obj, v.path, v.r, 1, v.i0, ADD(v.j0, j))
    return It('seq', SeqL([g(i) for i in range(m.c)]) if not isz(num(m.c)) else Seq(m.c, g), 0)
@model('Matrix::iter', 'Matrix::iter_mut')
def _miter(ctx, st, args):
    m = mat_of(ctx, st, args[0]); v = view_of(ctx, st, args[0], m.r, m.c, 0, 0)
    if not isz(num(m.r)) and not isz(num(m.c)):
        vv = mat_of(ctx, st, args[0])
        if isinstance(vv, Mat):
            return It('seq', SeqL([Ptr(v.obj, v.path + (('i', i),)) for i in range(m.r * m.c)]), 0)
        return It('seq', SeqL([v.ptr(i, j) for j in range(m.c) for i in range(m.r)]), 0)
    if not isz(num(m.c)) and m.c == 1: return It('seq', Seq(m.r, lambda i: v.ptr(i, 0)), 0)
    if not isz(num(m.r)) and m.r == 1: return It('seq', Seq(m.c, lambda i: v.ptr(0, i)), 0)
    raise Unsupported('iteration over a dynamic matrix')
@model('Matrix::min', 'Matrix::max')
def _mmin(ctx, st, args):
    m = mat_of(ctx, st, args[0]); xs = [cell(ctx, st, m, i, j) for j in range(m.c) for i in range(m.r)]
    r = xs[0]
    for x in xs[1:]:
        c = rlt(x.v, r.v) if ctx.name.endswith('min') else rlt(r.v, x.v)
        r = F(ITE(c, x.v, r.v), OR(r.nan, x.nan))
    return r
@model('Matrix::get', 'Matrix::get_mut')
def _mget(ctx, st, args):
    m = mat_of(ctx, st, args[0]); i = args[1]
    if isinstance(i, Agg): raise Unsupported('Matrix::get of a pair')
    n = MUL(m.r, m.c); c = LT(i, n); c = norm(c) if isz(c) else c
    p = args[0]
    while isinstance(deref(ctx, st, p), Ptr): p = deref(ctx, st, p)
    return [(s2, some(ctx, ctx.dty, Ptr(p.obj, p.path + (('i', i),))) if b else none(ctx.dty)) for s2, b in ctx.e.branch(st, [(c, True), (NOT(c), False)])]
@model('Matrix::transpose')
def _tr(ctx, st, args):
    m = mat_of(ctx, st, args[0]); return build(ctx, st, m.c, m.r, lambda i, j: cell(ctx, st, m, j, i))
@model('Matrix::determinant')
def _det(ctx, st, args):
    m = mat_of(ctx, st, args[0])
    h = ctx.e.models.get('hook:det')
    if h: return h(ctx, st, m)
    return det(m)
def det(m):
    n = m.r
    def d(rows, cols):
        if not rows: return fconst(1)
        r = fconst(0); i = rows[0]
        for k, j in enumerate(cols):
            t = fmul(m.at(i, j), d(rows[1:], cols[:k] + cols[k + 1:]))
            r = fadd(r, t) if k % 2 == 0 else fsub(r, t)
        return r
    return d(tuple(range(n)), tuple(range(n)))
class LU(Native):
    def __init__(self, m): self.m = m
    def fields(self): return (self.m,)
    def rebuild(self, fs): return LU(*fs)
    def key(self): return 'lu'
@model('Matrix::lu')
def _lu(ctx, st, args): return LU(mat_of(ctx, st, args[0]))
def inverse(ctx, st, m):
    """fresh matrix with the two-sided inverse laws (assumed of nalgebra's LU solve, up to rounding)"""
    e = ctx.e; n = m.r
    inv = Mat(n, n, [F(e.const(st, 'inv', R)) for _ in range(n * n)])
    e.invs.append((inv, m))
    st.axiom(AND(*inv_laws(inv, m)))
    return inv
def inv_laws(inv, m, left=True, right=True):
    n = m.r; out = []
    for a, b in ((inv, m), (m, inv)):
        for i in range(n):
            for j in range(n):
                s = fconst(0)
                for k in range(n): s = fadd(s, fmul(a.at(i, k), b.at(k, j)))
                out.append(req(s.v, Fraction(1 if i == j else 0)))
    return out
@model('LU::try_inverse')
def _tryinv(ctx, st, args):
    lu = deref_all(ctx, st, args[0]); e = ctx.e
    h = e.models.get('hook:inverse')
    if h: return h(ctx, st, lu.m)
    s1 = st.fork(); ok = e.const(s1, 'invertible', z3.BoolSort())
    s2 = s1.fork()
    s1.assume(ok); s2.assume(NOT(ok))
    return [(s1, some(ctx, ctx.dty, inverse(ctx, s1, lu.m))), (s2, none(ctx.dty))]
@model('LU::try_inverse_to')
def _tryinv_to(ctx, st, args):
    lu = deref_all(ctx, st, args[0]); e = ctx.e; p = args[1]
    s1 = st.fork(); ok = e.const(s1, 'invertible', z3.BoolSort())
    s2 = s1.fork()
    s1.assume(ok); s2.assume(NOT(ok))
    n = lu.m.r
    h = e.models.get('hook:inverse_to')
    inv = h(ctx, s1, lu.m) if h else inverse(ctx, s1, lu.m)
    e.store(s1, p.obj, p.path, inv)
    junk = Mat(n, n, [F(e.const(s2, 'junk', R), e.const(s2, 'junknan', z3.BoolSort())) for _ in range(n * n)])
    e.store(s2, p.obj, p.path, junk)
    return [(s1, True), (s2, False)]
@model('Matrix::mul_to')
def _mul_to(ctx, st, args):
    a, b = mat_of(ctx, st, args[0]), mat_of(ctx, st, args[1]); p = args[2]
    while isinstance(deref(ctx, st, p), Ptr): p = deref(ctx, st, p)
    ctx.e.store(st, p.obj, p.path, matmul(ctx, st, a, b)); return Agg(None, [])
@model('DimName::dim')
def _dim(ctx, st, args):
    for a in ctx.T['args']:
        if isinstance(a, int):
            T = ctx.e.T[a]
            if T['k'] == 'adt' and T['name'].endswith('Const') and T['args'] and isinstance(T['args'][0], dict): return T['args'][0]['const']
    raise Unsupported('dimension')
@model('DimName::name')
def _dimname(ctx, st, args): return Agg(ctx.dty, [])

# ================================================================= images
class Img(Native):
    """image buffer; data = sequence of w*h pixel values in row-major order"""
    def __init__(self, w, h, data, ty=None, raw=None):
        self.w = w; self.h = h; self.data = data; self.ty = ty
        self.raw = raw          # length of the container when it is not known to be exact
    def fields(self): return (self.w, self.h, self.data)
    def rebuild(self, fs): return Img(*fs, self.ty, self.raw)
    def key(self): return 'img'
    def field(self, p): raise Unsupported('image field')
    def lookup(self, e, st, p): return self.data.get(p[1])
    def update(self, e, st, p, v): return Img(self.w, self.h, self.data.set(p[1], v), self.ty, self.raw)
M.Img = Img
def channels(e, pt): return {'Rgb': 3, 'Luma': 1, 'Rgba': 4}[e.T[pt]['name'].split('::')[-1]]
def img_bytes(ctx, st, p, v):
    """the raw bytes behind an image buffer (Deref)"""
    e = ctx.e; n = channels(e, v.ty)
    total = v.raw if v.raw is not None else MUL(MUL(v.w, v.h), n)
    def g(i):
        if n == 1: return v.data.get(i).f[0].get(0)
        q, r = (i // n, i % n) if not isz(i) else (norm(Z(i) / n), norm(Z(i) % n))
        return v.data.get(q).f[0].get(r)
    return Sl(e.alloc(st, Seq(total, g, ('bytes-of', v)), 'bytes'), (), 0, total)
M.img_bytes = img_bytes
def pixval(ctx, ty, comps):
    """Rgb<u8>/Luma<u8> value"""
    return Agg(ty, [SeqL(comps)])
def pixty(e, t):
    """pixel type of an image-like type"""
    T = e.T[t]
    while T['k'] in ('ref', 'ptr'): t = T['to']; T = e.T[t]
    if T['k'] == 'adt' and T['name'].endswith('ImageBuffer'): return T['args'][0]
    raise Unsupported('pixel type of ' + T['s'])
def fresh_img(eng, st, t, name, idx):
    T = eng.T[t]
    w = eng.symbolic(st, u32(eng), name + '.w', idx); h = eng.symbolic(st, u32(eng), name + '.h', idx)
    pt = T['args'][0]
    return Img(w, h, Seq(MUL(w, h), lambda j: eng.symbolic(st, pt, name + '[]', tuple(idx) + (j,)), ('sym', name)), pt)
MODELS['fresh:ImageBuffer'] = fresh_img
def u32(e):
    for i, t in enumerate(e.T):
        if t['k'] == 'uint' and t['bits'] == 32: return i
@model('GenericImageView::width', 'ImageBuffer::width')
def _iw(ctx, st, args): return deref_all(ctx, st, args[0]).w
@model('GenericImageView::height', 'ImageBuffer::height')
def _ih(ctx, st, args): return deref_all(ctx, st, args[0]).h
@model('GenericImageView::dimensions', 'ImageBuffer::dimensions')
def _idim(ctx, st, args):
    v = deref_all(ctx, st, args[0]); return Agg(None, [v.w, v.h])
@model('GenericImageView::pixels')
def _ipix(ctx, st, args):
    v = deref_all(ctx, st, args[0])
    return It('seq', Seq(MUL(v.w, v.h), lambda i: Agg(None, [MODF(Z(i), Z(v.w)), DIVF(Z(i), Z(v.w)), v.data.get(i)]), ('pixels', v)), 0)
@model('ImageBuffer::from_pixel')
def _ifp(ctx, st, args):
    w, h, p = args
    return Img(w, h, Seq(MUL(w, h), lambda i: p), ctx.e.T[ctx.dty]['args'][0])
@model('ImageBuffer::new')
def _inew(ctx, st, args):
    w, h = args; pt = ctx.e.T[ctx.dty]['args'][0]
    n = {'Rgb': 3, 'Luma': 1, 'Rgba': 4}[ctx.e.T[pt]['name'].split('::')[-1]]
    return Img(w, h, Seq(MUL(w, h), lambda i: Agg(pt, [SeqL([0] * n)])), pt)
@model('ImageBuffer::from_vec', 'ImageBuffer::from_raw')
def _ifv(ctx, st, args):
    w, h, v = args; e = ctx.e
    pt = e.T[e.T[ctx.dty]['args'][0]]['args'][0]
    n = {'Rgb': 3, 'Luma': 1, 'Rgba': 4}[e.T[pt]['name'].split('::')[-1]]
    if isinstance(v, Sl):
        b = e.load(st, v.obj, v.path); vv = v
        v = Seq(vv.len, lambda i: b.get(ADD(vv.start, i)))
    c = LE(MUL(MUL(w, h), n), v.n); c = norm(c) if isz(c) else c
    res = []
    for s, ok in e.branch(st, [(c, True), (NOT(c), False)]):
        if ok:
            def g(i, v=v):
                return Agg(pt, [SeqL([v.get(ADD(MUL(i, n), k)) for k in range(n)])])
            res.append((s, some(ctx, ctx.dty, Img(w, h, Seq(MUL(w, h), g), pt, v.n))))
        else: res.append((s, none(ctx.dty)))
    return res
def canon_index(e, st, idx, n):
    """a simpler term provably equal to a row-major pixel index (i%w + w*(i/w) = i)"""
    if not isz(idx): return idx
    cands = []; stack = [idx]; seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in ('idiv', 'imod') and not any(x.arg(0).eq(c) for c in cands): cands.append(x.arg(0))
        stack.extend(x.children())
    for c in cands:
        if e.check(st.forms() + [idx != c], st.facts, timeout=2000) == 'unsat': return norm(c)
    return idx
@model('ImageBuffer::put_pixel', 'GenericImage::put_pixel')
def _iput(ctx, st, args):
    p, x, y, v = args; e = ctx.e
    im = deref(ctx, st, p)
    c = AND(LT(x, im.w), LT(y, im.h))
    if not ctx.panic(st, norm(c) if isz(c) else c, 'pixel position'): return []
    i = canon_index(e, st, norm_i(Zn(ADD(x, MUL(y, im.w)))) if isz(x) or isz(y) or isz(im.w) else x + y * im.w, None)
    e.store(st, p.obj, p.path, Img(im.w, im.h, im.data.set(i, v), im.ty, im.raw))
    return Agg(None, [])
@model('ImageBuffer::get_pixel', 'GenericImageView::get_pixel')
def _iget(ctx, st, args):
    p, x, y = args; e = ctx.e
    im = deref_all(ctx, st, p)
    c = AND(LT(x, im.w), LT(y, im.h))
    if not ctx.panic(st, norm(c) if isz(c) else c, 'pixel position'): return []
    i = canon_index(e, st, norm(Z(ADD(x, MUL(y, im.w)))), None)
    return im.data.get(i)

# ================================================================= sparse matrices
class Coo(Native):
    def __init__(self, r, c, ri, ci, v): self.r, self.c, self.ri, self.ci, self.v = r, c, ri, ci, v
    def fields(self): return (self.r, self.c, self.ri, self.ci, self.v)
    def rebuild(self, fs): return type(self)(*fs)
    def key(self): return 'coo'
class Csr(Coo):
    """sparse matrix given by its triplets (duplicates add up)"""
    def key(self): return 'csr'
    def mul(self, ctx, st, y):
        c = EQ(self.c, y.r)
        if not ctx.panic(st, norm(c) if isz(c) else c, 'sparse product shape'): return []
        s = self; e = ctx.e; snap = st.fork()
        if s.v.n is None: raise Unsupported('csr')
        def f(i, j):
            # sum over the triplets of row i
            return sumterm(e, snap, s.v.n, lambda t: F(z3.If(Z(EQ(s.ri.get(t), i)), ZR(fmul(s.v.get(t), cell(ctx, snap, y, s.ci.get(t), j)).v), z3.RealVal(0))))
        m = MatF(self.r, y.c, f, ('spmm', self, y))
        return m
def fresh_csr(eng, st, t, name, idx):
    r = eng.seqlen(name + '.nrows', idx); c = eng.seqlen(name + '.ncols', idx); n = eng.seqlen(name + '.nnz', idx)
    us = next(i for i, t in enumerate(eng.T) if t['k'] == 'uint' and t['bits'] == 64 and t['s'] == 'usize')
    mk = lambda nm, ty: Seq(n, lambda j: eng.symbolic(st, ty, name + nm, tuple(idx) + (j,)), ('sym', name + nm))
    fl = next(i for i, t in enumerate(eng.T) if t['k'] == 'float' and t['f'] == 'F64')
    return Csr(r, c, mk('.ri', us), mk('.ci', us), mk('.v', fl))
MODELS['fresh:CsrMatrix'] = fresh_csr
@model('CooMatrix::try_from_triplets')
def _coo(ctx, st, args):
    e = ctx.e; r, c, ri, ci, v = args
    j = z3.Int(freshname('t'))
    res = []
    # fails unless the three lists are equally long and every index is in range
    ok = AND(EQ(ri.n, ci.n), EQ(ri.n, v.n))
    s1 = st.fork(); s1.assume(ok) if ok is not True else None
    w = z3.Int(freshname('q'))
    from engine import Fact
    bodyf = lambda t: AND(LE(0, ri.get(t)), LT(ri.get(t), r), LE(0, ci.get(t)), LT(ci.get(t), c))
    s1.facts = s1.facts + (Fact(w, IMP(AND(LE(0, w), LT(w, ri.n)), bodyf(w)), 'triplets'),)
    out = [(s1, En(ctx.dty, 0, {0: (Coo(r, c, ri, ci, v),)}))]
    s2 = st.fork()
    bad = e.const(s2, 'badtrip', I)
    s2.assume(OR(NOT(ok), AND(LE(0, bad), LT(bad, ri.n), NOT(bodyf(bad)))))
    if e.feasible(s2): out.append((s2, En(ctx.dty, 1, {1: (Opaque('sparse error'),)})))
    return out

def into(ctx, st, v):
    e = ctx.e; T = e.T[ctx.dty]
    v = deref_all(ctx, st, v)
    if isinstance(v, Coo) and T['k'] == 'adt' and T['name'].endswith('CsrMatrix'): return Csr(v.r, v.c, v.ri, v.ci, v.v)
    return None
MODELS['into'] = into
