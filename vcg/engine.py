"""Deductive VC generation over the compiler's own MIR (exported on every run by /verif/driver).

Path-wise symbolic execution; loops whose exit is not decided concretely are summarised by an
inductive argument (widened state as a function of the iteration number, inferred invariants
checked by the solver); callees under contract are replaced by their contract."""
import json, os, re, struct, sys, time
import z3
from fractions import Fraction
from values import *
sys.setrecursionlimit(20000)

I = z3.IntSort(); B = z3.BoolSort(); R = z3.RealSort()

def short(name):
    """path of a callee without generic arguments, last two segments"""
    out = ''; depth = 0; i = 0
    # `<impl X<..>>` -> X ; `::<..>` -> nothing
    s = name
    s = re.sub(r'<impl ([\w:]*::)?(\[T\]|\w+)', lambda m: {'[T]': 'slice'}.get(m.group(2), m.group(2)) + '<', s)
    while i < len(s):
        c = s[i]
        if c == '<': depth += 1
        elif c == '>':
            if i and s[i-1] == '-': pass
            else: depth -= 1
        elif depth == 0: out += c
        i += 1
    segs = [x for x in out.split('::') if x and x.strip()]
    segs = [x.strip() for x in segs]
    return '::'.join(segs[-2:])

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d['types']; self.allocs = d['allocs']; self.sigs = d['sigs']; self.roots = d['roots']
        self.B = {b['key']: b for b in d['bodies']}
        self.ws = set(os.environ.get('VP_WS', 'vp_roots,image_palette_recoloring_c,image_palette_recoloring_cli,image_palette_recoloring,qhull_rs,qhull_sys').split(','))
        self._loops = {}
        self.tymethods = {}
        for t in self.T:
            if t['k'] == 'fndef' and t['args'] and isinstance(t['args'][0], int):
                self.tymethods.setdefault((short(t['name']), self.tystr(t['args'][0])), t)
    def tystr(self, t):
        return re.sub(r"'\w+", "'_", self.T[t]['s']).replace("<'_>", '').replace("'_, ", '').replace("'_ ", '')
    def find(self, pred):
        return [b for b in self.B.values() if pred(b)]
    def body_id(self, b):
        """stable identity of a function: file stem + Type::fn"""
        f = os.path.basename(b['file'] or '')
        return f"{f}|{short(b['name'])}"
    def root(self, name):
        for b in self.B.values():
            if b['crate'] == 'vp_roots' and b['name'].split('::')[-1] == name: return b
        raise Unsupported('no instantiation root ' + name)
    def loops(self, key):
        if key in self._loops: return self._loops[key]
        b = self.B[key]; n = len(b['blocks'])
        succ = [self.succ(bl['t']) for bl in b['blocks']]
        # dominators on the reachable part
        order = []; seen = set()
        def dfs(u):
            st = [(u, iter(succ[u]))]; seen.add(u)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(succ[y]))); break
                else:
                    order.append(x); st.pop()
        dfs(0)
        rpo = order[::-1]; idx = {x: i for i, x in enumerate(rpo)}
        pred = {x: [] for x in rpo}
        for x in rpo:
            for y in succ[x]: pred[y].append(x)
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for x in rpo[1:]:
                ps = [p for p in pred[x] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a, c = p, d
                    while a != c:
                        while idx[a] > idx[c]: a = idom[a]
                        while idx[c] > idx[a]: c = idom[c]
                    d = a
                if idom.get(x) != d: idom[x] = d; ch = True
        def dom(a, x):
            while True:
                if x == a: return True
                if x == 0: return False
                x = idom[x]
        L = {}
        for x in rpo:
            for y in succ[x]:
                if dom(y, x):
                    s = L.setdefault(y, {y}); work = [x]
                    while work:
                        z = work.pop()
                        if z in s: continue
                        s.add(z); work += pred[z]
        self._loops[key] = L
        return L
    def succ(self, t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        return []

class State:
    __slots__ = ('store', 'pc', 'ax', 'facts', 'params', 'ev', 'chosen', 'notes')
    def __init__(self):
        self.store = {}; self.pc = (); self.ax = (); self.facts = (); self.params = (); self.ev = (); self.chosen = frozenset(); self.notes = {}
    def fork(self):
        s = State()
        s.store = dict(self.store); s.pc = self.pc; s.ax = self.ax; s.facts = self.facts
        s.params = self.params; s.ev = self.ev; s.chosen = self.chosen; s.notes = self.notes
        return s
    def assume(self, c):
        """path condition"""
        if c is True: return self
        self.pc = self.pc + (Z(c),)
        if isz(c): self.chosen = self.chosen | {c.get_id()}
        return self
    def axiom(self, c):
        if c is True: return self
        self.ax = self.ax + (Z(c),)
        return self
    def forms(self): return list(self.pc) + list(self.ax)

class Fact:
    """for all indices v: body (v a z3 Int constant)"""
    def __init__(self, v, body, name=''):
        self.v = v; self.body = Z(body); self.name = name
    def at(self, t): return z3.substitute(self.body, (self.v, Z(t)))
    def all(self):
        q = getattr(self, 'q', None)
        if q is None: q = self.q = z3.ForAll(self.vs, self.full) if isinstance(self, FactN) else z3.ForAll([self.v], self.body)
        return q
    def guarded(self, c): return Fact(self.v, IMP(c, self.body), self.name)
    def sub(self, a, b): return Fact(self.v, z3.substitute(self.body, (a, b)), self.name)
class FactN:
    """for all indices vs: body; only the solver's own matching uses it"""
    def __init__(self, vs, body, name='nested'):
        self.vs = list(vs); self.v = self.vs[-1]; self.body = z3.BoolVal(True); self.full = Z(body); self.name = name
    def at(self, t): return z3.BoolVal(True)
    all = Fact.all
    def guarded(self, c): return FactN(self.vs, IMP(c, self.full), self.name)
    def sub(self, a, b): return FactN(self.vs, z3.substitute(self.full, (a, b)), self.name)
def nested(v, rng, f):
    """for all v in range: f, itself a fact"""
    if isinstance(f, FactN): return FactN([v] + f.vs, IMP(rng, f.full))
    return FactN([v, f.v], IMP(rng, f.body))

class Obl:
    def __init__(self, name, forms, facts, goal, kind, where):
        self.name = name; self.forms = forms; self.facts = facts; self.goal = goal; self.kind = kind; self.where = where
        self.status = None; self.time = 0.0; self.model = None

class Frame:
    def __init__(self, body, fid):
        self.b = body; self.fid = fid; self.regions = []

class Region:
    def __init__(self, header, blocks):
        self.h = header; self.blocks = blocks; self.concrete = None      # is its end decided without symbols?

class Engine:
    def __init__(self, prog, contracts=None, models=None, merge_calls=False, timeout=20000):
        self.p = prog; self.T = prog.T
        self.contracts = contracts or {}
        import models as M
        self.models = dict(M.MODELS); self.models.update(models or {})
        self.obls = []; self._obj = 0; self.timeout = timeout
        self.declax = {}      # decl name -> fn(args)-> formula   (triggered axioms)
        self.inlined = {}; self.used_contracts = {}; self.used_models = {}
        self.feas_time = 0.0; self.nfeas = 0; self.depth = 0
        self.frames = []
        self.merge_calls = merge_calls
        self.assumptions = set()
        self.houdini_extra = []; self.quantified = []; self.ghost = set()
        self.deadline = None
        self.max_states = 4000
        self.ptrdata = {}
        self.nodes = {}; self.declinst = {}; self.factinst = {}
        self.sums = {}; self.sumnames = {}; self.invs = []; self.variants = None; self.innext = -1; self.decided = False
        M.setup(self)
    def sumvar(self): return z3.Int('@sum')
    # ------------------------------------------------------------ names / objects
    def alloc(self, st, val, hint='o'):
        self._obj += 1
        o = (hint, self._obj)
        st.store[o] = val
        return o
    def const(self, st, base, sort):
        n = freshname(base)
        if st.params:
            return z3.Function(n, *([I] * len(st.params)), sort)(*st.params)
        return z3.Const(n, sort)
    # ------------------------------------------------------------ fresh values of a type
    def tykind(self, t):
        T = self.T[t]
        return T
    def adtname(self, t):
        T = self.T[t]
        return T['name'].split('::')[-1] if T['k'] == 'adt' else None
    def matdims(self, t):
        """(rows, cols, elem type) for a statically sized nalgebra matrix type"""
        T = self.T[t]
        if T['k'] != 'adt' or T['name'].split('::')[-1] != 'Matrix': return None
        def dim(a):
            X = self.T[a]
            if X['k'] == 'adt' and X['name'].endswith('Const') and X['args'] and isinstance(X['args'][0], dict):
                return X['args'][0].get('const')
            return None
        a = T['args']
        return dim(a[1]), dim(a[2]), a[0]
    def symbolic(self, st, t, name, idx=None):
        """arbitrary value of type t whose leaves are functions of idx"""
        idx = tuple(idx if idx is not None else st.params)
        T = self.T[t]; k = T['k']
        def leaf(sort, rng=None):
            if idx:
                f = z3.Function(name, *([I] * len(idx)), sort)
                r = f(*[Z(x) for x in idx])
            else: r = z3.Const(name, sort)
            if rng: self.declax[name] = lambda e, rng=rng: AND(LE(rng[0], e), LE(e, rng[1]))
            return r
        if k == 'uint': return leaf(I, (0, 2 ** T['bits'] - 1))
        if k == 'int': return leaf(I, (-2 ** (T['bits'] - 1), 2 ** (T['bits'] - 1) - 1))
        if k == 'char': return leaf(I, (0, 0x10ffff))
        if k == 'bool': return leaf(B)
        if k == 'float': return F(leaf(R))
        if k == 'tuple': return Agg(t, [self.symbolic(st, e, f'{name}.{i}', idx) for i, e in enumerate(T['elems'])])
        if k == 'array': return SeqL([self.symbolic(st, T['elem'], f'{name}[{i}]', idx) for i in range(T['len'])])
        if k == 'closure' or k == 'fndef': return FnVal(t)
        if k in ('ref', 'ptr'):
            to = self.T[T['to']]
            if to['k'] in ('slice', 'str'):
                et = to['elem'] if to['k'] == 'slice' else self.u8()
                return Sl(self.alloc(st, self.symseq(st, et, name, idx), name), (), 0, self.seqlen(name, idx))
            return Ptr(self.alloc(st, self.symbolic(st, T['to'], name, idx), name))
        if k == 'adt':
            n = T['name'].split('::')[-1]
            if n == 'Matrix':
                r, c, e = self.matdims(t)
                if r is not None and c is not None:
                    return Mat(r, c, [self.symbolic(st, e, f'{name}.{i}', idx) for i in range(r * c)])
                R_ = r if r is not None else self.seqlen(name + '.nrows', idx)
                C_ = c if c is not None else self.seqlen(name + '.ncols', idx)
                return MatF(R_, C_, lambda i, j: self.symbolic(st, e, name + '.m', idx + (i, j)))
            if n == 'Vec': return self.symseq(st, T['args'][0], name, idx)
            if n == 'Box':
                to = self.T[T['args'][0]]
                if to['k'] == 'slice': return self.symseq(st, to['elem'], name, idx)
                return Agg(t, [self.symbolic(st, T['args'][0], name, idx)])
            if n == 'String': return self.symseq(st, self.u8(), name, idx)
            if n in ('PhantomData',): return Agg(t, [])
            h = self.models.get('fresh:' + n)
            if h:
                r = h(self, st, t, name, idx)
                if r is not None: return r
            if T['akind'] == 'Enum':
                d = leaf(I, (0, len(T['variants']) - 1))
                return En(t, d, {i: tuple(self.symbolic(st, f[1], f'{name}.{v["name"]}.{f[0]}', idx) for f in v['fields']) for i, v in enumerate(T['variants'])})
            if T['akind'] == 'Struct':
                return Agg(t, [self.symbolic(st, f[1], f'{name}.{f[0]}', idx) for f in T['variants'][0]['fields']])
        return Opaque(name, idx)
    def u8(self):
        for i, t in enumerate(self.T):
            if t['k'] == 'uint' and t['bits'] == 8: return i
    def seqlen(self, name, idx):
        nm = name + '.len'
        self.declax[nm] = lambda e: AND(LE(0, e), LE(e, 2 ** 60))
        return z3.Function(nm, *([I] * len(idx)), I)(*[Z(x) for x in idx]) if idx else z3.Const(nm, I)
    def symseq(self, st, et, name, idx=()):
        idx = tuple(idx)
        return Seq(self.seqlen(name, idx), lambda j: self.symbolic(st, et, name + '[]', idx + (j,)), ('sym', name))
    # ------------------------------------------------------------ solver
    def node(self, x):
        """(expr, is uninterpreted application, children ids, integer argument ids), kept so that ids stay valid"""
        i = x.get_id()
        r = self.nodes.get(i)
        if r is None:
            if z3.is_quantifier(x) or not z3.is_app(x): r = (x, False, (), ())
            else:
                ch = x.children(); uf = x.decl().kind() == z3.Z3_OP_UNINTERPRETED
                for c in ch: self.node(c)
                r = (x, uf, tuple(c.get_id() for c in ch), tuple(c.get_id() for c in ch if uf and c.sort() == I))
            self.nodes[i] = r
        return r
    def instantiate(self, forms, facts, rounds=3, maxterms=60):
        out = list(forms); done = set(); nodes = self.nodes
        visited = set(); terms = {}; apps = []
        def walk(e):
            self.node(e)
            stack = [e.get_id()]
            while stack:
                i = stack.pop()
                if i in visited: continue
                visited.add(i)
                x, uf, ch, ia = nodes[i]
                if uf:
                    apps.append(i)
                    for a in ia:
                        if a not in terms: terms[a] = nodes[a][0]
                stack.extend(ch)
        for f in out: walk(f)
        ia = 0
        for _ in range(rounds):
            new = []
            while ia < len(apps):
                i = apps[ia]; ia += 1
                if i not in self.declinst:
                    x = nodes[i][0]; h = self.declax.get(x.decl().name())
                    if h:
                        r = h(x); self.declinst[i] = None if r is True else Z(r)
                r = self.declinst.get(i)
                if r is not None: new.append(r)
            for tid, t in list(terms.items())[:maxterms]:
                for fct in facts:
                    key = (id(fct), tid)
                    if key in done: continue
                    done.add(key)
                    r = self.factinst.get(key)
                    if r is None or r[0] is not fct: r = self.factinst[key] = (fct, fct.at(t))
                    new.append(r[1])
            if not new: break
            for f in new: walk(f)
            out += new
        return out
    def matched(self, forms, facts, timeout=2000):
        """the facts as quantifiers, instantiated by the solver's own matching: can only answer unsat"""
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', timeout); s.set('mbqi', False)
        s.add(*self.instantiate([Z(f) for f in forms], ())); s.add(*[f.all() for f in facts if hasattr(f, 'all')])
        r = s.check() == z3.unsat
        self.nfeas += 1; self.feas_time += time.time() - t0
        return r
    def check(self, forms, facts=(), timeout=None, model=False, rounds=3):
        if not model and facts and self.matched(forms, facts, min(timeout or 2000, 2000 if len(facts) > 12 else 150)): return 'unsat'
        t0 = time.time()
        fs = self.instantiate([Z(f) for f in forms], facts, rounds)
        s = z3.Solver(); s.set('timeout', timeout or self.timeout)
        s.add(*fs)
        r = s.check()
        self.nfeas += 1; self.feas_time += time.time() - t0
        if model: return str(r), (s.model() if r == z3.sat else None)
        return str(r)
    def feasible(self, st, c=None):
        if c is False: return False
        forms = st.forms() + ([Z(c)] if c is not None and c is not True else [])
        if not forms: return True
        facts = light(st.facts) if len(st.facts) > 10 else st.facts
        return self.check(forms, facts, timeout=self.ftimeout if hasattr(self, 'ftimeout') else 700, rounds=getattr(self, 'frounds', 3)) != 'unsat'
    def oblige(self, st, goal, kind, where):
        if goal is True:
            self.obls.append(Obl(where, [], (), True, kind, where)); self.obls[-1].status = 'proved'
            return
        self.obls.append(Obl(where, st.forms(), st.facts, Z(goal), kind, where))
    def discharge(self, o, timeout=None):
        if o.status: return o.status
        t0 = time.time()
        try:
            o.status, o.model, o.backend = prove(self, o.forms, o.facts, o.goal, timeout or self.timeout)
        except Unsupported as e:
            o.status = 'unknown'
        o.time = time.time() - t0
        return o.status
    # ------------------------------------------------------------ places
    def resolve(self, st, fr, place):
        """-> ('p', obj, path) or ('s', Sl)"""
        obj = ('L', fr.fid, place[0]); path = (); sl = None
        for e in place[1]:
            k = e[0]
            if k == 'deref':
                v = self.load(st, obj, path)
                if isinstance(v, Ptr): obj, path, sl = v.obj, v.path, None
                elif isinstance(v, Sl): obj, path, sl = v.obj, v.path, v
                elif isinstance(v, CPtr): obj, path, sl = ('C', v.ty, v.addr), (), None
                elif isinstance(v, (Seq,)): sl = None            # Box<[T]>
                elif isinstance(v, Agg): path = path + (0,)      # Box<T>
                elif isinstance(v, Opaque):
                    obj, path = ('opq', v.name, v.args), ()
                    if obj not in st.store: st.store[obj] = Opaque(v.name + '.*', v.args)
                else: raise Unsupported(f'deref of {type(v).__name__}')
            elif k == 'field': path = path + (e[1],)
            elif k == 'downcast': path = path + (('v', e[1]),)
            elif k == 'index':
                i = self.load(st, ('L', fr.fid, e[1]), ())
                if sl is not None: i = ADD(sl.start, i)
                path = path + (('i', i),); sl = None
            elif k == 'cindex':
                if sl is not None:
                    i = ADD(sl.start, e[1]) if not e[3] else SUB(ADD(sl.start, sl.len), e[1])
                else:
                    i = e[1] if not e[3] else SUB(self.load(st, obj, path).n, e[1])
                path = path + (('i', i),); sl = None
            elif k == 'subslice':
                v = sl
                n = v.len if v is not None else self.load(st, obj, path).n
                s0 = v.start if v is not None else 0
                fr_, to = e[1], e[2]
                ln = SUB(SUB(n, to), fr_) if e[3] else to - fr_
                sl = Sl(obj, path, ADD(s0, fr_), ln)
            elif k == 'cast': pass
            else: raise Unsupported('projection ' + k)
        return obj, path, sl
    def pick(self, st, v):
        if isinstance(v, Choice):
            for c, x in v.alts:
                if c is True or (isz(c) and c.get_id() in st.chosen): return self.pick(st, x)
            raise NeedFork([c for c, _ in v.alts])
        return v
    def load(self, st, obj, path):
        if obj[0] == 'C': return self.models['cload'](self, st, obj, path)
        if obj not in st.store: raise Unsupported(f'read of dead object {obj}')
        v = st.store[obj]
        for n, p in enumerate(path):
            v = self.pick(st, v)
            if p == 0 and isinstance(p, int):
                # the pointer inside a boxed slice
                if isinstance(v, Seq) and not isinstance(v, SeqL): v = Sl(obj, path[:n], 0, v.n); continue
                if isinstance(v, (Sl, Ptr)): continue
            v = self.proj(st, v, p)
        return self.pick(st, v)
    def proj(self, st, v, p):
        if isinstance(p, int):
            if isinstance(v, Agg): return v.f[p]
            if isinstance(v, Mat): return v.cells[p]
            if isinstance(v, SeqL): return v.items[p]
            if isinstance(v, tuple): return v[p]
            if isinstance(v, Opaque): return Opaque(v.name + '.' + str(p), v.args)
            if isinstance(v, Native) and hasattr(v, 'field'): return v.field(p)
            raise Unsupported(f'field {p} of {type(v).__name__}')
        if p[0] == 'v':
            if isinstance(v, En):
                if p[1] not in v.p: raise Unsupported(f'variant {p[1]} of {v}')
                return v.p[p[1]]
            raise Unsupported(f'downcast of {type(v).__name__}')
        if p[0] == 'i':
            if isinstance(v, (Seq, Mat)): return v.get(p[1])
            if isinstance(v, Native) and hasattr(v, 'index'): return v.index(p[1])
            raise Unsupported(f'index into {type(v).__name__}')
        if p[0] == 'm':
            if isinstance(v, (Mat, MatF)): return v.at(p[1], p[2])
        if p[0] == 'key':
            return v.lookup(self, st, p)
        raise Unsupported(f'projection {p} of {type(v).__name__}')
    def store(self, st, obj, path, val):
        if obj[0] == 'C': return self.models['cstore'](self, st, obj, path, val)
        if not path:
            st.store[obj] = val; return
        if obj not in st.store: raise Unsupported(f'write to dead object {obj}')
        st.store[obj] = self.setp(st, st.store[obj], path, val)
    def setp(self, st, v, path, val):
        if not path: return val
        v = self.pick(st, v)
        p, rest = path[0], path[1:]
        if isinstance(p, int):
            if isinstance(v, Agg):
                l = list(v.f); l[p] = self.setp(st, l[p], rest, val); return Agg(v.ty, l)
            if isinstance(v, Mat):
                return v.set(p, self.setp(st, v.cells[p], rest, val))
            if isinstance(v, tuple):
                l = list(v); l[p] = self.setp(st, l[p], rest, val); return tuple(l)
            if isinstance(v, Undef): raise Unsupported('field write to uninitialised value')
            raise Unsupported(f'field write to {type(v).__name__}')
        if p[0] == 'v':
            d = dict(v.p); d[p[1]] = self.setp(st, v.p.get(p[1], ()), rest, val); return En(v.ty, v.d, d)
        if p[0] == 'i':
            if isinstance(v, (Seq, Mat)):
                return v.set(p[1], val if not rest else self.setp(st, v.get(p[1]), rest, val))
            if isinstance(v, Native) and hasattr(v, 'setindex'): return v.setindex(p[1], val if not rest else self.setp(st, v.index(p[1]), rest, val))
        if p[0] == 'm':
            if isinstance(v, Mat):
                return v.set(ADD(MUL(p[2], v.r), p[1]), val)
            if isinstance(v, MatF): return MatSt(v, p[1], p[2], val if not rest else self.setp(st, v.at(p[1], p[2]), rest, val))
        if p[0] == 'key':
            return v.update(self, st, p, val if not rest else self.setp(st, v.lookup(self, st, p), rest, val))
        raise Unsupported(f'write {p} of {type(v).__name__}')
    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if 'copy' in o or 'move' in o:
            pl = o.get('copy') or o.get('move')
            obj, path, sl = self.resolve(st, fr, pl)
            if sl is not None and pl[1] and pl[1][-1][0] in ('deref', 'subslice'): raise Unsupported('unsized copy')
            v = self.load(st, obj, path)
            if isinstance(v, Undef): raise Unsupported(f'read of uninitialised local {pl}')
            if 'copy' in o and pl[1] and isinstance(v, (Seq, Agg)):
                # the compiler copies a box only to dereference it: the copy stands for the pointer
                bt = self.T[self.opty(fr, o)]
                if bt['k'] == 'adt' and bt['name'].endswith('::Box'):
                    return Sl(obj, path, 0, v.n) if isinstance(v, Seq) else Ptr(obj, path + (0,))
            return v
        if 'const' in o: return self.constant(st, o['const'])
        if 'rtcheck' in o: return False
        raise Unsupported('operand')
    def constant(self, st, c):
        t = c['ty']; T = self.T[t]
        if c.get('zst'):
            if T['k'] in ('fndef', 'closure'): return FnVal(t) if T['k'] == 'fndef' else Agg(t, [])
            if T['k'] == 'adt': return self.models['zst'](self, t) if 'zst' in self.models else Agg(t, [])
            if T['k'] == 'array': return SeqL([])
            return Agg(t, [])
        if 'usize' in c: return c['usize']
        if 'alloc' in c: return self.decode(st, t, c['alloc'], 0)
        if 'uneval' in c:
            raise Unsupported('unevaluated constant ' + c['uneval'])
        raise Unsupported('constant')
    def size(self, t):
        T = self.T[t]; k = T['k']
        if k in ('uint', 'int'): return T['bits'] // 8
        if k == 'float': return int(T['f'][1:]) // 8
        if k == 'bool': return 1
        if k == 'char': return 4
        if k in ('ref', 'ptr'): return 16 if self.T[T['to']]['k'] in ('slice', 'str', 'dyn') else 8
        if k == 'array': return T['len'] * self.size(T['elem'])
        if k == 'tuple': return sum(self.size(e) for e in T['elems']) if T['elems'] else 0
        if k == 'adt':
            d = self.matdims(t)
            if d and d[0] is not None and d[1] is not None: return d[0] * d[1] * self.size(d[2])
            if T['akind'] == 'Struct':
                fs = [f[1] for f in T['variants'][0]['fields']]
                return sum(self.size(f) for f in fs)   # homogeneous structs only
        raise Unsupported('size of ' + T['s'])
    def decode(self, st, t, a, off):
        T = self.T[t]; k = T['k']
        def raw(n):
            h = a['bytes'][2 * off:2 * (off + n)]
            if '_' in h: raise Unsupported('uninit constant')
            return bytes.fromhex(h)
        if k == 'uint': return int.from_bytes(raw(T['bits'] // 8), 'little')
        if k == 'int': return int.from_bytes(raw(T['bits'] // 8), 'little', signed=True)
        if k == 'char': return int.from_bytes(raw(4), 'little')
        if k == 'bool': return raw(1)[0] == 1
        if k == 'float':
            v = struct.unpack('<d' if T['f'] == 'F64' else '<f', raw(8 if T['f'] == 'F64' else 4))[0]
            if v != v: return NAN
            if v in (float('inf'), float('-inf')): return F(Fraction(10) ** 400 * (1 if v > 0 else -1))
            return F(Fraction(v))
        if k == 'array':
            s = self.size(T['elem'])
            return SeqL([self.decode(st, T['elem'], a, off + i * s) for i in range(T['len'])])
        if k in ('ref', 'ptr'):
            to = self.T[T['to']]
            pv = [p for p in a['prov'] if p[0] == off]
            if not pv:
                if k == 'ptr': return CPtr('raw', int.from_bytes(raw(8), 'little'))
                raise Unsupported('reference without provenance')
            g = self.p.allocs[pv[0][1]]
            if 'mem' not in g: return Opaque('static:' + str(g))
            addend = int.from_bytes(raw(8), 'little')
            if to['k'] in ('slice', 'str'):
                off2 = off + 8
                n = int.from_bytes(bytes.fromhex(a['bytes'][2 * off2:2 * off2 + 16]), 'little')
                et = to['elem'] if to['k'] == 'slice' else self.u8()
                s = self.size(et)
                v = SeqL([self.decode(st, et, g['mem'], addend + i * s) for i in range(n)])
                return Sl(self.alloc(st, v, 'const'), (), 0, n)
            return Ptr(self.alloc(st, self.decode(st, T['to'], g['mem'], addend), 'const'))
        if k == 'tuple':
            if not T['elems']: return Agg(t, [])
            if len({self.T[e]['s'] for e in T['elems']}) == 1:
                s = self.size(T['elems'][0])
                return Agg(t, [self.decode(st, e, a, off + i * s) for i, e in enumerate(T['elems'])])
        if k == 'adt':
            d = self.matdims(t)
            if d and d[0] is not None and d[1] is not None:
                s = self.size(d[2])
                return Mat(d[0], d[1], [self.decode(st, d[2], a, off + i * s) for i in range(d[0] * d[1])])
            if T['akind'] == 'Struct':
                fs = T['variants'][0]['fields']
                if len(fs) == 1: return Agg(t, [self.decode(st, fs[0][1], a, off)])
                if not fs: return Agg(t, [])
            n = len(a['bytes']) // 2
            if T['akind'] == 'Enum' and off == 0 and all(not v['fields'] for v in T['variants']):
                d = int.from_bytes(raw(n), 'little')
                for i, v in enumerate(T['variants']):
                    if int(v['discr']) & (2 ** (8 * n) - 1) == d: return En(t, i, {i: ()})
        return Opaque('const:' + T['s'] + ':' + a['bytes'])
    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k in ('ref', 'addrof'):
            obj, path, sl = self.resolve(st, fr, r[2])
            if sl is not None: return sl
            if obj[0] == 'C': return CPtr('field', ('C', obj, path)) if path else CPtr(obj[1], obj[2])
            if obj[0] == 'opq': return Opaque(obj[1], obj[2]) if not path else Ptr(obj, path)
            v = self.T[dty]
            if v['k'] in ('ref', 'ptr') and self.T[v['to']]['k'] in ('slice', 'str'):
                return Sl(obj, path, 0, self.load(st, obj, path).n)
            return Ptr(obj, path)
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]; ak = r[1]
            if ak[0] == 'array': return SeqL(ops)
            if ak[0] == 'tuple': return Agg(None, ops)
            if ak[0] == 'closure': return Agg(ak[1], ops)
            if ak[0] == 'adt':
                T = self.T[ak[1]]
                if T['akind'] == 'Enum': return En(ak[1], ak[2], {ak[2]: tuple(ops)})
                return Agg(ak[1], ops)
            if ak[0] == 'rawptr':
                p, m = ops
                if isinstance(p, Ptr) and p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'i':
                    return Sl(p.obj, p.path[:-1], p.path[-1][1], m)
                if isinstance(p, Sl): return Sl(p.obj, p.path, p.start, m)
                if isinstance(p, CPtr): return self.models['cslice'](self, st, p, m)
            raise Unsupported('aggregate ' + str(ak))
        if k == 'bin': return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.opty(fr, r[2]))
        if k == 'cbin':
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3]); t = self.opty(fr, r[2])
            lo, hi = self.irange(t)
            v = {'Add': ADD, 'Sub': SUB, 'Mul': MUL}[r[1]](a, b)
            ov = OR(LT(v, lo), LT(hi, v))
            return Agg(None, [v, norm(ov) if isz(ov) else ov])
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if isinstance(v, bool) or z3.is_bool(v): return NOT(v)
                lo, hi = self.irange(self.opty(fr, r[2]))
                return SUB(hi, v) if lo == 0 else SUB(-1, v)
            if r[1] == 'Neg':
                return fneg(v) if isinstance(v, F) else SUB(0, v)
            if r[1] == 'PtrMetadata':
                if isinstance(v, Sl): return v.len
                if isinstance(v, Ptr): return Agg(None, [])
            raise Unsupported('unary ' + r[1])
        if k == 'len':
            obj, path, sl = self.resolve(st, fr, r[1])
            return sl.len if sl is not None else self.load(st, obj, path).n
        if k == 'discr':
            obj, path, sl = self.resolve(st, fr, r[1])
            v = self.load(st, obj, path)
            if not isinstance(v, En): raise Unsupported(f'discriminant of {type(v).__name__}')
            return self.discr(v)
        if k == 'repeat': return SeqL([self.operand(st, fr, r[1])] * r[2])
        if k == 'cast': return self.cast(st, r[1], self.operand(st, fr, r[2]), self.opty(fr, r[2]), r[3])
        raise Unsupported('rvalue ' + k)
    def discr(self, v):
        vs = [int(x['discr']) for x in self.T[v.ty]['variants']] if v.ty is not None else list(range(len(v.p)))
        if not isz(v.d): return vs[v.d]
        if vs == list(range(len(vs))): return v.d
        r = vs[-1]
        for i in range(len(vs) - 2, -1, -1): r = ITE(EQ(v.d, i), vs[i], r)
        return r
    def opty(self, fr, o):
        if 'const' in o: return o['const']['ty']
        if 'rtcheck' in o: return None
        return self.placety(fr, o.get('copy') or o.get('move'))
    def placety(self, fr, pl):
        t = fr.b['locals'][pl[0]]; t = t[0] if isinstance(t, list) else t
        var = 0
        for e in pl[1]:
            T = self.T[t]
            if e[0] == 'deref': t = T['args'][0] if T['k'] == 'adt' else T['to']
            elif e[0] == 'field': t = e[2]
            elif e[0] in ('index', 'cindex'): t = T['elem']
            elif e[0] == 'cast': t = e[1]
        return t
    def irange(self, t):
        T = self.T[t]
        if T['k'] == 'uint': return 0, 2 ** T['bits'] - 1
        if T['k'] == 'int': return -2 ** (T['bits'] - 1), 2 ** (T['bits'] - 1) - 1
        if T['k'] == 'char': return 0, 0x10ffff
        if T['k'] == 'bool': return 0, 1
        raise Unsupported('range of ' + T['s'])
    def wrap(self, v, t):
        lo, hi = self.irange(t)
        if not isz(v):
            m = hi - lo + 1
            return (v - lo) % m + lo
        return norm(z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % (hi - lo + 1) + lo))
    def idivmod(self, a, b):
        if not isz(a) and not isz(b): return a // b, a % b
        q, r = DIVF(Z(a), Z(b)), MODF(Z(a), Z(b))
        return q, r
    def binop(self, st, op, a, b, t):
        if isinstance(a, F) and isinstance(b, F):
            if op in ('Add', 'Sub', 'Mul', 'Div'): return {'Add': fadd, 'Sub': fsub, 'Mul': fmul, 'Div': fdiv}[op](a, b)
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'): return fcmp(op, a, b)
            raise Unsupported('float op ' + op)
        if isinstance(a, (CPtr, Ptr, Sl, Opaque)) or isinstance(b, (CPtr, Ptr, Sl, Opaque)):
            if op == 'Offset': return self.models['ptr_offset'](self, st, a, b)
            e = self.ptr_eq(st, a, b)
            if op == 'Eq': return e
            if op == 'Ne': return NOT(e)
            raise Unsupported('pointer op ' + op)
        if op == 'Eq': return EQ(a, b)
        if op == 'Ne': return NOT(EQ(a, b))
        if isinstance(a, bool) or z3.is_bool(a) or isinstance(b, bool) or z3.is_bool(b):
            if op == 'BitAnd': return AND(a, b)
            if op == 'BitOr': return OR(a, b)
            if op == 'BitXor': return NOT(EQ(a, b))
            if op == 'Lt': return AND(NOT(a), b)
            raise Unsupported('bool op ' + op)
        if op == 'Lt': return LT(a, b)
        if op == 'Le': return LE(a, b)
        if op == 'Gt': return LT(b, a)
        if op == 'Ge': return LE(b, a)
        if op in ('Add', 'Sub', 'Mul'): return self.wrap({'Add': ADD, 'Sub': SUB, 'Mul': MUL}[op](a, b), t)
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'): return {'A': ADD, 'S': SUB, 'M': MUL}[op[0]](a, b)
        if op in ('Div', 'Rem') and self.irange(t)[0] == 0:
            return self.idivmod(a, b)[op == 'Rem']
        if op == 'Cmp':
            r = ITE(LT(a, b), 0, ITE(EQ(a, b), 1, 2))
            return self.ordering(r)
        if not isz(a) and not isz(b):
            if op in ('Shl', 'ShlUnchecked'): return self.wrap(a << b, t)
            if op in ('Shr', 'ShrUnchecked'): return a >> b
            if op == 'BitAnd': return a & b
            if op == 'BitOr': return a | b
            if op == 'BitXor': return a ^ b
        if not isz(b) and op in ('Shl', 'ShlUnchecked'): return self.wrap(MUL(a, 2 ** b), t)
        if not isz(b) and op in ('Shr', 'ShrUnchecked') : return self.idivmod(a, 2 ** b)[0]
        if not isz(b) and op == 'BitAnd' and (b & (b + 1)) == 0: return self.idivmod(a, b + 1)[1]
        raise Unsupported('integer op ' + op)
    def ordty(self):
        if not hasattr(self, '_ordty'):
            self._ordty = next((i for i, t in enumerate(self.T) if t['k'] == 'adt' and t['name'].endswith('cmp::Ordering')), None)
        return self._ordty
    def ordering(self, d): return En(self.ordty(), d, {0: (), 1: (), 2: ()})
    def ptr_eq(self, st, a, b):
        if isinstance(a, CPtr) and isinstance(b, CPtr): return EQ(a.addr, b.addr)
        if isinstance(a, Ptr) and isinstance(b, Ptr): return deep_eq(a, b)
        if isinstance(a, Sl) and isinstance(b, Sl) and a.obj == b.obj and patheq(a.path, b.path): return AND(EQ(a.start, b.start), EQ(a.len, b.len))
        if type(a) is not type(b):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, CPtr) and x.addr == 0: return False
                if isinstance(x, CPtr) and (isinstance(y, int) or isz(y)): return EQ(x.addr, y)
        raise Unsupported('pointer comparison')
    def cast(self, st, kind, v, ft, tt):
        T = self.T[tt]
        if kind in ('IntToInt',):
            if isinstance(v, bool) or z3.is_bool(v): v = ITE(v, 1, 0)
            if isinstance(v, En): v = self.discr(v)
            return self.wrap(v, tt)
        if kind == 'IntToFloat':
            return F(Fraction(v)) if not isz(v) else F(z3.ToReal(v))
        if kind == 'FloatToInt': return self.f2i(v, tt)
        if kind == 'FloatToFloat': return v
        if 'Unsize' in kind:
            if isinstance(v, Ptr):
                if self.T[T.get('to', tt)]['k'] == 'slice' if 'to' in T else False:
                    return Sl(v.obj, v.path, 0, self.load(st, v.obj, v.path).n)
                if 'to' in T and self.T[T['to']]['k'] == 'slice': return Sl(v.obj, v.path, 0, self.load(st, v.obj, v.path).n)
                return v
            return v
        if kind in ('PtrToPtr',) or 'PointerCoercion' in kind or kind == 'Transmute' or kind.startswith('PointerExpose') or kind.startswith('PointerWith') or 'Subtype' in kind:
            if 'ReifyFn' in kind or 'ClosureFn' in kind: return v
            if isinstance(v, (Ptr, Sl, CPtr, Opaque)):
                h = self.models.get('ptrcast')
                return h(self, st, v, ft, tt) if h else v
            if kind == 'Transmute' and (self.T[ft]['s'] == T['s']): return v
            if kind == 'Transmute' and isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], (Ptr, CPtr)) and T['k'] in ('ptr', 'ref'): return v.f[0]
            if kind == 'Transmute' and isinstance(v, (Agg, En)): 
                h = self.models.get('transmute')
                if h: return h(self, st, v, ft, tt)
        if kind == 'BoxDerefTransmute' and isinstance(v, (Sl, Ptr)): return v
        raise Unsupported(f'cast {kind} to {T["s"]}')
    def f2i(self, v, tt):
        lo, hi = self.irange(tt)
        if v.nan is True: return 0
        if not isz(v.v):
            x = Fraction(v.v); q = abs(x.numerator) // x.denominator
            r = max(lo, min(hi, q if x >= 0 else -q))
            return ITE(v.nan, 0, r)
        x = v.v
        tr = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)) if lo < 0 else z3.ToInt(x)
        return ITE(v.nan, 0, z3.If(x <= lo, lo, z3.If(x >= hi, hi, tr)))
    # ------------------------------------------------------------ running bodies
    def call_body(self, st, body, args):
        """-> [(st, value)]"""
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget')
        bid = self.p.body_id(body)
        self.inlined[bid] = self.inlined.get(bid, 0) + 1
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion')
        self._obj += 1
        fr = Frame(body, self._obj)
        self.frames.append(fr)
        try:
            st = st.fork()
            for i in range(len(body['locals'])): st.store[('L', fr.fid, i)] = UNDEF
            if body.get('spread') is not None:
                sp = body['spread']
                tup = args[-1]
                args = list(args[:-1]) + [tup]
            if len(args) != body['argc']: raise Unsupported(f'arity of {body["name"]}: {len(args)} vs {body["argc"]}')
            for i, a in enumerate(args): st.store[('L', fr.fid, i + 1)] = a
            outs = self.run(fr, 0, st, None)
        finally:
            self.frames.pop(); self.depth -= 1
        res = []
        for o in outs:
            if o[0] != 'ret': raise Unsupported('body escaped')
            s = o[1]
            v = s.store.get(('L', fr.fid, 0))
            keep = self.pinned(fr, s, v)
            for i in range(len(body['locals'])):
                k = ('L', fr.fid, i)
                if k not in keep: s.store.pop(k, None)
            res.append((s, v))
        if self.merge_calls and len(res) > 1:
            m = self.merge_outcomes(st, res)
            if m is not None: return [m]
        return res
    def pinned(self, fr, s, v): return ()
    def where(self, fr, line, msg):
        return f"{self.p.body_id(fr.b)}:{line}:{msg}"
    def run(self, fr, bb, st, region):
        """execute from block bb; outcomes ('ret',st) / ('back',st) / ('exit',st,bb)"""
        outs = []; work = [(bb, st, True)]
        loops = self.p.loops(fr.b['key'])
        steps = 0
        while work:
            bb, st, first = work.pop()
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget')
            if region is not None:
                if bb == region.h and not first:
                    outs.append(('back', st)); continue
                if bb not in region.blocks:
                    outs.append(('exit', st, bb)); continue
            if bb in loops and not (region is not None and bb == region.h and first):
                for o in self.loop(fr, bb, st, loops[bb]):
                    if o[0] == 'exit': work.append((o[2], o[1], False))
                    else: outs.append(o)
                continue
            steps += 1
            if steps > 20000 or len(outs) > self.max_states: raise Unsupported('path explosion in ' + fr.b['name'])
            for o in self.block(fr, bb, st):
                if o[0] == 'goto': work.append((o[2], o[1], False))
                else: outs.append(o)
        return outs
    def forked(self, st, f):
        """run f(st) retrying on NeedFork; -> list of (st, result)"""
        todo = [st]; res = []
        while todo:
            s = todo.pop()
            s0 = s.fork()
            try:
                res.append((s, f(s)))
            except NeedFork as e:
                for c in e.conds:
                    s2 = s0.fork().assume(c)
                    if self.feasible(s2): todo.append(s2)
        return res
    def block(self, fr, bb, st):
        bl = fr.b['blocks'][bb]
        states = [st]
        for s in bl['s']:
            nxt = []
            for x in states:
                nxt += [q for q, _ in self.forked(x, lambda y, s=s: self.stmt(y, fr, s))]
            states = nxt
        outs = []
        for x in states:
            for y, r in self.forked(x, lambda y: self.term(y, fr, bl['t'])):
                outs += r
        return outs
    def stmt(self, st, fr, s):
        k = s[0]
        if k == '=':
            dty = self.placety(fr, s[1])
            v = self.rvalue(st, fr, s[2], dty)
            obj, path, sl = self.resolve(st, fr, s[1])
            self.store(st, obj, path, v)
        elif k == 'dead':
            pass
        elif k == 'setdiscr':
            obj, path, sl = self.resolve(st, fr, s[1])
            v = self.load(st, obj, path)
            self.store(st, obj, path, En(v.ty, s[2], v.p))
        elif k == 'assume':
            st.axiom(self.operand(st, fr, s[1]))
        else: raise Unsupported('statement ' + k)
    def branch(self, st, alts):
        """alts = [(cond, payload)] mutually exclusive & exhaustive; keeps feasible ones"""
        alts = [(norm(c) if isz(c) else c, p) for c, p in alts]
        alts = [(c, p) for c, p in alts if c is not False]
        if len(alts) == 1: return [(st, alts[0][1])]
        t = [a for a in alts if a[0] is True]
        if t: return [(st, t[0][1])]
        # a condition already assumed on this path
        res = []
        for i, (c, p) in enumerate(alts):
            if isz(c) and c.get_id() in st.chosen: return [(st, p)]
        for i, (c, p) in enumerate(alts):
            s2 = st.fork().assume(c)
            if self.feasible(s2): res.append((s2, p))
        return res
    def term(self, st, fr, t):
        k = t[0]
        if k == 'goto': return [('goto', st, t[1])]
        if k == 'return': return [('ret', st)]
        if k in ('unreachable',):
            self.oblige(st, False, 'unreachable', self.where(fr, 0, 'unreachable'))
            return []
        if k in ('resume', 'abort'): return []
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            ty = self.opty(fr, t[1]); ty = self.T[ty] if ty is not None else {'k': 'bool'}
            alts = []; neg = []
            for val, tgt in t[2]:
                val = int(val)
                if ty['k'] == 'int' and val >= 2 ** (ty['bits'] - 1): val -= 2 ** ty['bits']
                if isinstance(v, bool) or z3.is_bool(v): c = v if val == 1 else NOT(v)
                else: c = EQ(v, val)
                alts.append((c, tgt)); neg.append(NOT(c))
            alts.append((AND(*neg), t[3]))
            return [('goto', s, p) for s, p in self.branch(st, alts)]
        if k == 'drop':
            obj, path, sl = self.resolve(st, fr, t[1])
            h = self.models.get('drop')
            if h: h(self, st, fr, obj, path, t[3])
            return [('goto', st, t[2])]
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            c = v if t[2] else NOT(v)
            c = norm(c) if isz(c) else c
            msg = t[3] if isinstance(t[3], str) else json.dumps(t[3])
            self.oblige(st, c, 'panic', self.where(fr, t[5] if len(t) > 5 else 0, msg))
            if c is False: return []
            if c is not True: st.assume(c)
            return [('goto', st, t[4])]
        if k == 'call':
            return self.call_term(st, fr, t)
        raise Unsupported('terminator ' + k)
    def call_term(self, st, fr, t):
        fop, aops, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(st, fr, a) for a in aops]
        if 'const' in fop: fv = FnVal(fop['const']['ty'])
        else: fv = self.operand(st, fr, fop)
        dty = self.placety(fr, dest)
        res = self.call(st, fv, args, fr=fr, line=line, dty=dty, diverges=target is None)
        outs = []
        for s, v in res:
            if target is None: continue
            for s2, _ in self.forked(s, lambda y, v=v: self.assign_dest(y, fr, dest, v)):
                outs.append(('goto', s2, target))
        return outs
    def assign_dest(self, st, fr, dest, v):
        v = self.pick(st, v)
        obj, path, sl = self.resolve(st, fr, dest)
        self.store(st, obj, path, v)
    # ------------------------------------------------------------ calls
    def call(self, st, fv, args, fr=None, line=0, dty=None, diverges=False):
        """call a fn value; -> [(st, value)]"""
        if isinstance(fv, (Agg, Ptr)) or (isinstance(fv, FnVal) and self.T[fv.ty]['k'] == 'closure'):
            return self.call_closure(st, fv, args, fr)
        T = self.T[fv.ty]
        if T['k'] != 'fndef': raise Unsupported('indirect call')
        n2 = short(T['name']); inst = T['inst']
        ctx = Ctx(self, fr, line, T, dty, n2)
        body = self.p.B.get(inst['key']) if inst else None
        if body is not None and body['crate'] in self.p.ws:
            bid = self.p.body_id(body)
            h = self.contracts.get(bid)
            if h is not None:
                r = h(ctx, st, args)
                if r is not NotImplemented:
                    self.used_contracts[bid] = self.used_contracts.get(bid, 0) + 1
                    return self.fix(st, r)
        # calls of closures through the Fn traits
        if n2 in ('FnMut::call_mut', 'Fn::call', 'FnOnce::call_once', 'ops::FnMut::call_mut'):
            tup = args[1]
            return self.call_closure(st, args[0], list(tup.f), fr)
        cands = [n2]
        if inst: cands.append(short(inst['name']))
        for nm in cands:
            h = self.models.get(nm)
            if h is not None and not (body is not None and body['crate'] in self.p.ws):
                s0 = st
                r = h(ctx, st, args)
                if r is not NotImplemented:
                    self.used_models[nm] = self.used_models.get(nm, 0) + 1
                    return self.fix(st, r)
        if body is not None and body['crate'] in self.p.ws:
            # trait methods of workspace iterators
            return self.call_body(st, body, args)
        if body is not None: return self.call_body(st, body, args)
        if diverges:
            self.oblige(st, False, 'panic', self.where(fr, line, 'call ' + n2)); return []
        raise Unsupported(f'call of {T["name"]} (line {line})')
    def fix(self, st, r):
        if isinstance(r, list): return r
        return [(st, r)]
    def call_closure(self, st, f, args, fr=None):
        """f: closure value / fn item / pointer to one; args: positional"""
        while isinstance(f, Ptr):
            ptr = f
            f = self.load(st, f.obj, f.path)
            if isinstance(f, Agg): break
        else: ptr = None
        if isinstance(f, FnVal):
            T = self.T[f.ty]
            if T['k'] == 'fndef': return self.call(st, f, args, fr)
            f = Agg(f.ty, [])
        if not isinstance(f, Agg): raise Unsupported(f'call of {type(f).__name__}')
        T = self.T[f.ty]
        inst = T.get('inst')
        if T['k'] != 'closure':
            raise Unsupported('call of non closure')
        body = self.p.B.get(inst['key']) if inst else None
        if body is None: raise Unsupported('closure body ' + T['s'])
        st = st.fork()
        selfty = body['locals'][1]; selfty = selfty[0] if isinstance(selfty, list) else selfty
        if self.T[selfty]['k'] == 'ref':
            if ptr is None: ptr = Ptr(self.alloc(st, f, 'clo'))
            a0 = ptr
        else: a0 = f
        if body.get('spread') is not None: return self.call_body(st, body, [a0, Agg(None, args)])
        return self.call_body(st, body, [a0] + list(args))
    def pure_call(self, st, f, args):
        """call whose effects are confined to temporaries; -> (merged state, merged value) or None"""
        outs = self.call_closure(st, f, args)
        return self.merge_outcomes(st, outs)
    def merge_outcomes(self, base, outs, allow_choice=True, grow=False):
        """one state for several outcomes; with grow, vectors and maps may have grown by different items"""
        if not outs: return None
        if len(outs) == 1: return outs[0]
        grown = []
        for s, v in outs:
            for o, x in base.store.items():
                if s.store.get(o) is not x:
                    if not grow: return None
                    if o not in grown: grown.append(o)
            if s.ev != base.ev: return None
        n0 = len(base.pc)
        st = outs[0][0].fork()
        st.pc = base.pc; st.chosen = base.chosen
        ax = list(base.ax); facts = list(base.facts); val = None
        conds = [AND(*s.pc[n0:]) for s, _ in outs]
        for o in grown:
            if any(o not in s.store for s, _ in outs): return None
            x = outs[-1][0].store[o]
            for (s, _), c in list(zip(outs, conds))[-2::-1]:
                x = merge_appended(c, s.store[o], x, base.store[o])
                if x is None: return None
            st.store[o] = x
        for (s, v), c in zip(outs, conds):
            for a in s.ax[len(base.ax):]: ax.append(Z(IMP(c, a)))
            for f in s.facts[len(base.facts):]: facts.append(f.guarded(c))
            for o, x in s.store.items():
                if o not in st.store: st.store[o] = x
        val = outs[-1][1]
        for (s, v), c in list(zip(outs, conds))[-2::-1]: val = merge(c, v, val)
        if isinstance(val, Choice) and not allow_choice: return None
        st.ax = tuple(ax); st.facts = tuple(facts)
        # exhaustive up to panicking paths
        d = OR(*conds)
        if d is not True: st.ax = st.ax + (Z(d),)
        return st, val
    # ------------------------------------------------------------ state merging at loop heads
    def merge_states(self, base, states):
        if len(states) <= 1: return states
        n0 = len(base.pc)
        common = set(base.store)
        for s in states: common &= set(s.store)
        conds = [AND(*s.pc[n0:]) for s in states]
        if any(s.ev != states[0].ev for s in states): return states
        st = base.fork(); st.store = {}
        for o in common:
            vals = [s.store[o] for s in states]
            if all(v is vals[0] for v in vals): st.store[o] = vals[0]; continue
            if any(isinstance(v, Undef) for v in vals): st.store[o] = UNDEF; continue
            try:
                v = vals[-1]
                for c, x in list(zip(conds, vals))[-2::-1]: v = merge(c, x, v)
            except Unsupported: return states
            if haschoice(v):
                return states
            st.store[o] = v
        ax = list(base.ax); facts = list(base.facts)
        for s, c in zip(states, conds):
            for a in s.ax[len(base.ax):]: ax.append(Z(IMP(c, a)))
            for f in s.facts[len(base.facts):]: facts.append(f.guarded(c))
        st.ax = tuple(ax); st.facts = tuple(facts); st.ev = states[0].ev
        d = OR(*conds)
        if d is not True: st.assume(d)
        return [st]
    # ------------------------------------------------------------ loops
    def loop(self, fr, h, st, blocks):
        results = []; cur = [st]; it = 0; base = st
        while cur:
            it += 1
            if it > 400: raise Unsupported('loop bound')
            region = Region(h, blocks)
            nxt = []
            for s in cur:
                fr.regions.append(region)
                nob = len(self.obls)
                try: outs = self.run(fr, h, s.fork(), region)
                finally: fr.regions.pop()
                back = [o for o in outs if o[0] == 'back']; ex = [o for o in outs if o[0] != 'back']
                if back and ex and not region.concrete:
                    # exit not decided concretely
                    del self.obls[nob:]
                    results += self.summarise(fr, h, s, blocks)
                    continue
                results += ex
                nxt += [o[1] for o in back]
            if len(nxt) > 1:
                # values not live at the head do not matter
                for x in nxt: self.kill_dead(fr, h, x)
                nxt = self.merge_states(base, nxt)
            cur = nxt
        return results
    def live_in(self, key):
        """live locals at block entries"""
        c = getattr(self, '_live', None)
        if c is None: c = self._live = {}
        if key in c: return c[key]
        b = self.p.B[key]; n = len(b['blocks'])
        use = [set() for _ in range(n)]; df = [set() for _ in range(n)]
        # address-taken locals are always live
        taken = set()
        def pl(p, i, wr=False):
            l = p[0]
            if wr and not p[1]:
                df[i].add(l)
            else:
                if l not in df[i]: use[i].add(l)
            for e in p[1]:
                if e[0] == 'index' and e[1] not in df[i]: use[i].add(e[1])
        def op(o, i):
            if 'copy' in o: pl(o['copy'], i)
            elif 'move' in o: pl(o['move'], i)
        for i, bl in enumerate(b['blocks']):
            for s in bl['s']:
                if s[0] == '=':
                    r = s[2]
                    if r[0] in ('ref', 'addrof'):
                        pl(r[2], i)
                        if not any(e[0] == 'deref' for e in r[2][1]): taken.add(r[2][0])
                    elif r[0] == 'agg':
                        for o in r[2]: op(o, i)
                    elif r[0] in ('bin', 'cbin'): op(r[2], i); op(r[3], i)
                    elif r[0] in ('discr', 'len'): pl(r[1], i)
                    elif r[0] in ('use', 'repeat'): op(r[1], i)
                    elif r[0] in ('cast', 'un'): op(r[2], i)
                    pl(s[1], i, True)
                elif s[0] == 'assume': op(s[1], i)
                elif s[0] == 'setdiscr': pl(s[1], i)
            t = bl['t']
            if t[0] in ('switch', 'assert'): op(t[1], i)
            elif t[0] == 'drop': pass
            elif t[0] == 'call':
                op(t[1], i)
                for o in t[2]: op(o, i)
                pl(t[3], i, True)
            elif t[0] == 'return': use[i].add(0)
        live = [set() for _ in range(n)]; ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.p.succ(b['blocks'][i]['t']): o |= live[s]
                x = use[i] | (o - df[i])
                if x != live[i]: live[i] = x; ch = True
        c[key] = (live, taken)
        return c[key]
    def kill_dead(self, fr, h, st):
        live, taken = self.live_in(fr.b['key'])
        # a taken local stays unless defined before use inside the loop: treat as live only if some pointer to it is live
        roots = [st.store.get(('L', fr.fid, i)) for i in live[h]]
        reach = self.reach(st, roots, skip=fr.fid)
        for i in range(len(fr.b['locals'])):
            k = ('L', fr.fid, i)
            if i not in live[h] and k in st.store and k not in reach:
                st.store[k] = UNDEF
    def reach(self, st, vals, skip=None):
        """objects of frame `skip` pointed to by live values (other frames' pointers included)"""
        seen = set(); work = list(vals)
        for o, v in st.store.items():
            if not (o[0] == 'L' and o[1] == skip): work.append(v)
        out = set()
        def ptrs(v, acc, depth=0):
            if isinstance(v, (Ptr, Sl)): acc.append(v.obj)
            elif isinstance(v, (Agg,)): [ptrs(x, acc) for x in v.f]
            elif isinstance(v, En): [ptrs(x, acc) for f in v.p.values() for x in f]
            elif isinstance(v, SeqL): [ptrs(x, acc) for x in v.items]
            elif isinstance(v, SeqApp): ptrs(v.base, acc); ptrs(v.v, acc)
            elif isinstance(v, Seq): acc.extend(seqptrs(v))
            elif isinstance(v, Mat): [ptrs(x, acc) for x in v.cells]
            elif isinstance(v, Native):
                if getattr(v, "obj", None) is not None: acc.append(v.obj)
                [ptrs(x, acc) for x in v.fields()]
            elif isinstance(v, tuple): [ptrs(x, acc) for x in v]
            elif isinstance(v, Choice): [ptrs(x, acc) for _, x in v.alts]
        while work:
            v = work.pop(); acc = []
            ptrs(v, acc)
            for o in acc:
                if o not in out:
                    out.add(o)
                    if o in st.store: work.append(st.store[o])
        return out
    def summarise(self, fr, h, st, blocks):
        def body(s):
            region = Region(h, blocks)
            fr.regions.append(region)
            try: return self.run(fr, h, s, region)
            finally: fr.regions.pop()
        st = st.fork()
        self.kill_dead(fr, h, st)
        import loops
        return loops.summarise(self, st, body, self.where(fr, 0, f'loop'), kill=lambda s: self.kill_dead(fr, h, s))

class Ctx:
    """what a model or contract sees of the call site"""
    def __init__(self, eng, fr, line, T, dty, name):
        self.e = eng; self.fr = fr; self.line = line; self.T = T; self.dty = dty; self.name = name
    def where(self, msg): return self.e.where(self.fr, self.line, msg) if self.fr else f'?:{self.line}:{msg}'
    def panic(self, st, cond, msg):
        """obligation that `cond` holds here; continues under cond"""
        c = norm(cond) if isz(cond) else cond
        self.e.oblige(st, c, 'panic', self.where(msg))
        if c is not True and c is not False: st.assume(c)
        return c is not False
    def advanced(self, decided):
        """the first iterator advanced in a round is the loop's own"""
        if self.fr and self.fr.regions and self.fr.regions[-1].concrete is None: self.fr.regions[-1].concrete = decided

def seqptrs(q):
    """objects the items of a sequence given by a function may point to"""
    c = getattr(q, '_ptrs', None)
    if c is not None: return c
    acc = []
    def ptrs(v, d=0):
        if d > 12: return
        if isinstance(v, (Ptr, Sl)): acc.append(v.obj)
        elif isinstance(v, Agg): [ptrs(x, d + 1) for x in v.f]
        elif isinstance(v, En): [ptrs(x, d + 1) for f in v.p.values() for x in f]
        elif isinstance(v, SeqL): [ptrs(x, d + 1) for x in v.items]
        elif isinstance(v, Mat): [ptrs(x, d + 1) for x in v.cells]
        elif isinstance(v, Native):
            o = getattr(v, 'obj', None)
            if o is not None: acc.append(o)
            [ptrs(x, d + 1) for x in v.fields()]
        elif isinstance(v, tuple): [ptrs(x, d + 1) for x in v]
        elif isinstance(v, Choice): [ptrs(x, d + 1) for _, x in v.alts]
        elif isinstance(v, SeqApp): ptrs(v.base, d + 1); ptrs(v.v, d + 1)
        elif isinstance(v, Seq): acc.extend(seqptrs(v))
    for a in ('v0', 'items', 'base', 'v', 'item'):
        if hasattr(q, a) and not callable(getattr(q, a)): 
            x = getattr(q, a)
            ptrs(tuple(x) if isinstance(x, list) else x)
    if type(q) is Seq:
        if not (q.origin and q.origin[0] == 'sym'):
            try: ptrs(q.get(z3.Int('@reach')))
            except Unsupported: pass
    q._ptrs = acc if type(q) is Seq else None
    return acc

def haschoice(v):
    if isinstance(v, Choice): return True
    if isinstance(v, Agg): return any(haschoice(x) for x in v.f)
    if isinstance(v, En): return any(haschoice(x) for f in v.p.values() for x in f)
    if isinstance(v, SeqL): return any(haschoice(x) for x in v.items)
    if isinstance(v, Native): return any(haschoice(x) for x in v.fields())
    return False

def symbols(eng, f, cache={}):
    """ids of the uninterpreted applications of a formula"""
    i = f.get_id()
    if i in cache: return cache[i][1]
    eng.node(f); seen = set(); out = set(); stack = [i]
    while stack:
        j = stack.pop()
        if j in seen: continue
        seen.add(j); x, uf, ch, ia = eng.nodes[j]
        if uf: out.add(j)
        stack.extend(ch)
    cache[i] = (f, out)
    return out

def light(facts):
    """without the records of what every earlier iteration did"""
    return tuple(f for f in facts if not (isinstance(f.name, str) and f.name.startswith('iter')))

def slices(eng, forms, goal):
    """hypotheses close to the goal first: sound, since leaving out hypotheses only weakens them"""
    have = set(symbols(eng, goal)); picked = []; rest = list(forms)
    if len(rest) < 12: return
    for depth in range(3):
        new = [f for f in rest if symbols(eng, f) & have]
        if not new: return
        ids = {f.get_id() for f in new}
        rest = [f for f in rest if f.get_id() not in ids]
        picked += new
        if not rest: return
        yield picked
        for f in new: have |= symbols(eng, f)

def conjuncts(g, out=None):
    out = [] if out is None else out
    if z3.is_and(g):
        for c in g.children(): conjuncts(c, out)
    elif z3.is_implies(g) and z3.is_and(g.arg(1)):
        for c in conjuncts(g.arg(1)): out.append(z3.Implies(g.arg(0), c))
    elif not z3.is_true(g): out.append(g)
    return out

def prove(eng, forms, facts, goal, timeout):
    """the whole goal, then every conjunct on its own"""
    forms = [Z(f) for f in forms]; goal = Z(goal)
    gs = conjuncts(goal)
    if not gs: return 'proved', None, 'z3'
    if len(gs) > 1 and quick(eng, forms, light(facts), goal, 2500): return 'proved', None, 'z3'
    back = set(); bad = None; stage = 0
    for g in gs:
        r = prove1(eng, forms, facts, g, timeout, stage)
        if r[0] == 'refuted': return r[:3]
        if r[0] != 'proved':
            bad = r
            if len(gs) > 6: return bad[:3]
        else: stage = r[3]
        back.add(r[2])
    return bad[:3] if bad else ('proved', None, sorted(back)[-1])

def quick(eng, forms, facts, goal, timeout):
    s = z3.Solver(); s.set('timeout', timeout); s.add(*eng.instantiate(list(forms) + [z3.Not(goal)], facts))
    return s.check() == z3.unsat

def prove1(eng, forms, facts, goal, timeout, first=0):
    """weaker and weaker slices of the hypotheses, then all of them; `first` is the stage that did it last time"""
    if facts and eng.matched(list(forms) + [z3.Not(goal)], facts, 4000 if len(facts) > 12 else 1000): return 'proved', None, 'z3', first
    parts = [list(p) for p in slices(eng, forms, goal)]; lf = light(facts)
    stages = [(p, lf, 2500) for p in parts]
    if len(lf) < len(facts):
        if parts: stages.insert(1, (parts[0], facts, 2500))
        stages.append((forms, lf, timeout // 2))
    order = list(range(len(stages)))
    if first in order: order.remove(first); order.insert(0, first)
    for k in order:
        if quick(eng, stages[k][0], stages[k][1], goal, stages[k][2]): return 'proved', None, 'z3', k
    fs = eng.instantiate(forms + [z3.Not(goal)], facts)
    s = z3.Solver(); s.set('timeout', timeout); s.add(*fs)
    r = s.check()
    if r == z3.unsat: return 'proved', None, 'z3', -1
    if r == z3.sat: return 'refuted', s.model(), 'z3', -1
    for tac in ('qfnra-nlsat', 'qfuflra'):
        try:
            s = z3.Tactic(tac).solver(); s.set('timeout', timeout); s.add(*fs)
            r = s.check()
        except z3.Z3Exception: continue
        if r == z3.unsat: return 'proved', None, 'z3/' + tac, -1
        if r == z3.sat and tac == 'qfnra-nlsat': return 'refuted', s.model(), 'z3/' + tac, -1
    return 'unknown', None, 'z3', -1
