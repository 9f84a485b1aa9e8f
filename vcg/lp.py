"""good_lp: a linear program is its constraints (coefficients, bound); what it minimises is not followed.
Variables are numbers, expressions their three coefficients, a model the sequence of its constraints."""
import models, nalg
from values import *
from models import MODELS, model, deref
class LVar(Agg): pass
class LExpr(Agg): pass
def coef(v): return v.f[0]
def _mul(ctx, st, x):
    a, b = x
    if isinstance(b, LVar): a, b = b, a
    if isinstance(a, LVar) and isinstance(b, F): return LExpr(None, [Mat(3, 1, [b if k == a.f[0] else F(Fraction(0)) for k in range(3)])])
def _add(ctx, st, x):
    if all(isinstance(v, LExpr) for v in x): return LExpr(None, [Mat(3, 1, [nalg.fadd(p, q) for p, q in zip(coef(x[0]).cells, coef(x[1]).cells)])])
MODELS['arith:Mul'] = _mul
MODELS['arith:Add'] = _add
@model('ProblemVariables::new')
def _new(ctx, st, args): return Agg(ctx.dty, [0])
@model('VariableDefinition::new', 'VariableDefinition::name')
def _def(ctx, st, args): return Agg(ctx.dty, [])
@model('ProblemVariables::add')
def _addv(ctx, st, args):
    p = args[0]; v = ctx.e.load(st, p.obj, p.path); n = v.f[0]
    if isz(n) or n >= 3: raise Unsupported('variables of the program')
    ctx.e.store(st, p.obj, p.path, Agg(v.ty, [n + 1])); return LVar(None, [n])
@model('ProblemVariables::minimise', 'UnsolvedProblem::using')
def _min(ctx, st, args): return SeqL([])
@model('Expression::leq')
def _leq(ctx, st, args):
    x = nalg.deref_all(ctx, st, args[1])
    if not isinstance(args[0], LExpr) or not isinstance(x, F): raise Unsupported('constraint')
    return Agg(None, [coef(args[0]), x])
@model('SolverModel::add_constraint')
def _push(ctx, st, args):
    p = args[0]; v = ctx.e.load(st, p.obj, p.path)
    if not isinstance(v, Seq): raise Unsupported('linear program')
    ctx.e.store(st, p.obj, p.path, SeqApp(v, args[1])); return Agg(None, [])
