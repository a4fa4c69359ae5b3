"""Runs one harness: exploration, counterexample replay, witness validation."""
import gc
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import arr, core, ctx
from .core import ENG, Stats

REPO = os.environ.get('SYMX_REPO', '/repo')


def start_trace(funcs):
    mon = sys.monitoring
    mon.use_tool_id(3, 'symx')

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + '/'):
            funcs.add((fn[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)


class Result(object):
    pass


def _model_values(S, m):
    vals = {}
    for n, kind, v in S.vars:
        x = m.eval(v, model_completion=True)
        if kind == 'bool':
            vals[n] = z3.is_true(x)
        elif kind == 'int':
            vals[n] = x.as_long()
        else:
            vals[n] = core.algebraic_to_fraction(x)
    return vals


def _run_concrete(fn, values, opts, known=(), seed=0):
    """returns (status, info, ctx): ok / violation / assume / exc"""
    import mdp
    C = ctx.ConcCtx(values, opts, seed=seed)
    C.known = set(known)
    P = ctx.Patcher()
    P.conc()
    arr.RAND_SHIM.src = C.rand
    was, ENG.sym = ENG.sym, False
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(C)
        return 'ok', None, C
    except ctx.ConcViolation as v:
        return 'violation', v, C
    except ctx.AssumeFailed as e:
        return 'assume', e, C
    except core.SymxError as e:
        return 'assume', e, C
    except Exception as e:
        e._tb = traceback.format_exc()
        return 'exc', e, C
    finally:
        C.cleanup()
        P.restore()
        ENG.sym = was


def _nice_models(S, path, neg, diffs):
    """models of pc & neg, preferring small values and clear margins"""
    reals = [v for n, k, v in S.vars if k == 'real']
    ints = [v for n, k, v in S.vars if k == 'int']
    out = []

    def attempt(extra):
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*path.pc)
        s.add(neg)
        s.add(*extra)
        if str(s.check()) == 'sat':
            out.append(_model_values(S, s.model()))
            return True
        return False
    box = [z3.And(v >= -4, v <= 4) for v in reals]
    ibox = [z3.And(v >= -9, v <= 9) for v in ints]
    marg = []
    if diffs and diffs[0] is not None:
        d = diffs[0]
        marg = [z3.Or(d >= z3.Q(1, 4), d <= -z3.Q(1, 4))]
    rnd = random.Random(7)
    quant = []
    if len(reals) <= 40:
        # generic position: pin some variables to distinct simple values
        for i, v in enumerate(reals):
            if rnd.random() < 0.5:
                quant.append(v == z3.Q(rnd.randint(-12, 12), 4))
    for extra in (box + ibox + marg + quant, box + ibox + marg, box + marg,
                  box, []):
        try:
            attempt(extra)
        except z3.Z3Exception:
            pass
        if len(out) >= 3:
            break
    return out


def run_harness(name, fn, opts, known=(), tier='quick'):
    """explore one harness; returns a plain dict"""
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    sys.setrecursionlimit(20000)
    # an interrupted concretisation must never leave the process via __del__
    ENG.stats = st = Stats()
    ENG.undecided = []
    ENG.timeout_ms = opts.get('timeout_ms', 5000)
    ENG.opaque_exp = opts.get('opaque_exp', False)
    ENG.fork_bool_cast = opts.get('fork_bool_cast', False)
    ENG.opaque_sqrt = opts.get('opaque_sqrt', False)
    ENG.max_paths = opts.get('max_paths', 20000)
    ENG.max_enum = opts.get('max_enum', 64)
    t0 = time.time()
    budget = opts.get('budget_s', 100 if tier == 'quick' else 780)
    ENG.deadline = t0 + budget
    z3.set_param('smt.random_seed', 1)
    funcs = set()
    start_trace(funcs)
    known = set(known)
    res = dict(name=name, violations=[], known=[], undecided=[],
               notes=[], mismatches=[], reached=set())
    state = dict(npaths=0, S=None, stop=False)
    max_val = opts.get('validate', 6 if tier == 'quick' else 40)
    P = ctx.Patcher()

    def confirm(S, path, models, key, msg):
        """replay candidate models; returns (values, status, info) or None"""
        tried = 0
        for vals in models:
            st.replayed += 1
            P.restore()
            try:
                r, info, C = _run_concrete(fn, vals, opts, known)
            finally:
                P.sym()
                arr.RAND_SHIM.src = S.rand
            tried += 1
            if r in ('violation', 'exc'):
                return vals, r, info, C
        rnd = random.Random(11)
        for k in range(25):
            # perturbations: keep discrete choices, randomise the reals
            vals = {}
            base = models[0] if models else {}
            for n, v in base.items():
                if isinstance(v, Fraction) and k % 2 == 0:
                    continue
                if isinstance(v, Fraction):
                    v = v + Fraction(rnd.randint(-4, 4), 16)
                vals[n] = v
            st.replayed += 1
            P.restore()
            try:
                r, info, C = _run_concrete(fn, vals, opts, known, seed=k)
            finally:
                P.sym()
                arr.RAND_SHIM.src = S.rand
            if r in ('violation', 'exc'):
                vals = dict(C.used)
                return vals, r, info, C
        return None

    def on_violation(S, v):
        if v.key in known:
            models = _nice_models(S, ENG.cur, v.neg, v.diffs)
            res['known'].append(v.key)
            # the finding is listed: continue beyond it on this path
            nt = z3.simplify(z3.Not(v.neg))
            if z3.is_false(nt):
                return
            return
        path = ENG.cur
        models = _nice_models(S, path, v.neg, v.diffs)
        c = confirm(S, path, models, v.key, v.msg)
        if c is None:
            res['undecided'].append('unreproduced counterexample: %s %s' % (
                v.msg, S.ops[-6:]))
            raise core.PathInfeasible()
        vals, r, info, C = c
        res['violations'].append(dict(
            key=v.key, msg=str(getattr(info, 'msg', info)),
            detail=str(getattr(info, 'detail', '') or
                       getattr(info, '_tb', ''))[-1500:],
            ops=list(C.ops)[-30:],
            values=dict((k, str(x)) for k, x in vals.items())))
        state['stop'] = True
        raise v
    ENG.on_violation = on_violation

    def once():
        S = ctx.SymCtx(opts)
        S.known = known
        state['S'] = S
        arr.RAND_SHIM.src = S.rand
        del arr.LINALG_LOG[:]
        del arr.LINALG_MEMO[:]
        arr.POLICY.full = opts.get('linalg_full', True)
        arr.POLICY_INV_STUB[0] = opts.get('inv_stub', False)
        core._PICKLED.clear()
        ENG.sym = True
        P.sym()
        try:
            return fn(S)
        finally:
            S.cleanup()
            P.restore()
            ENG.sym = False

    def guess(S, path):
        """random values of the inputs that satisfy the path condition (saves
        the solver a search for a model of nonlinear constraints)"""
        rnd = random.Random(1000 + state['npaths'])
        names = dict((v.get_id(), (n, k, v)) for n, k, v in S.vars)
        roots = dict((d.get_id(), t) for d, k, t in path.defs)
        ints, rest = [], []
        for a in path.solver.assertions():
            if a.get_id() in path.sqrtax:
                continue
            kinds = set()
            for c in core.consts_of(a):
                i = c.get_id()
                if i in roots:
                    kinds.add('real')
                elif i not in names:
                    return None
                else:
                    kinds.add(names[i][1])
            (rest if 'real' in kinds else ints).append(a)
        sub0, vals = [], {}
        if len(S.vars) > sum(1 for v in S.vars if v[1] == 'real'):
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(ints)
            if str(s.check()) != 'sat':
                return None
            m = s.model()
            for n, k, v in S.vars:
                if k != 'real':
                    e = m.eval(v, model_completion=True)
                    vals[n] = z3.is_true(e) if k == 'bool' else e.as_long()
        for attempt in range(opts.get('guesses', 25)):
            env, cache = {}, {}
            for n, k, v in S.vars:
                if k == 'real':
                    q = Fraction(rnd.randint(-24, 24), 8)
                    if attempt % 2:
                        q = abs(q) + 1
                    if n in S.ranges:
                        lo, hi = S.ranges[n]
                        q = lo + (hi - lo) * Fraction(rnd.randint(1, 63), 64)
                    vals[n] = q
                env[v.decl().name()] = vals[n] if k == 'bool' else \
                    float(vals[n])
            try:
                for d, k, t in path.defs:
                    env[d.decl().name()] = getattr(math, k)(
                        ctx.evalf(t, env, cache))
                if all(ctx.evalf(a, env, cache) is True for a in rest):
                    return dict((n, vals[n]) for n, k, v in S.vars)
            except (ctx.NoValue, ValueError, OverflowError):
                pass
        return None

    def witness(S, path, force=False):
        """a concrete input following this path"""
        if opts.get('guess', opts.get('opaque_sqrt') or
                    opts.get('opaque_exp')):
            try:
                g = guess(S, path)
            except z3.Z3Exception:
                g = None
            if g is not None:
                return g
            if opts.get('opaque_exp') and not force:
                return None
        rnd = random.Random(state['npaths'])
        # random generic values first
        s = path.solver
        for attempt in range(2):
            s.push()
            try:
                s.set('timeout', 1500)
                for n, k, v in S.vars:
                    if k == 'real':
                        if attempt == 0:
                            q = z3.Q(rnd.randint(-24, 24), 8)
                            s.push()
                            s.add(v == q)
                            if str(s.check()) != 'sat':
                                s.pop()
                        else:
                            s.add(v >= -6, v <= 6)
                if str(s.check()) == 'sat':
                    return _model_values(S, s.model())
            except z3.Z3Exception:
                pass
            finally:
                while s.num_scopes() > 0:
                    s.pop()
                s.set('timeout', ENG.timeout_ms)
        m = path.model()
        return _model_values(S, m) if m is not None else None

    def on_path(path, out):
        S = state['S']
        state['npaths'] += 1
        kind, val = out
        res['reached'] |= S.reached
        if kind == 'infeasible':
            return state['stop']
        if kind == 'violation':
            return True
        if kind == 'budget':
            res['notes'].append('budget: %s' % val)
            return False
        if kind in ('exc', 'unsupported'):
            if kind == 'exc':
                tb = ''.join(traceback.format_exception(
                    type(val), val, val.__traceback__))
            else:
                tb = ''.join(traceback.format_exception(
                    type(val), val, val.__traceback__)[-6:])
            vals = witness(S, path, True)
            if vals is None:
                if kind == 'unsupported':
                    res['undecided'].append('%s in the encoding: %s\n%s' % (
                        kind, val, tb[-1800:]))
                return False
            st.replayed += 1
            r, info, C = _run_concrete(fn, vals, opts, known)
            if r == 'assume':
                for k in range(8):
                    r, info, C = _run_concrete(
                        fn, dict((n, v) for n, v in vals.items()
                                 if not isinstance(v, Fraction)), opts,
                        known, seed=k)
                    if r != 'assume':
                        vals = dict(C.used)
                        break
            key = 'exception %s' % type(info).__name__ if r == 'exc' else \
                getattr(info, 'key', None)
            if r in ('exc', 'violation'):
                if key in known:
                    res['known'].append(key)
                    return False
                res['violations'].append(dict(
                    key=key, msg=str(getattr(info, 'msg', repr(info))),
                    detail=str(getattr(info, 'detail', '') or
                               getattr(info, '_tb', ''))[-1500:],
                    ops=list(C.ops)[-30:],
                    values=dict((k, str(x)) for k, x in vals.items())))
                return True
            res['undecided'].append('%s in the encoding: %s\n%s' % (
                kind, val, tb[-1800:]))
            return False
        state['tried'] = state.get('tried', 0) + 1
        if (st.validated < max_val and (not ENG.opaque_exp or
                                        state['tried'] < 3 * max_val)) or state['npaths'] % 50 == 0:
            vals = witness(S, path)
            if vals is not None:
                r, info, C = _run_concrete(fn, vals, opts, known)
                if r in ('violation', 'exc'):
                    # must not be a numerical artefact: confirm with other
                    # values before believing it
                    if r == 'exc' or opts.get('trust_witness', True):
                        k2 = 0
                        for k in range(6):
                            gen = dict((n, v) for n, v in vals.items()
                                       if not isinstance(v, Fraction))
                            r2, i2, C2 = _run_concrete(fn, gen, opts, known,
                                                       seed=100 + k)
                            if r2 == r:
                                k2 += 1
                                info, C = i2, C2
                        if k2 >= 1:
                            res['violations'].append(dict(
                                key=getattr(info, 'key', repr(info)),
                                msg='(path witness) ' + str(getattr(
                                    info, 'msg', repr(info))),
                                detail=str(getattr(info, 'detail', '') or
                                           getattr(info, '_tb', ''))[-1500:],
                                ops=list(C.ops)[-30:],
                                values=dict((k, str(x)) for k, x in
                                            C.used.items())))
                            return True
                    res['mismatches'].append('witness: %s %s' % (
                        r, getattr(info, 'msg', repr(info))) +
                        str(getattr(info, '_tb', ''))[-800:] +
                        str(getattr(info, 'detail', ''))[-300:])
                elif r == 'ok':
                    st.validated += 1
                    compare(S, path, C, vals)
        return state['stop']

    def compare(S, path, C, vals):
        if not opts.get('compare', opts.get('linalg_full', True)):
            # LAPACK results were arbitrary (or: the sign is): values need not agree
            return
        if len(S.obs) != len(C.obs):
            res['mismatches'].append('different number of observations '
                                     '%d/%d' % (len(S.obs), len(C.obs)))
            return
        env = dict((k, float(v) if not isinstance(v, bool) else v)
                   for k, v in vals.items())
        cache = {}
        for s, k, t in path.defs:
            try:
                x = ctx.evalf(t, env, cache)
                env[s.decl().name()] = math.exp(x) if k == 'exp' else \
                    math.sqrt(max(0.0, x))
            except (ctx.NoValue, ValueError, OverflowError):
                pass
        for (_, msg, a, b), (_, msg2, ca, cb) in zip(S.obs, C.obs):
            if msg != msg2 or a.shape != ca.shape:
                res['mismatches'].append('observation %s/%s %s/%s' % (
                    msg, msg2, a.shape, ca.shape))
                return
            for p in np.ndindex(*a.shape):
                e = a[p]
                try:
                    if isinstance(e, bool):
                        v = e
                    elif isinstance(e, core.SBool):
                        v = ctx.evalf(e.t, env, cache)
                    else:
                        v = core.num(e).v
                        v = float(v) if core.is_const(v) else \
                            ctx.evalf(v, env, cache)
                except (ctx.NoValue, OverflowError, ZeroDivisionError):
                    continue
                try:
                    c = float(ca[p])
                except TypeError:
                    continue
                if math.isnan(c) or math.isinf(c):
                    continue
                if abs(v - c) > 1e-4 * (1 + abs(c)) * opts.get(
                        'tolscale', 1) and np.asarray(
                        ca).dtype != np.float32:
                    res['mismatches'].append(
                        'model value %r real value %r for %s' % (v, c, msg))
                    return
    try:
        complete = ENG.explore(once, on_path)
    except Exception:
        res['undecided'].append('engine failure: ' +
                                traceback.format_exc()[-3000:])
        complete = False
    sys.monitoring.set_events(3, 0)
    sys.monitoring.free_tool_id(3)
    res['undecided'].extend('solver gave no answer: ' + u
                            for u in ENG.undecided)
    want = opts.get('reach', ())
    if not res['violations']:
        for w in want:
            if w not in res['reached']:
                res['undecided'].append('vacuity: %s never reached' % w)
    res['complete'] = complete
    res['wall_s'] = time.time() - t0
    res['stats'] = st.as_dict()
    res['funcs'] = sorted(funcs)
    res['reached'] = sorted(res['reached'])
    res['bounds'] = opts.get('bounds', '')
    return res
