"""Exploration of one harness configuration, replay, parallel driver, evidence."""
import contextlib
import dataclasses
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for _p in (REPO, VERIF):
    if _p not in sys.path:
        sys.path.insert(0, _p)

import numpy as np
import torch
torch.set_num_threads(1)
from torch.utils._python_dispatch import TorchDispatchMode

from . import terms as T
from . import solver
from . import tensor as ST
from .ctx import (SymCtx, ConcreteCtx, PathInfeasible, Skip, NonPositive, Obligation, Unsupported)
from .numeric import evaluate, EvalError
from .solver import Prover, query, model_env


@dataclasses.dataclass
class Harness:
    name: str
    fn: object
    quick: list
    thorough: list = None
    opts: dict = dataclasses.field(default_factory=dict)
    about: str = ''
    known_label: str = ''       # what its failures say
    known: str = None           # id of a listed finding this harness isolates

    def configs(self, tier):
        if tier == 'thorough' and self.thorough is not None:
            return list(self.quick) + [c for c in self.thorough if c not in self.quick]
        return list(self.quick)


# ----------------------------------------------------------------------
class FunctionTrace:
    """names of the repository functions that actually executed"""
    TOOL = 4

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        self.ok = True
        try:
            mon.use_tool_id(self.TOOL, 'verif')
        except ValueError:
            self.ok = False
            return self
        repo = REPO + os.sep

        def cb(code, off):
            f = code.co_filename
            if f.startswith(repo):
                self.seen.add('%s:%s' % (f[len(repo):], code.co_qualname))
            return mon.DISABLE
        mon.restart_events()
        mon.register_callback(self.TOOL, mon.events.PY_START, cb)
        mon.set_events(self.TOOL, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        if self.ok:
            mon = sys.monitoring
            mon.set_events(self.TOOL, 0)
            mon.register_callback(self.TOOL, mon.events.PY_START, None)
            mon.free_tool_id(self.TOOL)
        return False


class RandomMode(TorchDispatchMode):
    """concrete runs: random draws take the values chosen by the context"""

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        n = ST.opname(func)
        kind = {'randn': 'normal', 'randn_like': 'normal', 'rand': 'uniform', 'rand_like': 'uniform'}.get(n)
        if kind:
            ref = args[0]
            size = tuple(ref.shape) if isinstance(ref, torch.Tensor) else tuple(ref)
            dt = kwargs.get('dtype') or (ref.dtype if isinstance(ref, torch.Tensor) else torch.get_default_dtype())
            vals = [self.ctx.fresh_random(kind) for _ in range(int(np.prod(size, dtype=int)))]
            return torch.tensor(vals, dtype=dt).reshape(size)
        if n in ('normal_', 'uniform_'):
            a = args[0]
            vals = [self.ctx.fresh_random('normal' if n == 'normal_' else 'uniform') for _ in range(a.numel())]
            v = torch.tensor(vals, dtype=a.dtype).reshape(a.shape)
            p = list(args[1:])
            if n == 'normal_':
                m, s = (p + [0., 1.][len(p):])[:2]
                return a.copy_(v * s + m)
            lo, hi = (p + [0., 1.][len(p):])[:2]
            return a.copy_(v * (hi - lo) + lo)
        return func(*args, **kwargs)


_float = torch.Tensor.float


def precision(dtype):
    """Default precision.  Single precision is not modelled: while checking, .float() keeps double precision."""
    torch.set_default_dtype(dtype)
    torch.Tensor.float = (lambda t, *a, **k: t.to(torch.float64)) if dtype == torch.float64 else _float


@contextlib.contextmanager
def quiet():
    """the code under test may print or log"""
    import io
    import logging
    old = sys.stdout, sys.stderr
    lvl = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old
        logging.disable(lvl)


def run_concrete(h, cfg, env, seed=0, tol=None):
    """-> ConcreteCtx (failures filled in)"""
    ctx = ConcreteCtx(env, seed, tol if tol is not None else h.opts.get('tol', 1e-6))
    ctx.record = []
    old = torch.get_default_dtype()
    precision(torch.float64)
    try:
        with quiet(), np.errstate(all='ignore'), RandomMode(ctx):
            try:
                h.fn(ctx, **cfg)
            except (PathInfeasible, Skip):
                ctx.infeasible = True
                ctx.failures = []
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if f.filename.startswith(REPO + os.sep)]
                ctx.failures.append('exception %s: %s%s' % (
                    type(e).__name__, str(e)[:200],
                    ' at %s:%d' % (where[-1].filename, where[-1].lineno) if where else ''))
                ctx.exc_in_repo = bool(where)
    finally:
        precision(old)
    return ctx


def jenv(env):
    return {k: (bool(v) if isinstance(v, bool) else [v.numerator, v.denominator] if isinstance(v, Fraction) else v)
            for k, v in env.items()}


def unjenv(env):
    return {k: (Fraction(v[0], v[1]) if isinstance(v, list) else v) for k, v in env.items()}


class Result:
    def __init__(self, h, cfg):
        self.d = dict(harness=h.name, cfg={k: str(v) for k, v in cfg.items()}, paths=0, obligations=0, proved=0,
                      by_identity=0, inconclusive=[], unsupported=[], violations=[], domain=[], functions=[],
                      ops={}, solver={}, wall_s=0., validated=0, reached=0, variables=0, events={})


def explore(h, cfg, opts):
    """runs in a worker process; returns a plain dict"""
    t0 = time.time()
    deadline = t0 + opts.get('budget', 600)
    res = Result(h, cfg)
    R = res.d
    solver.STATS.__init__()
    ST.USED_OPS.clear()
    opts = dict(opts, **h.opts)
    if opts.get('symbolic_eps'):
        T.symbolic_eps(opts['symbolic_eps'])
    old = torch.get_default_dtype()
    precision(torch.float64)
    trace = FunctionTrace()
    work = [[]]
    candidates = []
    witnesses = []
    allsamples = []
    domain = {}
    max_paths = opts.get('max_paths', 20000)
    try:
        with trace:
            while work:
                if R['violations']:
                    break
                if time.time() > deadline:
                    R['inconclusive'].append('time budget exhausted with %d path prefixes left' % len(work))
                    break
                if R['paths'] >= max_paths:
                    R['inconclusive'].append('path budget exhausted')
                    break
                prefix = work.pop()
                ctx = SymCtx(h, cfg, opts)
                ctx.prefix = list(prefix)
                for k in ('decide', 'concretize', 'need_positive', 'need_nonneg', 'need_nonzero', 'prove'):
                    setattr(T.HOOKS, k, getattr(ctx, k))
                T.HOOKS.float_nan = bool(opts.get('float_nan'))
                ST.RAND.fresh = ctx.fresh_random
                exc = None
                sym = ST.symbolic_torch()
                with quiet(), np.errstate(all='ignore'):
                    sym.__enter__()
                    try:
                        h.fn(ctx, **cfg)
                    except PathInfeasible:
                        exc = 'infeasible'
                    except Skip as e:
                        exc = 'skip'
                        R['inconclusive'].append('skipped: %s' % e)
                    except Unsupported as e:
                        exc = ('unsupported', '%s\n%s' % (e, ''.join(traceback.format_tb(e.__traceback__)[-6:])))
                    except RecursionError as e:
                        exc = ('unsupported', 'recursion limit')
                    except Exception as e:
                        exc = ('exception', '%s: %s' % (type(e).__name__, str(e)[:300]), traceback.format_exc()[-3000:])
                    finally:
                        sym.__exit__(None, None, None)
                        T.HOOKS.printed = None
                for p in ctx.worklist:
                    work.append(p)
                if exc == 'skip':
                    break
                if exc == 'infeasible':
                    continue
                R['paths'] += 1
                R['variables'] = max(R['variables'], len(ctx.vars))
                for k, v in ctx.events.items():
                    R['events'][k] = R['events'].get(k, 0) + v
                for c in ctx.domain:
                    domain[T.show(c, 4)] = 1
                if not ctx.samples:
                    ctx.refill(n=3, tries=400)
                # keep an environment per path for validation
                if ctx.samples:
                    R['reached'] += 1
                if exc is not None and exc[0] == 'unsupported':
                    R['unsupported'].append(exc[1])
                    envs = [e for e, _ in ctx.samples[:3]]
                    hit = try_replay(h, cfg, envs, R, 'while executing a path the encoder cannot follow')
                    if not hit:
                        for s in range(8):
                            c = run_concrete(h, cfg, {}, seed=s)
                            if c.failures:
                                record(R, h, cfg, c, 'concrete run of an unsupported path')
                                break
                    break
                if exc is not None:
                    v, m, tr = query(ctx._conds(), opts.get('timeout', 20000))
                    envs = [e for e, _ in ctx.samples[:3]]
                    if v == 'sat' and m is not None:
                        envs.append(dict(model_env(m, tr, ctx.vars)))
                    if v == 'unsat':
                        continue
                    if not try_replay(h, cfg, envs, R, exc[1]):
                        R['inconclusive'].append('exception on a symbolic path did not reproduce: %s\n%s' % (exc[1], exc[2]))
                        break
                    continue
                discharge(ctx, h, cfg, opts, R, deadline)
                if ctx.samples and len(allsamples) < opts.get('validate', 6):
                    env = dict(ctx.samples[0][0])
                    allsamples.append((env, list(ctx.obligations)))
            # encoding validation: the real code on inputs of explored paths
            if not R['violations']:
                for env, obs in allsamples:
                    validate(h, cfg, env, obs, R, opts)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        R['inconclusive'].append('internal error: %s\n%s' % (e, traceback.format_exc()[-3000:]))
    finally:
        precision(old)
    R['functions'] = sorted(trace.seen)
    R['ops'] = dict(ST.USED_OPS)
    R['solver'] = solver.STATS.as_dict()
    R['domain'] = sorted(domain)[:20]
    R['wall_s'] = round(time.time() - t0, 2)
    if R['paths'] and not R['reached'] and not R['violations']:
        R['inconclusive'].append('no concrete input reaching the assertions was found (vacuity guard)')
    if not R['obligations'] and not R['violations'] and not R['unsupported'] and not R['inconclusive']:
        R['inconclusive'].append('the harness discharged no obligation')
    return R


def validate(h, cfg, env, obs, R, opts):
    vals = []
    c = ConcreteCtx(env, 1, h.opts.get('tol', 1e-6))
    rec = []
    orig = c.check_eq

    def check_eq(label, a, b, tol=None):
        rec.append((label, a))
        orig(label, a, b, tol)
    c.check_eq = check_eq
    old = torch.get_default_dtype()
    precision(torch.float64)
    try:
        with quiet(), np.errstate(all='ignore'), RandomMode(c):
            try:
                h.fn(c, **cfg)
            except (PathInfeasible, Skip):
                return
            except Exception as e:
                c.failures.append('exception %s: %s' % (type(e).__name__, str(e)[:300]))
    finally:
        precision(old)
    if c.failures:
        record(R, h, cfg, c, 'concrete execution on an input of an explored path')
        return
    sym, count = {}, {}
    for o in obs:
        if o.kind == 'eq':
            sym.setdefault(o.label, []).append(o)
    for label, _ in rec:
        count[label] = count.get(label, 0) + 1
    sym = {k: list(reversed(v)) for k, v in sym.items() if len(v) == count.get(k)}
    memo = {}
    n = 0
    full = {k: v for k, v in env.items()}
    for label, a in rec:
        o = sym[label].pop() if label in sym else None
        if o is None:
            continue
        try:
            s = float(evaluate(o.a, full, memo))
            a = float(a.item() if hasattr(a, 'item') else a)
        except (EvalError, KeyError, TypeError, OverflowError, ValueError):
            continue
        n += 1
        if not (abs(s - a) <= h.opts.get('validate_tol', 1e-5) * (1 + abs(a)) or (math.isnan(s) and math.isnan(a))):
            if math.isinf(a) and math.isinf(s):
                continue
            R['inconclusive'].append('encoding mismatch at %s: symbolic %r, concrete %r' % (label, s, a))
            return
    R['validated'] += n


def record(R, h, cfg, c, why):
    R['violations'].append(dict(harness=h.name, cfg=cfg_json(cfg), env=jenv(c.used), failures=c.failures[:5], why=why))


def cfg_json(cfg):
    return {k: (v if isinstance(v, (int, float, str, bool, list, type(None))) else list(v) if isinstance(v, tuple) else str(v))
            for k, v in cfg.items()}


def try_replay(h, cfg, envs, R, why, label=None):
    for env in envs:
        if env is None:
            continue
        for seed in (0, 1):
            c = run_concrete(h, cfg, env, seed)
            if c.failures:
                record(R, h, cfg, c, why)
                return True
    return False


def discharge(ctx, h, cfg, opts, R, deadline):
    conds = ctx._conds()
    if len(ctx.samples) < 3:
        ctx.refill(n=3, tries=100)
    samples = [e for e, _ in ctx.samples[:3]]
    prover = Prover(conds, samples, opts.get('timeout', 20000))
    bools = [o for o in ctx.obligations if o.kind == 'bool']
    eqs = [o for o in ctx.obligations if o.kind == 'eq']
    R['obligations'] += len(ctx.obligations)
    pend = []
    for o in bools:
        if o.a.op == 'c' and o.a.args:
            R['proved'] += 1
            R['by_identity'] += 1
        else:
            pend.append(o)
    if pend:
        done = False
        if len(pend) > 1 and not any(o.a.op == 'c' for o in pend):
            v, m, tr = query(conds + [T.lnot(T.land(*[o.a for o in pend]))], opts.get('timeout', 20000))
            if v == 'unsat':
                R['proved'] += len(pend)
                done = True
        if not done:
            for o in pend:
                if time.time() > deadline:
                    R['inconclusive'].append('time budget exhausted')
                    return
                if R['violations']:
                    return
                neg = conds + [T.lnot(o.a)]
                v, m, tr = query(neg, opts.get('timeout', 20000))
                if v == 'unsat':
                    R['proved'] += 1
                    continue
                v2, m2, tr2 = query(neg, opts.get('timeout', 20000), facts=True)
                if v2 == 'unsat':
                    R['proved'] += 1
                    continue
                envs = []
                for mm, tt in ((m2, tr2), (m, tr)):
                    if mm is not None:
                        envs.append(model_env(mm, tt, ctx.vars))
                for e in samples:
                    try:
                        if not evaluate(o.a, e, {}):
                            envs.insert(0, e)
                    except (EvalError, KeyError):
                        pass
                envs += search(ctx, conds, o, opts)
                if not try_replay(h, cfg, envs, R, 'solver counterexample to: ' + o.label):
                    R['inconclusive'].append('%s: solver says %s/%s, no counterexample reproduced; %s' % (
                        o.label, v, v2, T.show(o.a, 4)[:300]))
                    if len(R['inconclusive']) > 5:
                        return
    for o in eqs:
        if R['violations']:
            return
        if time.time() > deadline:
            R['inconclusive'].append('time budget exhausted')
            return
        if o.a is o.b:
            R['proved'] += 1
            R['by_identity'] += 1
            continue
        try:
            v, env = prover.decide_eq(o.a, o.b)
        except Unsupported as e:
            v, env = 'unknown', None
        if v == 'unsat':
            R['proved'] += 1
            continue
        envs = []
        d = T.sub(o.a, o.b)
        for e in samples:
            try:
                if abs(evaluate(d, e, {})) > 1e-9:
                    envs.append(e)
            except (EvalError, KeyError, OverflowError):
                envs.append(e)
        if env:
            envs.append(env)
        envs += search(ctx, conds, o, opts) if not envs else []
        if not try_replay(h, cfg, envs, R, 'solver counterexample to: ' + o.label):
            R['inconclusive'].append('%s: solver says %s, no counterexample reproduced; %s' % (o.label, v, T.show(d, 5)[:400]))
            if len(R['inconclusive']) > 5:
                return


def search(ctx, conds, o, opts):
    """further witnesses: random points satisfying the path where the claim fails"""
    out = []
    t0 = time.time()
    for _ in range(300):
        if time.time() - t0 > 3 or len(out) >= 2:
            break
        env = {k: ctx._draw(k) for k in ctx.vars}
        memo = {}
        try:
            if not ctx._holds(conds, env, memo):
                continue
            if o.kind == 'bool':
                if not evaluate(o.a, env, memo):
                    out.append(env)
            elif abs(evaluate(o.a, env, memo) - evaluate(o.b, env, memo)) > 1e-9:
                out.append(env)
        except (EvalError, KeyError, OverflowError):
            continue
    return out


# ----------------------------------------------------------------------
def _child(h, cfg, opts, conn):
    try:
        import resource
        lim = opts.get('mem_gb', 12) << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        r = explore(h, cfg, opts)
    except BaseException as e:
        r = Result(h, cfg).d
        r['inconclusive'].append('worker died: %r' % e)
    conn.send(r)
    conn.close()


def run_all(tasks, opts, jobs=None, deadline=None):
    """tasks: [(harness, cfg)] -> results, each in its own forked process"""
    import multiprocessing as mp
    mpc = mp.get_context('fork')
    jobs = jobs or min(8, os.cpu_count() or 4)
    pending = list(enumerate(tasks))
    running = {}
    results = [None] * len(tasks)
    stop = False
    from multiprocessing.connection import wait
    while pending or running:
        while pending and len(running) < jobs and not stop:
            i, (h, cfg) = pending.pop(0)
            rx, tx = mpc.Pipe(False)
            p = mpc.Process(target=_child, args=(h, cfg, opts, tx))
            p.start()
            tx.close()
            running[rx] = (i, p, time.time())
        if not running:
            break
        for rx in wait(list(running), timeout=1.0):
            i, p, t = running.pop(rx)
            try:
                results[i] = rx.recv()
            except EOFError:
                r = Result(*tasks[i]).d
                r['inconclusive'].append('worker ended without an answer (memory limit?)')
                results[i] = r
            p.join()
        now = time.time()
        for rx, (i, p, t) in list(running.items()):
            if now - t > opts.get('budget', 600) + 60 or (deadline and now > deadline):
                os.kill(p.pid, signal.SIGKILL)
                p.join()
                running.pop(rx)
                r = Result(*tasks[i]).d
                r['inconclusive'].append('killed after %.0f s' % (now - t))
                r['wall_s'] = now - t
                results[i] = r
    for i, r in enumerate(results):
        if r is None:
            r = Result(*tasks[i]).d
            r['inconclusive'].append('not run')
            results[i] = r
    return results
