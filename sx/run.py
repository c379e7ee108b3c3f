"""Exploration of one harness shape, and concrete replay."""
import random
import sys
import time
import traceback

from . import core, hooks
from .ctx import SymCtx, ConCtx, Violation, AssumptionFailed, Diverged


_MON = {'on': False, 'funcs': set()}


def _start_monitor(prefixes):
    mon = sys.monitoring
    if _MON['on']:
        return
    try:
        mon.use_tool_id(mon.COVERAGE_ID, 'sx')
    except ValueError:
        return

    def start(code, offset):
        if any(p in code.co_filename for p in prefixes):
            if code.co_name not in ('<module>', '<lambda>', '<listcomp>', '<genexpr>'):
                fn = code.co_filename
                for p in prefixes:
                    if p in fn:
                        fn = fn[fn.index(p) + len(p):].lstrip('/')
                _MON['funcs'].add('%s:%s' % (fn, code.co_qualname))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)
    _MON['on'] = True


def explore(fn, shape, *, known=(), prefix=(), slice_s=15.0, deadline=None, max_paths=None,
            witnesses=6, seed=1, max_violations=4, setup=None, prefixes=('/repo/',)):
    """returns a result dict; 'frontier' holds the sub-trees left when the time slice ended"""
    _start_monitor(prefixes)
    eng = core.Engine(deadline=deadline)
    eng.forced = list(prefix)
    core.set_engine(eng)
    rnd = random.Random(seed)
    res = {
        'violations': [], 'known': [], 'witnesses': [], 'reached': set(), 'frontier': [],
        'incomplete': {}, 'undecided': [],
    }
    t_end = time.time() + slice_s
    labels = {}
    nwit = 0
    while True:
        eng.reset_path()
        ctx = SymCtx(eng, known)
        hooks.OVERRIDES.clear()
        hooks.METHOD_OVERRIDES.clear()
        eng.active = True
        status = 'ok'
        try:
            fn(ctx, **shape)
        except core.PathAbort:
            status = 'abort'
        except core.BudgetExceeded as e:
            status = 'budget'
            key = 'budget: %s' % e
            res['incomplete'][key] = res['incomplete'].get(key, 0) + 1
        except (core.Unsupported, core.Divergence, RecursionError) as e:
            status = 'unsupported'
            key = '%s: %s' % (type(e).__name__, e)
            res['incomplete'][key] = res['incomplete'].get(key, 0) + 1
        except Exception as e:  # pylint: disable=broad-except
            status = 'exception'
            tb = traceback.extract_tb(e.__traceback__)
            where = [t for t in tb if '/repo/' in t.filename]
            label = 'exception:%s' % type(e).__name__
            try:
                m = ctx.path_model()
                if m is not None:
                    ctx.violations.append({
                        'label': label, 'inputs': ctx.inputs_of(m),
                        'detail': '%s at %s' % (
                            _safe(e), '%s:%s' % (where[-1].name, where[-1].lineno) if where else '?'),
                    })
            except core.SxSignal:
                pass
        finally:
            eng.active = False
        eng.stats.paths += 1
        if status == 'abort':
            eng.stats.aborted += 1
        res['reached'] |= ctx.reached
        for v in ctx.violations:
            n = labels.get(v['label'], 0)
            labels[v['label']] = n + 1
            if n < max_violations:
                res['violations'].append(v)
        for k in ctx.known_hits:
            if len(res['known']) < 20:
                res['known'].append(k)
        if status in ('ok', 'unsupported') and not ctx.violations:
            nwit += 1
            take = len(res['witnesses']) < witnesses or rnd.random() < witnesses / nwit
            if take or (status == 'unsupported' and len(res['undecided']) < 50):
                try:
                    eng.active = True
                    m = ctx.path_model()
                    if m is not None:
                        w = {
                            'inputs': ctx.inputs_of(m),
                            'observed': [(n, ctx.eval_value(m, v)) for n, v in ctx.observed],
                        }
                        if status == 'unsupported':
                            res['undecided'].append(w)
                        elif len(res['witnesses']) < witnesses:
                            res['witnesses'].append(w)
                        else:
                            res['witnesses'][rnd.randrange(witnesses)] = w
                except core.SxSignal:
                    pass
                finally:
                    eng.active = False
        if status == 'budget' and deadline is not None and time.time() > deadline:
            break
        if not eng.next_trail():
            break
        if max_paths and eng.stats.paths >= max_paths:
            res['incomplete']['path budget'] = 1
            break
        if time.time() > t_end:
            res['frontier'] = eng.frontier_with_current()
            break
    res['stats'] = eng.stats.as_dict()
    res['functions'] = sorted(_MON['funcs'])
    res['foreign'] = sorted(hooks.FOREIGN_CONCRETISED)
    res['reached'] = sorted(res['reached'])
    return res


def _safe(e):
    try:
        return ascii(str(e))[:200]
    except BaseException:
        return type(e).__name__


def replay(fn, shape, inputs):
    ctx = ConCtx(inputs)
    try:
        fn(ctx, **shape)
    except Violation as v:
        return {'status': 'violation', 'label': v.label, 'detail': ascii(repr(v.detail))[:2000],
                'observed': ctx.observed}
    except Diverged as e:
        return {'status': 'diverged', 'detail': str(e), 'observed': ctx.observed}
    except AssumptionFailed:
        return {'status': 'assumption', 'observed': ctx.observed}
    except Exception as e:  # pylint: disable=broad-except
        return {'status': 'violation', 'label': 'exception:%s' % type(e).__name__,
                'detail': traceback.format_exc()[-3000:], 'observed': ctx.observed}
    return {'status': 'ok', 'observed': ctx.observed, 'reached': sorted(ctx.reached)}
