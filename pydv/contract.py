"""Contract units: each unit states preconditions on the arguments of real functions of /repo, runs the
verifier over their current source, and obliges postconditions."""
import time, os, sys, signal, resource, traceback, multiprocessing, json
from .core import *
from .values import *
from . import core, ring, num
from .interp import Interp, PyRaise, PathEnd

UNITS = []
class Unit:
    def __init__(self, name, fn, targets, timeout, note, complete):
        self.name, self.fn, self.targets, self.timeout, self.note, self.complete = name, fn, targets, timeout, note, complete

def unit(name, targets=(), timeout=60, note='', complete=True):
    """complete: no loop invariant or assumed callee contract stands between the code and the obligations, so a
    satisfiable negated obligation is a refutation and not just an incomplete proof."""
    def d(f):
        UNITS.append(Unit(name, f, list(targets) or [name], timeout, note, complete))
        return f
    return d

class Ctxt:
    """handed to a unit: the interpreter plus bookkeeping"""
    pass

def run_unit(u, q, limit):
    t0 = time.time()
    res = {'unit': u.name, 'obls': [], 'paths': 0, 'error': None, 'inlined': [], 'assumed': [], 'covers': 0, 'vacuous': False}
    def alarm(*a): raise Unsupported('unit time limit')
    try:
        sys.setrecursionlimit(20000)
        signal.signal(signal.SIGALRM, alarm); signal.alarm(int(limit))
        try: resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
        except Exception: pass
        core.reset()
        I = Interp(); I.complete = u.complete
        I.deadline = t0 + limit
        run = u.fn(I)
        pc = list(I.cx.pc)
        r0 = check_sat(pc, 5000)[0]
        res['covers'] += 1
        if r0 == 'unsat': res['vacuous'] = True; res['error'] = 'preconditions are contradictory'
        npost0 = 0
        if run is not None and not res['vacuous']:
            live = 0
            for p, (k, v) in I.explore(run, pc):
                res['paths'] += 1
                if k == 'end': continue
                r = check_sat(p, 3000)[0]
                res['covers'] += 1
                if k == 'raise':
                    if r == 'sat' and (not u.complete or getattr(v, 'weak', False) or v.name in ('AttributeError', 'TypeError', 'NameError') or num.refuted(p) is None): r = 'unknown'
                    if r != 'unsat':
                        I.obls.append(_ob('%s: raises %s (%s)' % (u.name, v.name, str(v.msg)[:80]), 'exc', 'refuted' if r == 'sat' and not getattr(v, 'weak', False) and v.name not in ('AttributeError', 'TypeError', 'NameError') else 'unknown', {'pc': [str(x)[:200] for x in p[-10:]]}))
                    continue
                if r != 'unsat': live += 1
            if not live and res['paths']: res['vacuous'] = True; res['error'] = 'no path reaches the end of the unit'
        for o in I.obls:
            st = o.status
            if st == 'refuted' and (not u.complete or o.kind == 'inv'): st = 'unknown'
            res['obls'].append({'name': o.name, 'kind': o.kind, 'status': st, 'info': o.info, 'backend': o.backend})
        res['inlined'] = sorted({'%s:%s' % (a, b) for a, b, c in I.inlined})
        res['assumed'] = sorted(I.assumed)
        if not any(o['kind'] not in ('safety',) for o in res['obls']) and not res['error']:
            res['vacuous'] = True; res['error'] = 'no obligations generated'
        signal.alarm(0)
    except (Unsupported, Undecided) as e:
        res['error'] = 'unsupported: ' + str(e)
        _salvage(res, locals().get('I'), u)
    except PyRaise as e:
        res['error'] = 'setup raises %s' % e
    except RecursionError:
        res['error'] = 'recursion limit'
    except Exception as e:
        res['error'] = 'engine: %s: %s @ %s' % (type(e).__name__, str(e)[:300], ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))
    finally:
        signal.alarm(0)
    res['time'] = round(time.time() - t0, 2)
    res['solver'] = {'queries': core.STATS['queries'], 'time': round(core.STATS['time'], 2)}
    try: json.dumps(res)
    except Exception: 
        for o in res['obls']: o['info'] = str(o['info'])[:2000]
    q.put(res)

def _salvage(res, I, u):
    if I is None: return
    for o in I.obls:
        st = o.status
        if st == 'refuted' and (not u.complete or o.kind == 'inv'): st = 'unknown'
        res['obls'].append({'name': o.name, 'kind': o.kind, 'status': st, 'info': o.info, 'backend': o.backend})
    res['inlined'] = sorted({'%s:%s' % (a, b) for a, b, c in I.inlined})
    res['assumed'] = sorted(I.assumed)

def _ob(n, k, s, info):
    from .interp import Obligation
    return Obligation(n, k, s, info)

def run_all(units, procs=7, scale=1.0, stop=None):
    """stop(seconds) -> reason to give up on what is still running, or None"""
    t00 = time.time()
    ctx = multiprocessing.get_context('fork')
    pend = list(units); live = []; out = []
    while pend or live:
        while pend and len(live) < procs:
            u = pend.pop(0); q = ctx.Queue()
            lim = u.timeout*scale
            p = ctx.Process(target=run_unit, args=(u, q, lim), daemon=True); p.start()
            live.append((u, p, q, time.time(), lim))
        time.sleep(0.02)
        why = stop(time.time() - t00) if stop else None
        if why:
            for u, p, q, t, lim in live: p.kill(); out.append((u, dead(u, why, time.time() - t)))
            out += [(u, dead(u, why, 0)) for u in pend]; break
        nl = []
        for u, p, q, t, lim in live:
            r = None
            try: r = q.get_nowait()
            except Exception: pass
            if r is None and not p.is_alive():
                try: r = q.get(timeout=0.5)
                except Exception: r = dead(u, 'process died', time.time() - t)
            if r is None and time.time() - t > lim + 15:
                p.kill(); r = dead(u, 'killed at time limit', time.time() - t)
            if r is None: nl.append((u, p, q, t, lim))
            else:
                out.append((u, r)); p.join(2)
                if p.is_alive(): p.kill()
        live = nl
    order = {u.name: i for i, u in enumerate(units)}
    return sorted(out, key=lambda x: order[x[0].name])

def dead(u, why, t):
    return {'unit': u.name, 'obls': [], 'paths': 0, 'error': why, 'inlined': [], 'assumed': [], 'covers': 0, 'vacuous': False, 'time': round(t, 2), 'solver': {'queries': 0, 'time': 0}}
