"""Runs groups of proof obligations in worker processes and classifies the outcome."""
import multiprocessing as mp, time, traceback, sys, os, resource
from . import symex
from .symex import Unsupported

class Group:
    """one function (or family) under contract"""
    def __init__(s, name, functions, run, theory=None, timeout=4000, max_paths=3000, setup=None, limit=240):
        s.name = name; s.functions = functions; s.run = run; s.theory = theory; s.timeout = timeout; s.max_paths = max_paths; s.setup = setup; s.limit = limit

def run_group(db, g):
    t0 = time.time()
    res = dict(name=g.name, functions=list(g.functions), status='error', obligations=0, discharged=0, failed=[], wall=0)
    try:
        th = g.theory() if g.theory else None
        eng = symex.Engine(db, th, timeout=g.timeout, max_paths=g.max_paths)
        if g.setup: g.setup(eng)
        obl = eng.explore(g.run)
        seen = {}
        for o in obl:
            e = seen.setdefault(o.name, [0, 0]); e[0] += 1; e[1] += bool(o.ok)
            if not o.ok: res['failed'].append(dict(obligation=o.name, status='refuted' if str(o.status).startswith('refuted') and not o.used_inv else 'false' if o.status == 'false' and not o.used_inv else 'open', detail=o.detail, path=o.path))
        res['obligations'] = len(obl) + eng.obl_inv; res['discharged'] = sum(1 for o in obl if o.ok) + eng.obl_inv
        res['names'] = {k: v for k, v in seen.items()}
        res['stats'] = dict(queries=eng.stats['queries'], solver_s=round(eng.stats['solver_s'], 2), paths=eng.stats['paths'], algebra=eng.stats.get('algebra', 0),
                            inlined=sorted(eng.stats['inlined']), contracts=sorted(eng.stats['contracts']), models=sorted(eng.stats['models']), asserts=eng.stats['asserts_skipped'])
        if not obl: res['status'] = 'vacuous'
        elif not res['failed']: res['status'] = 'proved'
        elif any(f['status'] in ('refuted', 'false') for f in res['failed']): res['status'] = 'refuted'
        elif eng.unknowns: res['status'] = 'inconclusive'      # a solver gave up somewhere: no verdict
        else: res['status'] = 'open'
    except Unsupported as ex:
        res['status'] = 'unsupported'; res['error'] = str(ex)
        if os.environ.get('B2V_TRACE'): traceback.print_exc()
    except Exception as ex:
        res['status'] = 'unsupported'; res['error'] = 'internal: %s: %s' % (type(ex).__name__, ex)
        if os.environ.get('B2V_TRACE'): traceback.print_exc()
    res['wall'] = round(time.time()-t0, 2)
    return res

def _child(db, g, conn):
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    try: conn.send(run_group(db, g))
    except BaseException as ex:
        try: conn.send(dict(name=g.name, functions=list(g.functions), status='unsupported', error=repr(ex), obligations=0, discharged=0, failed=[], wall=0))
        except Exception: pass
    conn.close()

def run_all(db, groups, jobs=8, deadline=None):
    ctx = mp.get_context('fork')
    todo = list(groups); live = []; out = {}
    while todo or live:
        while todo and len(live) < jobs:
            g = todo.pop(0); a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(db, g, b)); p.start(); b.close(); live.append((g, p, a, time.time()))
        time.sleep(0.02)
        for it in list(live):
            g, p, a, t = it
            done = False
            if a.poll():
                try: out[g.name] = a.recv()
                except EOFError: out[g.name] = dict(name=g.name, functions=list(g.functions), status='unsupported', error='worker died', obligations=0, discharged=0, failed=[], wall=0)
                done = True
            elif not p.is_alive():
                out[g.name] = dict(name=g.name, functions=list(g.functions), status='unsupported', error='worker died', obligations=0, discharged=0, failed=[], wall=0); done = True
            elif time.time()-t > g.limit or (deadline and time.time() > deadline):
                p.kill(); out[g.name] = dict(name=g.name, functions=list(g.functions), status='timeout', error='time limit', obligations=0, discharged=0, failed=[], wall=round(time.time()-t, 1)); done = True
            if done: p.join(5); live.remove(it)
    return [out[g.name] for g in groups]
