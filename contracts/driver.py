"""Deductive layer of a check: generate and discharge the obligations of a property from the current source tree.

Alarm policy (see DESIGN.md):
  proved       every obligation of the contract was discharged and the contract is not vacuous
  violated     an obligation is refuted and the counterexample (or one near it) fails natively     -> VIOLATION
  refuted      a property-level obligation is refuted by a precise counterexample and no native replay could be built
               -> VIOLATION ... no-failing-input-found
  undecided    anything else (source construct outside the verifier's reach, solver timeout, function renamed,
               imprecise refutation that neither unrolling nor native replay confirms): the bounded layer decides alone
"""
from __future__ import annotations

import importlib
import json
import logging
import os
import signal
import sys
import tempfile
import time
import traceback

import pyvc  # noqa: F401  (makes z3 importable)

HERE = os.path.dirname(os.path.abspath(__file__))
NPROC = 8
SIGNATURE_CHANGED = 'the function under contract has another signature'


def load():
    for f in sorted(os.listdir(HERE)):
        if f.startswith('o_') and f.endswith('.py'):
            importlib.import_module('contracts.' + f[:-3])
    from . import core
    return core


def vacuous(o, vc):
    """Why the discharged obligations say nothing, or None."""
    if not vc.obl:
        return 'no obligation was generated'
    for group in o.covers:
        if not any(vc.covers.get(x) for x in group.split('|')):
            return f"never reached: {group}"
    return None


def judge(o, inline, budget=None):
    """Run one obligation. -> JSON-able verdict (in the current process)"""
    from . import core
    core.set_inline(inline)
    t = time.time()
    d = {'name': o.name, 'status': 'undecided', 'why': '', 'obl': {}, 'functions': [], 'trusted': [], 'used': [], 'paths': 0,
         'queries': 0, 'solver_s': 0., 'internal': o.internal}
    vc = core.run_obligation(o, budget=budget)
    take(d, vc)
    d['relies'] = list(o.uses)
    bad = {k: v for k, v in vc.obl.items() if v['status'] != 'proved'}
    ref = {k: v for k, v in bad.items() if v['status'] == 'refuted'}
    if vc.missing:
        d['why'] = f"function under contract not found: {vc.missing}"
    elif not bad and not vc.unsupported:
        v = vacuous(o, vc)
        d['status'], d['why'] = ('undecided', f"vacuous: {v}") if v else ('proved', '')
    elif ref:
        k, v = next(iter(ref.items()))
        d['what'] = f"{k}: {v.get('detail')} [{v.get('model')}]"
        d['failed'] = k
        w = native(o, v.get('values') or {})
        if w is core.SIGNATURE:
            d['why'] = SIGNATURE_CHANGED
        elif w:
            d['status'], d['what'], d['values'], d['replayed'] = 'violated', w, v.get('values'), True
        else:
            prec, tried = v.get('precise'), [v]
            if not prec:
                vc2 = core.run_obligation(o, unroll=o.unroll, budget=budget)
                d['solver_s'] += vc2.solver_s
                d['queries'] += vc2.queries
                for k2, v2 in vc2.obl.items():
                    if v2['status'] == 'refuted':
                        w = native(o, v2.get('values') or {})
                        d['failed'] = k2
                        d['what'] = f"{k2}: {v2.get('detail')} [{v2.get('model')}]"
                        if w and w is not core.SIGNATURE:
                            d['status'], d['what'], d['values'], d['replayed'] = 'violated', w, v2.get('values'), True
                            break
                        prec = w is not core.SIGNATURE
            if d['status'] != 'violated':
                if prec and not o.internal and not o.complete_replay:
                    d['status'] = 'refuted'
                    d['values'] = v.get('values')
                else:
                    d['why'] = 'refuted, but ' + ('not confirmed with the loops unrolled' if not prec else
                                                  'an internal contract' if o.internal else 'the native replay agrees with the contract')
    else:
        d['why'] = '; '.join(vc.unsupported[:2] + [f"{k}: {v['status']}" for k, v in list(bad.items())[:2]])[:600]
        if vc.crash:
            d['crash'] = vc.crash
    if d['status'] == 'undecided' and not o.internal and d['why'] != SIGNATURE_CHANGED and not vc.missing:
        w, k = sampled(o)
        d['samples'] = k
        if w:
            d['status'], d['what'], d['values'], d['replayed'] = 'violated', w, {'random sample': k}, True
    d['s'] = round(time.time() - t, 2)
    return d


def take(d, vc):
    d['obl'] = {k: {'status': v['status'], 'paths': v['paths'], 'backend': v.get('backend')} for k, v in vc.obl.items()}
    d['functions'] = sorted(str(f) for f in vc.functions)
    d['trusted'] = sorted(vc.trusted)
    d['used'] = sorted(vc.used_contracts)
    d['relies'] = []
    d['paths'], d['queries'], d['solver_s'], d['cvc5'] = vc.paths, vc.queries, vc.solver_s, vc.cvc5_used
    d['covers'] = dict(vc.covers)


def native(o, values):
    if o.replay is None:
        return None
    try:
        signal.alarm(120)
        return o.replay(values)
    except Exception:
        return None
    finally:
        signal.alarm(0)


def sampled(o, seconds=6, n=200):
    """A contract which is not decided is still an oracle: compare it with the function on random inputs. -> (what fails, number of samples)"""
    from . import core
    k, t = 0, time.time()
    try:
        signal.alarm(100)
        while getattr(o, 'crosscheck', None) and k < n and time.time() - t < seconds:
            k += 1
            w = o.crosscheck(k)
            if w is core.SIGNATURE:
                break
            if w:
                return w, k
    except Exception:
        pass
    finally:
        signal.alarm(0)
    return None, k


def run_many(names, inline, deadline, enough=()):
    """Each obligation in a forked process; 20 s after one of `enough` is violated, the rest is left. -> {name: verdict}"""
    from . import core
    out, todo, live = {}, list(names), {}
    d = tempfile.mkdtemp(prefix='dv_obl_')
    try:
        k, found = 0, float('inf')
        while todo or live:
            while todo and len(live) < NPROC:
                n = todo.pop(0)
                if time.time() > min(deadline, found):
                    out[n] = {'name': n, 'status': 'undecided', 'why': 'not started: time is up' if time.time() > deadline else 'left after a violation', 'obl': {}, 'functions': [],
                              'trusted': [], 'used': [], 'paths': 0, 'queries': 0, 'solver_s': 0., 'internal': True}
                    continue
                k += 1
                p = os.path.join(d, str(k))
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        logging.disable(logging.CRITICAL)
                        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)          # (progress bars)
                        os.environ['TMPDIR'] = d
                        tempfile.tempdir = d
                        r = judge(core.OBLIGATIONS[n], inline)
                    except BaseException as e:
                        r = {'name': n, 'status': 'undecided', 'why': f"internal error: {type(e).__name__}: {e}", 'obl': {}, 'functions': [],
                             'trusted': [], 'used': [], 'paths': 0, 'queries': 0, 'solver_s': 0., 'internal': True,
                             'crash': traceback.format_exc()[-1500:]}
                    try:
                        with open(p, 'w') as f:
                            json.dump(r, f, default=repr)
                    finally:
                        os._exit(0)
                live[pid] = (n, p, time.time())
            for pid in list(live):
                n, p, t0 = live[pid]
                got, st = os.waitpid(pid, os.WNOHANG)
                if not got and (time.time() - t0 > core.OBLIGATIONS[n].budget * 2 + 150 or time.time() > min(deadline + 200, found + 20)):
                    os.kill(pid, signal.SIGKILL)
                    continue
                if got:
                    del live[pid]
                    try:
                        with open(p) as f:
                            out[n] = json.load(f)
                        if out[n]['status'] == 'violated' and n in enough:
                            found = min(found, time.time())
                    except (OSError, ValueError):
                        out[n] = {'name': n, 'status': 'undecided', 'why': f"process ended with status {st}", 'obl': {}, 'functions': [],
                                  'trusted': [], 'used': [], 'paths': 0, 'queries': 0, 'solver_s': 0., 'internal': True}
            time.sleep(0.01)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return out


def run(prop, tier='quick'):
    core = load()
    t0 = time.time()
    deadline = t0 + (320 if tier == 'quick' else 500)
    mine = sorted((n for n, o in core.OBLIGATIONS.items() if prop in o.props), key=lambda n: core.OBLIGATIONS[n].budget)
    if not mine:
        return None
    res, inline = {}, set()
    relied = {u for n in mine for u in core.OBLIGATIONS[n].uses if u in core.OBLIGATIONS and u not in mine}
    pending = sorted(relied) + mine         # (first what the others rely upon)
    for rnd in range(6):
        res.update(run_many(pending, inline, deadline, set(mine)))
        if any(res[n]['status'] == 'violated' for n in mine if n in res):
            break
        used = {u for r in res.values() for u in r['used'] + r.get('relies', [])}
        extra = [u for u in used if u not in res]
        if extra:
            res.update(run_many(extra, inline, deadline))
            used = {u for r in res.values() for u in r['used']}
        # a contract that is not proved on this tree may not be relied upon: the callers are verified with the body instead
        weak = {u for u in used if u in res and res[u]['status'] != 'proved'} - inline
        missing = [u for u in used if u not in res]
        if not weak and not missing:
            break
        inline |= weak
        pending = [n for n, r in res.items() if set(r['used']) & weak] + missing
    for r in res.values():
        lost = [u for u in r.get('relies', ()) if u not in res or res[u]['status'] != 'proved']
        if r['status'] == 'proved' and lost:
            r['status'], r['why'] = 'undecided', f"relies on a contract that is not proved on this tree: {', '.join(lost)}"
    inprop = {n: r for n, r in res.items()}
    violations, undecided = [], []
    for n, r in inprop.items():
        o = core.OBLIGATIONS[n]
        if r['status'] == 'proved':
            continue
        if n in mine and r['status'] == 'violated':
            violations.append({'obligation': n, 'what': r['what'], 'replayed': True, 'values': r.get('values'), 'failed': r.get('failed')})
        elif n in mine and r['status'] == 'refuted':
            violations.append({'obligation': n, 'what': r['what'], 'replayed': False, 'values': r.get('values'), 'failed': r.get('failed')})
        else:
            undecided.append({'obligation': n, 'why': (r.get('why') or r.get('what') or '')[:400], 'samples compared natively instead': r.get('samples', 0)})
    violations.sort(key=lambda v: not v['replayed'])
    obl = [(n, k, v) for n, r in inprop.items() for k, v in r['obl'].items()]
    fresh = len([1 for n, r in inprop.items() if not r['obl']])
    good = {n for n, r in inprop.items() if r['status'] == 'proved'}
    disch = [x for x in obl if x[0] in good and x[2]['status'] == 'proved']
    functions = sorted({f for n in good for f in inprop[n]['functions']})
    trusted = sorted({f for r in inprop.values() for f in r['trusted']})
    cov = {
        'obligations': len(obl) + fresh,
        'discharged': len(disch),
        'contracts': len(inprop),
        'contracts_proved': len(good),
        'checker_cmd': f"/opt/venv/bin/python checks/run.py {prop}  (pyvc: obligations generated from /repo's source by symbolic "
                       "interpretation of its syntax trees, discharged by z3, unknown answers retried with cvc5)",
        'trusted_base': ['pyvc (the verification condition generator, /verif/pyvc) and its models of Python built-ins',
                         'z3 4.x (python bindings), cvc5 1.1.2', 'the specification functions in contracts/spec.py and contracts/o_*.py'] + trusted,
        'functions_under_contract': functions,
        'backends': {b: sum(1 for x in disch if x[2].get('backend') == b) for b in {x[2].get('backend') for x in disch}},
        'paths': sum(r['paths'] for r in inprop.values()),
        'solver_queries': sum(r['queries'] for r in inprop.values()),
        'solver_s': round(sum(r['solver_s'] for r in inprop.values()), 2),
        'deductive_wall_s': round(time.time() - t0, 2),
        'contract_verdicts': {n: r['status'] for n, r in inprop.items()},
        'undecided': undecided,
        'callee_contracts_not_relied_upon': sorted(inline),
    }
    assumptions = ['machine integers of Python are unbounded (exact); floats are only moved, compared and packed (struct), not computed with, '
                   'except where a contract says so', 'memory exhaustion, signals and concurrent mutation are out of scope'] + trusted
    from . import levels
    level, _, note = levels.LEVELS.get(prop, ('exploration', '', ''))
    cov['explanation'] = note
    if level == 'proof' and (undecided or len(good) < len(inprop)):
        level = 'exploration'
    return {'refuted': [v['obligation'] for v in violations], 'violations': violations, 'undecided': undecided, 'coverage': cov,
            'assumptions': assumptions, 'level': level}


def replay(d):
    """Re-run the obligation a VIOLATION named. -> exit status"""
    core = load()
    o = core.OBLIGATIONS.get(d['obligation'])
    if o is None:
        print('no such obligation', d['obligation'])
        return 2
    r = run_many([o.name], (), time.time() + 600)[o.name]
    print(json.dumps(r, indent=1, default=repr)[:6000])
    return 1 if r['status'] in ('violated', 'refuted') else 0
