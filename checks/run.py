#!/opt/venv/bin/python
"""run.py <property>: decide one property on /repo's current working tree.

Exit 0: held on everything discharged / explored.  Exit 1: a VIOLATION line was printed.
Any other exit: the check itself failed.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')

EVID = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')


def check_import():
    import dliswriter
    src = os.path.realpath(dliswriter.__file__)
    want = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    if not src.startswith(want + os.sep):
        print(f"dliswriter is imported from {src}, not from {want}")
        sys.exit(3)


def load_families():
    from harness import families, families2, families3, families4, families5  # noqa: F401


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"finding: property={prop} "):
                out.append(line.strip().split(' ', 2)[2])
    return out


def write_replay(prop, payload):
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    p = os.path.join(EVID, 'replay', f"{prop}.json")
    with open(p, 'w') as f:
        json.dump(payload, f, indent=1, default=str)
    return p


def confirm(prop, seed, fails):
    """Re-run failing cases in fresh processes; -> first confirmed (result, history) or None."""
    from harness import engine
    for r in fails[:6]:
        again = engine.rerun_alone(prop, r['family'], r['i'], seed)
        if again.get('status') == 'fail':
            return again, []
    for r in fails[:3]:
        h = r.get('history') or []
        for hh in (h[-20:], h):
            if not hh:
                continue
            again = engine.rerun_alone(prop, r['family'], r['i'], seed, hh)
            if again.get('status') == 'fail':
                return again, hh
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    check_import()
    load_families()
    from harness import engine

    ded = None
    try:
        from contracts import driver
    except ImportError:
        driver = None
    if driver is not None:
        ded = driver.run(prop, tier)

    budget = 60 if tier == 'quick' else 700
    res, planned = engine.run_property(prop, tier, seed, budget)
    ok = [r for r in res if r['status'] == 'ok']
    fails = sorted((r for r in res if r['status'] == 'fail'), key=lambda r: (r['family'], r['i']))
    conf = confirm(prop, seed, fails) if fails else None

    violations = 0
    lines = []
    if conf:
        r, hist = conf
        violations = 1
        p = write_replay(prop, {'property': prop, 'kind': 'bounded', 'family': r['family'], 'i': r['i'], 'seed': seed,
                                'history': hist, 'msg': r['msg'], 'note': r.get('note'), 'tb': r.get('tb'),
                                'replay_cmd': f"/opt/venv/bin/python {HERE}/checks/replay.py <this file>",
                                'refuted': ded and ded['refuted']})
        print(f"case: {r['family']} #{r['i']} seed {seed} [{r.get('note')}]")
        print(f"what: {r['msg']}")
        lines.append(f"VIOLATION property={prop} replay={p}")
    elif ded and ded['violations']:
        violations = len(ded['violations'])
        v = ded['violations'][0]
        p = write_replay(prop, {'property': prop, 'kind': 'obligation', **v,
                                'replay_cmd': f"/opt/venv/bin/python {HERE}/checks/replay.py <this file>"})
        for x in ded['violations'][:5]:
            print(f"refuted: {x['obligation']}: {x.get('what', '')}")
        lines.append(f"VIOLATION property={prop} replay={p}" + ('' if v.get('replayed') else ' no-failing-input-found'))

    by_fam = {}
    for r in res:
        d = by_fam.setdefault(r['family'], {'ok': 0, 'skip': 0, 'fail': 0})
        d[r['status']] += 1
    distinct = {(r['family'], r['key'] or r['i']) for r in ok}
    rules = {f.name: f.doc for f in engine.FAMILIES.get(prop, {}).values()}
    samples = []
    seen = set()
    for r in ok:
        if r['family'] not in seen or len(samples) < 6:
            seen.add(r['family'])
            samples.append({'family': r['family'], 'case': r['i'], 'note': r['note'] or r['key']})
        if len(samples) >= 12:
            break
    cov = {
        'evaluations': len(ok) + len(fails),
        'distinct_nontrivial': len(distinct),
        'rule': 'bounded run-time contract check of the real code (files written through the public API, read by the '
                'independent reader harness/rp66.py and compared with the specification); a case counts when it was accepted '
                'and compared, distinct by the produced file; families: '
                + '; '.join(f"{k}: {v}" for k, v in sorted(rules.items())),
        'samples': samples,
        'by_family': by_fam,
        'skipped': sum(1 for r in res if r['status'] == 'skip'),
        'planned': planned,
    }
    assumptions = ['bounded layer: finite sample of specifications (seeded), sizes as generated by harness/gen.py',
                   'harness/rp66.py (independent RP66 V1 reader) and harness/model.py (expected content) are right']
    level = 'exploration'
    if ded:
        level = ded.get('level', level)
        cov.update(ded['coverage'])
        assumptions = ded['assumptions'] + assumptions
    unconf = [r for r in fails] if fails and not conf else []
    if unconf:
        cov['unreproduced'] = [{'family': r['family'], 'case': r['i'], 'msg': r['msg'][:300]} for r in unconf[:5]]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
                   'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': violations},
                  f, indent=1, default=str)
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop}: {len(ok)} cases held ({len(distinct)} distinct), {cov['skipped']} skipped, {len(fails)} failed"
          + (f"; obligations {ded['coverage'].get('discharged')}/{ded['coverage'].get('obligations')} discharged,"
             f" {len(ded['undecided'])} undecided" if ded else '') + f"; {time.time() - t0:.1f} s")
    for x in lines:
        print(x)
    if lines:
        sys.exit(1)
    if not distinct and not (ded and ded['coverage'].get('discharged')):
        print('nothing was explored')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
