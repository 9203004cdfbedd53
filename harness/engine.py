"""Case engine of the bounded (run-time) layer: families of cases per property, a worker pool, replay."""
from __future__ import annotations
import hashlib
import json
import logging
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

FAMILIES: dict = {}          # property -> {name: Family}
CASE_TIMEOUT = 60
# multiples of the families' base counts in the quick tier (about 20 s on 8 cores)
SCALE = dict(C01=6, C02=6, C03=7, C04=4, C05=4, C06=20, C07=4, C08=8, C09=6, C10=6, C11=6, C12=6, C13=12, C14=1.2, C15=10,
             C16=12, C17=12, C18=5, C19=20, C20=8)


class Skip(Exception):
    """The case says nothing about the property (e.g. the specification was rejected)."""


class Violation(Exception):
    """The real code broke the property on this case."""


class CaseTimeout(BaseException):
    pass


class Family:
    def __init__(self, prop, name, fn, quick, on_raise):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.on_raise = quick, on_raise
        self.doc = (fn.__doc__ or '').strip().split('\n')[0]


def family(props, quick, on_raise='skip'):
    """Register a family for one or more properties. `props`: 'C01' or {'C01': ...}."""
    def deco(fn):
        for p in props.split():
            FAMILIES.setdefault(p, {})[fn.__name__] = Family(p, fn.__name__, fn, quick, on_raise)
        return fn
    return deco


class Ctx:
    """What a case gets: an index, random choices derived from (seed, family, index), a scratch directory."""

    def __init__(self, fam: Family, i: int, seed: int, tmp: str):
        self.fam, self.i, self.seed, self.tmp, self.prop = fam, i, seed, tmp, fam.prop
        self.r = random.Random(f"{fam.name}|{seed}|{i}")
        self.note = ''
        self.key = None
        self.weight = 1

    def path(self, name='out.dlis'):
        return os.path.join(self.tmp, name)

    def valid(self, fn, *a, **k):
        """Run a step that must work for the property to say anything (or must work at all: on_raise='fail')."""
        try:
            return fn(*a, **k)
        except (Violation, Skip):
            raise
        except Exception as e:
            if self.fam.on_raise == 'fail':
                raise Violation(f"valid input rejected: {type(e).__name__}: {e}") from e
            raise Skip(f"{type(e).__name__}: {e}") from e

    def result(self, b):
        """note the produced file (distinctness is counted on its digest)"""
        self.key = hashlib.sha256(b).hexdigest()[:16]
        return b


def run_case(prop, name, i, seed, tmp):
    """-> dict(status ok|skip|fail, msg, key, note)"""
    from . import model, rp66
    fam = FAMILIES[prop][name]
    cx = Ctx(fam, i, seed, tmp)
    out = {'family': name, 'i': i, 'status': 'ok', 'msg': ''}
    try:
        fam.fn(cx)
    except Skip as e:
        out.update(status='skip', msg=str(e)[:300])
    except (Violation, model.Mismatch, rp66.RP66Error) as e:
        out.update(status='fail', msg=f"{type(e).__name__}: {e}"[:1500])
    except CaseTimeout:
        out.update(status='fail', msg=f"no result within {CASE_TIMEOUT} s")
    except MemoryError:
        out.update(status='fail', msg="out of memory (4 GB limit per worker)")
    except Exception as e:
        out.update(status='fail', msg=f"unexpected {type(e).__name__}: {e}"[:1500],
                   tb=traceback.format_exc()[-3000:])
    out['key'], out['note'], out['weight'] = cx.key, str(cx.note)[:400], cx.weight
    return out


def _alarm(*_):
    raise CaseTimeout()


def worker_setup():
    logging.getLogger('dliswriter').setLevel(logging.CRITICAL + 1)
    logging.disable(logging.CRITICAL)
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (300 << 20, 300 << 20))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
    os.dup2(dn, 1)


def scratch_root():
    return os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()


def _worker(tasks, seed, deadline, outpath):
    worker_setup()
    tmp = tempfile.mkdtemp(prefix='dv_case_', dir=scratch_root())
    done = []
    with open(outpath, 'w') as f:
        for prop, name, i in tasks:
            if time.time() > deadline:
                break
            f.write(json.dumps({'start': [name, i]}) + '\n')
            f.flush()
            signal.alarm(CASE_TIMEOUT)
            r = run_case(prop, name, i, seed, tmp)
            signal.alarm(0)
            if r['status'] == 'fail':
                r['history'] = done[-400:]
            f.write(json.dumps(r) + '\n')
            f.flush()
            done.append([name, i])
            for x in os.listdir(tmp):
                p = os.path.join(tmp, x)
                try:
                    shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
                except OSError:
                    pass
            if r['status'] == 'fail':
                break
    shutil.rmtree(tmp, ignore_errors=True)


def run_property(prop, tier, seed, budget, nproc=8):
    """Run all families of a property. -> (results, timing)"""
    fams = FAMILIES.get(prop, {})
    plan = []
    for f in fams.values():
        n = max(1, int(f.quick * SCALE.get(prop, 4) * (1 if tier == 'quick' else 12)))
        plan += [((j + 0.5) / n, f.name, j) for j in range(n)]
    plan.sort()                                            # interleave: every family progresses evenly
    tasks = [(prop, n, i) for _, n, i in plan]
    d = tempfile.mkdtemp(prefix='dv_run_', dir=scratch_root())
    deadline = time.time() + budget
    pids = []
    try:
        for w in range(nproc):
            mine = tasks[w::nproc]
            if not mine:
                continue
            p = os.path.join(d, f"{w}.jsonl")
            pid = os.fork()
            if pid == 0:
                os.environ['VERIF_SCRATCH'] = d
                try:
                    _worker(mine, seed, deadline, p)
                except BaseException:
                    os._exit(3)
                os._exit(0)
            pids.append((pid, p))
        res = []
        for pid, p in pids:
            while True:
                got, st = os.waitpid(pid, os.WNOHANG)
                if got:
                    break
                if time.time() > deadline + CASE_TIMEOUT + 20:
                    os.kill(pid, signal.SIGKILL)
                time.sleep(0.02)
            last = None
            if os.path.exists(p):
                for line in open(p):
                    try:
                        x = json.loads(line)
                    except ValueError:
                        continue
                    if 'start' in x:
                        last = x['start']
                    else:
                        res.append(x)
                        last = None
            if last is not None:
                res.append({'family': last[0], 'i': last[1], 'status': 'fail', 'key': None, 'note': '', 'weight': 1,
                            'msg': f"worker process ended (status {st}) while running the case", 'history': []})
        return res, len(tasks)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rerun_alone(prop, name, i, seed, history=()):
    """Re-run a case in a fresh forked process (optionally after a history of other cases)."""
    d = tempfile.mkdtemp(prefix='dv_re_', dir=scratch_root())
    try:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            os.environ['VERIF_SCRATCH'] = d
            try:
                worker_setup()
                r = {}
                for n, j in [*history, (name, i)]:
                    c = os.path.join(d, f"{n}{j}")
                    os.makedirs(c, exist_ok=True)
                    signal.alarm(CASE_TIMEOUT)
                    r = run_case(prop, n, j, seed, c)
                    signal.alarm(0)
                    shutil.rmtree(c, ignore_errors=True)
                os.write(wr, json.dumps(r).encode())
            finally:
                os._exit(0)
        os.close(wr)
        b = b''
        while True:
            x = os.read(rd, 1 << 16)
            if not x:
                break
            b += x
        os.close(rd)
        os.waitpid(pid, 0)
        return json.loads(b) if b else {'status': 'fail', 'msg': 'process ended without an answer', 'family': name, 'i': i}
    finally:
        shutil.rmtree(d, ignore_errors=True)
