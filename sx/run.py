"""Runs the jobs of one property: explores every path of every job on 8 processes, validates every path against
the unmodified code in a separate process, and writes the evidence"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import select
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def load_jobs(prop, tier):
    mod = importlib.import_module('harness.' + prop.lower())
    names = [j['name'] for j in mod.JOBS]
    assert len(set(names)) == len(names), 'jobs are replayed by their name'
    jobs = []
    for j in mod.JOBS:
        t = j.get('tiers', ('quick', 'thorough'))
        if tier in t:
            jobs.append(j)
    return mod, jobs


# ---------------------------------------------------------------------------------------
# The real code, in a process of its own
# ---------------------------------------------------------------------------------------

class Concrete(object):

    def __init__(self, prop):
        self.prop = prop
        self.p = None
        self.n = 0

    def start(self):
        env = dict(os.environ)
        env['PYTHONPATH'] = VERIF
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-m', 'sx.replay', '--serve', self.prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=VERIF, env=env, text=True)
        self.n = 0

    def run(self, job, inputs, fresh=False, timeout=60):
        if fresh or self.p is None or self.p.poll() is not None or self.n > 2000:
            self.stop()
            self.start()
        self.n += 1
        try:
            self.p.stdin.write(json.dumps({'job': job, 'inputs': inputs}) + '\n')
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.stop()
                return {'outcome': 'timeout'}
            line = self.p.stdout.readline()
            if not line:
                self.stop()
                return {'outcome': 'died'}
            return json.loads(line)
        except (BrokenPipeError, ValueError) as e:
            self.stop()
            return {'outcome': 'died', 'detail': repr(e)}

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None


# ---------------------------------------------------------------------------------------
# Workers
# ---------------------------------------------------------------------------------------

def enc(decisions):
    return bytes((b | (2 if a else 0)) for b, a in decisions)


def dec(b):
    return [(x & 1, bool(x & 2)) for x in b]


class Worker(object):

    def __init__(self, prop, tier, seed, hungry=None):
        from .core import Engine
        from . import instrument
        self.prop = prop
        self.hungry = hungry
        self.mod, self.jobs = load_jobs(prop, tier)
        self.by_name = {j['name']: j for j in self.jobs}
        self.engines = {}
        self.snapshot = instrument.Snapshot()
        self.concrete = Concrete(prop)
        self.instrument = instrument

    def engine(self, job):
        from .core import Engine
        e = self.engines.get(job)
        if e is None:
            self.engines.clear()  # one at a time: the solver state belongs to one job
            e = Engine(max_decisions=self.by_name[job].get('max_decisions', 6000))
            self.engines[job] = e
        return e

    def one_path(self, jobname, prefix, model):
        """Execute one path. Returns a result dict, or None if the path was infeasible"""
        from .core import Engine, PathAbort, Violated, PathLimit
        from .api import SymH, concretise
        job = self.by_name[jobname]
        e = self.engine(jobname)
        self.snapshot.restore()
        e.reset_path(prefix, model)
        Engine.active = e
        h = SymH(e)
        out = {'outcome': 'ok'}
        a0 = e.stats.assertions
        try:
            try:
                job['fn'](h, **job.get('kw', {}))
            except PathAbort:
                e.stats.aborted += 1
                return None
            except Violated as v:
                out = {'outcome': 'violated', 'label': v.label}
            except PathLimit as v:
                return {'outcome': 'limit', 'detail': str(v)}
            except RecursionError as x:
                out = {'outcome': 'error', 'exc': 'RecursionError', 'tb': ''}
            except Exception as x:
                out = {'outcome': 'error', 'exc': type(x).__name__, 'tb': traceback.format_exc()[-1800:]}
            try:
                m = e.get_model()
            except PathAbort:
                e.stats.aborted += 1
                return None
            out['inputs'] = h.concrete_inputs(m)
            out['assertions'] = e.stats.assertions - a0
            if out['outcome'] == 'ok':
                try:
                    out['obs'] = json.loads(json.dumps([concretise(x, m) for x in h.observations]))
                except RecursionError:
                    out['obs'] = '<recursion>'
            e.stats.paths += 1
            return out
        finally:
            if e.pos < len(e.prefix) and out['outcome'] in ('ok',):
                raise RuntimeError('diverged: replay of {} decisions ended after {}'.format(len(e.prefix), e.pos))
            Engine.active = None

    def judge(self, jobname, r):
        """Replay the path's input on the real code"""
        c = self.concrete.run(jobname, r['inputs'])
        if r['outcome'] == 'ok' and c['outcome'] == 'ok' and c.get('obs') == r['obs']:
            return 'agree', c
        if r['outcome'] == 'violated' and c['outcome'] == 'violated' or \
                r['outcome'] == 'error' and c['outcome'] == 'error' and c['exc'] == r['exc']:
            pass
        # Not a plain agreement: once more, in a fresh process
        c = self.concrete.run(jobname, r['inputs'], fresh=True)
        if c['outcome'] in ('violated', 'error', 'timeout', 'died'):
            return 'violation', c
        if r['outcome'] == 'ok' and c['outcome'] == 'ok' and c.get('obs') == r['obs']:
            return 'agree', c
        return 'mismatch', c

    def task(self, jobname, prefixes, slice_s):
        from .core import Stats
        e = self.engine(jobname)
        e.stats = Stats()
        t0 = time.time()
        stack = [(dec(p), None) for p in prefixes]
        findings, mismatches, limits = [], [], []
        samples = []
        validated = asserting = 0
        while stack:
            prefix, model = stack.pop()
            r = self.one_path(jobname, prefix, model)
            # alternatives found on this path
            for p, m in e.pending:
                stack.append((p, m))
            if r is not None:
                if r['outcome'] == 'limit':
                    limits.append(r.get('detail', ''))
                else:
                    if r['assertions']:
                        asserting += 1
                    v, c = self.judge(jobname, r)
                    r['inputs'] = c.pop('inputs', r['inputs'])
                    if v == 'agree':
                        validated += 1
                        if len(samples) < 2:
                            samples.append({'job': jobname, 'inputs': r['inputs'], 'obs': r['obs']})
                    elif v == 'violation':
                        findings.append({'job': jobname, 'inputs': r['inputs'], 'symbolic': r, 'concrete': c})
                    else:
                        mismatches.append({'job': jobname, 'inputs': r['inputs'], 'symbolic': r, 'concrete': c})
            if time.time() - t0 > slice_s or len(findings) >= 3:
                break
            if len(stack) > 1 and self.hungry is not None and self.hungry.value and time.time() - t0 > 0.05:
                break
        return {'job': jobname, 'stats': e.stats.as_dict(), 'left': [enc(p) for p, _ in stack],
                'findings': findings, 'mismatches': mismatches[:5], 'n_mismatches': len(mismatches),
                'limits': limits[:3], 'samples': samples, 'validated': validated, 'asserting': asserting,
                'functions': sorted(self.instrument.FUNCTIONS), 'elapsed': time.time() - t0}


def worker_main(conn, prop, tier, seed, hungry):
    sys.setrecursionlimit(12000)
    import gc
    gc.disable()
    from . import models
    w = Worker(prop, tier, seed, hungry)
    n = 0
    while True:
        msg = conn.recv()
        if msg is None:
            break
        try:
            res = w.task(*msg)
            res['foreign'] = {'{}.{}'.format(*k): v for k, v in models.FOREIGN_SEEN.items()}
            conn.send(res)
        except BaseException as x:
            conn.send({'crash': traceback.format_exc()[-3000:], 'job': msg[0]})
        n += 1
        if n % 5 == 0:
            gc.collect()
    w.concrete.stop()
    conn.close()


def explore(prop, tier, seed, deadline, nproc, verbose=False, only=None, stop_on_finding=True):
    from .core import Stats
    mod, jobs = load_jobs(prop, tier)
    if only:
        jobs = [j for j in jobs if j['name'] in only]
    ctx = multiprocessing.get_context('fork')
    hungry = ctx.Value('i', 0, lock=False)
    workers = []
    for i in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker_main, args=(b, prop, tier, seed, hungry), daemon=True)
        p.start()
        b.close()
        workers.append({'p': p, 'c': a, 'busy': None, 'last': None})

    queue = {j['name']: [b''] for j in jobs}
    per_job = {j['name']: {'stats': Stats(), 'validated': 0, 'asserting': 0, 'busy': 0, 'wall': 0.0} for j in jobs}
    res = {'findings': [], 'mismatches': [], 'n_mismatches': 0, 'limits': [], 'samples': [], 'functions': set(),
           'crashes': [], 'foreign': {}}
    order = [j['name'] for j in jobs]
    stop = False
    timed_out = False

    while True:
        now = time.time()
        if now > deadline:
            stop = timed_out = True
        if res['findings'] and stop_on_finding:
            stop = True
        if not stop:
            idle = [w for w in workers if w['busy'] is None]
            for w in idle:
                # prefer the job this worker had last, if it has work
                cand = [n for n in order if queue[n]]
                if not cand:
                    break
                cand.sort(key=lambda n: (per_job[n]['busy'] > 0 and n != w['last'], n != w['last'], order.index(n)))
                n = cand[0]
                q = queue[n]
                # share out
                k = max(1, len(q) // (len(idle) or 1))
                give, queue[n] = q[:k], q[k:]
                w['busy'] = n
                w['last'] = n
                per_job[n]['busy'] += 1
                w['c'].send((n, give, 10.0))
        busy = [w for w in workers if w['busy'] is not None]
        hungry.value = 99 if stop else len(workers) - len(busy)
        if not busy:
            break
        rd = multiprocessing.connection.wait([w['c'] for w in busy], timeout=1.0)
        if stop and time.time() > deadline + 60:
            break
        for c in rd:
            w = [x for x in busy if x['c'] is c][0]
            n = w['busy']
            w['busy'] = None
            per_job[n]['busy'] -= 1
            try:
                r = c.recv()
            except EOFError:
                res['crashes'].append('worker died on job ' + n)
                workers.remove(w)
                continue
            if 'crash' in r:
                res['crashes'].append(r['crash'])
                queue[n] = []
                continue
            per_job[n]['stats'].add(r['stats'])
            per_job[n]['validated'] += r['validated']
            per_job[n]['asserting'] += r['asserting']
            per_job[n]['wall'] += r['elapsed']
            queue[n].extend(r['left'])
            res['findings'].extend(r['findings'])
            res['mismatches'].extend(r['mismatches'])
            res['n_mismatches'] += r['n_mismatches']
            res['limits'].extend(r['limits'])
            if len([s for s in res['samples'] if s['job'] == n]) < 1:
                res['samples'].extend(r['samples'][:1])
            res['functions'].update(r['functions'])
            res['foreign'].update(r['foreign'])
            if verbose:
                print('   ', n, 'paths', per_job[n]['stats'].paths, 'queue', len(queue[n]), 'find', len(res['findings']),
                      'mism', res['n_mismatches'], flush=True)
    for w in workers:
        try:
            w['c'].send(None)
        except Exception:
            pass
    for w in workers:
        w['p'].join(2)
        if w['p'].is_alive():
            w['p'].kill()
    res['per_job'] = per_job
    res['left'] = {n: len(q) for n, q in queue.items() if q}
    res['timed_out'] = timed_out
    res['jobs'] = jobs
    res['mod'] = mod
    return res


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == prop and e.get('status') == 'known']


def match_known(f, known):
    for k in known:
        if k['job'] == f['job'] and k['label'] == f['concrete'].get('label', f['concrete'].get('exc')):
            if all(f['inputs'].get(a) == b for a, b in k.get('inputs', {}).items()):
                return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-n', type=int, default=8)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--strict', action='store_true', help='development: exit 2 unless everything was decided')
    ap.add_argument('--all', action='store_true', help='do not stop at the first finding')
    args = ap.parse_args()

    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = args.prop
    budget = args.budget or (540 if args.tier == 'quick' else 3300)

    from . import instrument
    sys.path.insert(0, VERIF)
    instrument.install(REPO)
    import warnings
    warnings.simplefilter('ignore')
    from . import envstub
    envstub.install_symbolic()
    importlib.import_module('harness.' + prop.lower())

    res = explore(prop, args.tier, seed, t0 + budget, args.n, args.v, args.jobs.split(',') if args.jobs else None,
                  not args.all)

    known = known_findings(prop)
    new, old = [], []
    for f in res['findings']:
        k = match_known(f, known)
        (old if k else new).append((f, k))
    for k in {k['id']: k for _, k in old}.values():
        print('KNOWN-FINDING: property={} {}'.format(prop, k['what']))

    tot = None
    from .core import Stats
    tot = Stats()
    for n, j in res['per_job'].items():
        tot.add(j['stats'].as_dict())
    validated = sum(j['validated'] for j in res['per_job'].values())
    vacuous = [n for n, j in res['per_job'].items() if j['asserting'] == 0]
    exhaustive = not res['left'] and not res['limits'] and not res['timed_out'] and not res['n_mismatches'] \
        and tot.unknown == 0 and not res['crashes'] and not vacuous

    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': args.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.paths,
            'transitions': tot.branches,
            'traces_validated_against_impl': validated,
            'samples': res['samples'][:12],
            'exhaustive': exhaustive,
            'explanation': 'Bounded symbolic execution of the real source, instrumented afresh on this run. states = feasible '
                           'execution paths completed; transitions = branch conditions on symbolic data sent to Z3; every '
                           'path carries the solver\'s verdict on its assertions for all inputs that follow it, and its '
                           'witness input was replayed on the unmodified code.',
            'assertions_checked': tot.assertions,
            'assertions_decided_by_constants': tot.trivial_assertions,
            'solver_queries': tot.queries, 'solver_sat': tot.sat, 'solver_unsat': tot.unsat,
            'solver_unknown': tot.unknown, 'solver_s': round(tot.solver_s, 2), 'solver': 'z3 ' + _z3v(),
            'paths_infeasible': tot.aborted, 'paths_cut_by_decision_limit': tot.limit_paths,
            'unexplored_prefixes': res['left'], 'symbolic_concrete_mismatches': res['n_mismatches'],
            'engine_errors': [c[-600:] for c in res['crashes'][:3]], 'jobs_without_assertions': vacuous,
            'realised_characters': tot.realised, 'uninstrumented_calls_with_realised_arguments': res['foreign'],
            'jobs': {n: {'paths': j['stats'].paths, 'branches': j['stats'].branches, 'queries': j['stats'].queries,
                         'solver_s': round(j['stats'].solver_s, 2), 'validated': j['validated'],
                         'asserting_paths': j['asserting'], 'cpu_s': round(j['wall'], 1),
                         'bounds': next((x.get('bounds', '') for x in res['jobs'] if x['name'] == n), '')}
                     for n, j in res['per_job'].items()},
            'functions_encoded': [f for f in sorted(res['functions']) if f.startswith('metatab')],
        },
        'assumptions': list(getattr(res['mod'], 'ASSUMPTIONS', [])) + envstub.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print('{} {}: {} paths, {} branches, {} queries ({:.1f}s in z3), {} validated, exhaustive={}, {:.1f}s'.format(
        prop, args.tier, tot.paths, tot.branches, tot.queries, tot.solver_s, validated, exhaustive, wall))
    if args.v:
        for n, j in res['per_job'].items():
            print('   {:30} paths {:6} asserting {:6} cpu {:.1f} z3 {:.1f}'.format(
                n, j['stats'].paths, j['asserting'], j['wall'], j['stats'].solver_s))
        print('   foreign', res['foreign'])

    rc = 0
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        shown = set()
        for f, _ in new[:10]:
            key = (f['job'], f['concrete'].get('label', f['concrete'].get('exc')))
            if key in shown and not args.all:
                continue
            shown.add(key)
            body = {'property': prop, 'job': f['job'], 'inputs': f['inputs'], 'result': f['concrete'],
                    'tier': args.tier}
            name = '{}-{}.json'.format(prop, hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10])
            path = os.path.join(VERIF, 'replays', name)
            with open(path, 'w') as fh:
                json.dump(body, fh, indent=1)
            print('  job={} inputs={} -> {}'.format(f['job'], json.dumps(f['inputs']), json.dumps(f['concrete'])[:1500]))
            if args.v:
                print(json.dumps(f['symbolic'], indent=1)[:3000])
            print('  replay with: cd /verif && PYTHONPATH=/verif {} -m sx.replay {}'.format(PY, path))
            print('VIOLATION property={} replay={}'.format(prop, path))
        rc = 1
    else:
        for c in res['crashes'][:2]:
            print('ENGINE ERROR', c)
        if res['n_mismatches']:
            print('UNDECIDED: {} path(s) where the symbolic result is not that of the real code (their witnesses satisfy the '
                  'property):'.format(res['n_mismatches']))
            for m in res['mismatches'][:3]:
                print(json.dumps(m, indent=1)[:3000])
        if vacuous and not res['timed_out']:
            print('VACUOUS job(s):', vacuous)
        # Nothing decided: no answer. Otherwise the property held on everything explored, and what was not
        # decided is in the evidence
        if not sum(j['asserting'] for j in res['per_job'].values()) or args.strict and (
                res['crashes'] or res['n_mismatches'] or vacuous or not exhaustive):
            rc = 2
    sys.stdout.flush()
    os._exit(rc)


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
