"""Drives many simulated runs in forked children of fresh interpreters, minimises and replays violations, writes evidence."""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
T0 = time.time
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'JAX_PLATFORMS': 'cpu', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'XLA_FLAGS': '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
       'TF_CPP_MIN_LOG_LEVEL': '3', 'PYTHONWARNINGS': 'ignore'}


def get_check(pid):
    return importlib.import_module(f'sim.checks.{pid.lower()}').CHECK


class Check:
    """base class of the property checks"""
    id = None
    backends = ('numpy',)
    runs = {'quick': 400, 'thorough': 20000}
    wall = {'quick': 75, 'thorough': 780}
    child_timeout = 120
    native_hang = False         # native code outside numga (a compiler) may not finish: such runs are counted, not reported
                                # (endless loops and deadlocks of numga itself are found by the simulator)
    level = 'exploration'
    assumptions = ()
    real = 'numga (unmodified sources of the working tree), numpy, the CPython interpreter and its real threads'
    stub = 'thread scheduler (one baton, seeded), lock objects created by numga, clocks read by numga, garbage collection triggers, source of faults'

    def sample(self, plan, res):
        s = {k: v for k, v in plan.items() if k in ('algs', 'ctxs', 'threads', 'sched', 'faults')}
        t = json.dumps(s)
        return {'seed': plan.get('seed'), 'events': res['events'], 'switches': res['switches'], 'faults': dict(res['faults']),
                'plan': t if len(t) < 1500 else t[:1500] + '...'}
    measure = ''
    rule = ''

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, explicit, res):
        """run the plan; fill res (viol, stats, sched, digest ...)"""
        raise NotImplementedError

    # shrinking: yields smaller variants of a plan (the runner keeps those that still fail)
    def variants(self, plan):
        th = plan.get('threads')
        if not th:
            return
        if len(th) > 1:
            for i in range(len(th)):
                p = json.loads(json.dumps(plan))
                del p['threads'][i]
                yield p
        ids = [(i, j) for i, t in enumerate(th) for j in range(len(t))]
        n = len(ids)
        size = n // 2
        while size >= 1:
            for s in range(0, n, size):
                gone = set(ids[s:s + size])
                p = json.loads(json.dumps(plan))
                p['threads'] = [[o for j, o in enumerate(t) if (i, j) not in gone] for i, t in enumerate(th)]
                if any(p['threads']):
                    p['threads'] = [t for t in p['threads']]
                    yield p
            size //= 2


def run_child(check, job):
    """executed in the forked child: one simulated run"""
    from . import seams, core
    res = {'viol': None, 'stats': Counter(), 'faults': Counter(), 'events': 0, 'switches': 0, 'digest': 0, 'simtime': 0.0,
           'states': [], 'seed': job.get('seed'), 'note': None}
    try:
        if 'plan' in job:
            plan = job['plan']
        else:
            plan = check.gen(random.Random(f'{check.id}:{job["seed"]}'), job['tier'])
            plan['seed'] = job['seed']
        res['plan'] = plan
        seams.reset_ambient(plan.get('ambient', plan['seed']))
        t0 = seams.Ambient.now
        check.execute(plan, job.get('explicit'), res)
        res['simtime'] += abs(seams.Ambient.now - t0)
        res['stats']['numga clock reads'] += seams.Ambient.clock_reads
        res['stats']['numga locks'] += seams.Ambient.locks
    except core.Livelock as e:
        res['viol'] = {'kind': 'livelock', 'msg': str(e)}
    except core.Deadlock as e:
        res['viol'] = {'kind': 'deadlock', 'msg': str(e)}
    except BaseException as e:
        res['error'] = f'{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}'
    if 'plan' in res and job.get('seed', 99) % 10 ** 6 < 6:
        res['sample'] = check.sample(res['plan'], res)
    if res['viol'] is None and not job.get('keep'):
        res.pop('plan', None)
        res.pop('sched', None)
    return res


def fork_run(check, job, timeout):
    """fork, run one job in the child, return its result dict ('hang'/'crash' in 'error' when it dies)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            if not os.environ.get('SIM_DEBUG'):
                os.dup2(devnull, 2)
            out = pickle.dumps(run_child(check, job))
            off = 0
            while off < len(out):
                off += os.write(w, out[off:off + 65536])
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + timeout
    dead = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            dead = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 5))
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    if dead:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if dead:
        return {'seed': job.get('seed'), 'died': 'hang', 'viol': None}
    try:
        return pickle.loads(b''.join(buf))
    except Exception:
        return {'seed': job.get('seed'), 'died': f'crash status {status}', 'viol': None}


def worker_main():
    """fresh interpreter: reads jobs as JSON lines on stdin, writes pickled results (length-prefixed) on fd given"""
    pid, tier, fd = sys.argv[2], sys.argv[3], int(sys.argv[4])
    from . import seams
    check = get_check(pid)
    out = os.fdopen(fd, 'wb')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    try:
        check.load()
    except BaseException as e:
        out.write(pickle.dumps({'fatal': f'{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}'}))
        out.flush()
        return
    out.write(pickle.dumps({'ready': True}))
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        res = fork_run(check, job, check.child_timeout)
        if res.get('died') and not (check.native_hang and res['died'] == 'hang'):
            r2 = fork_run(check, job, check.child_timeout * 2)
            if not r2.get('died'):
                r2['note'] = f'first attempt: {res["died"]}'
            res = r2
        out.write(pickle.dumps(res))
        out.flush()


def default_load(self):
    from . import seams
    seams.load(self.backends)


Check.load = default_load


class Worker:
    def __init__(self, pid, tier, hashseed):
        r, w = os.pipe()
        env = dict(os.environ, **ENV)
        env['PYTHONHASHSEED'] = str(hashseed)
        env['PYTHONPATH'] = VERIF
        env['HOME'] = env.get('HOME', '/root')
        self.hashseed = hashseed
        self.dir = tempfile.mkdtemp(prefix='numga-sim-')     # scratch working directory of the library under test
        self.p = subprocess.Popen([PY, '-m', 'sim.runner', 'worker', pid, tier, str(w)], stdin=subprocess.PIPE, pass_fds=(w,), env=env,
                                  cwd=self.dir, stderr=None if os.environ.get('SIM_DEBUG') else subprocess.DEVNULL)
        os.close(w)
        self.f = os.fdopen(r, 'rb')
        self.fd = r
        self.busy = None

    def ready(self):
        try:
            m = pickle.load(self.f)
        except EOFError:
            return 'worker died while loading'
        return m.get('fatal')

    def send(self, job):
        self.busy = job
        self.p.stdin.write((json.dumps(job) + '\n').encode())
        self.p.stdin.flush()

    def recv(self):
        r = pickle.load(self.f)
        self.busy = None
        return r

    def call(self, job):
        self.send(job)
        return self.recv()

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(2)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.f.close()
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------------------------ minimisation
def same(a, b):
    return a is not None and b is not None and a['kind'] == b['kind']


def ddmin(items, test, budget):
    """classic delta debugging over a list"""
    n = 2
    items = list(items)
    if items and test([]):
        return []
    while len(items) >= 2 and time.time() < budget:
        size = max(1, len(items) // n)
        done = False
        for s in range(0, len(items), size):
            cand = items[:s] + items[s + size:]
            if time.time() > budget:
                return items
            if test(cand):
                items, n, done = cand, max(n - 1, 2), True
                break
        if not done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(check, worker, plan, sched, viol, seconds=60):
    end = time.time() + seconds
    best = [plan, sched, viol, None]
    tries = [0]

    def attempt(p, s):
        tries[0] += 1
        r = worker.call({'plan': p, 'explicit': s, 'keep': True, 'tier': 'quick'})
        if same(r.get('viol'), viol):
            best[:] = [r.get('plan', p), s, r['viol'], r.get('digest')]
            return True
        return False

    if not attempt(plan, sched):
        return None
    changed = True
    rounds = 0
    while changed and time.time() < end and rounds < 4:
        rounds += 1
        changed = False
        for key in ('switches', 'faults', 'ends'):
            cur = best[1].get(key) or []
            if cur:
                got = ddmin(cur, lambda c: attempt(best[0], dict(best[1], **{key: c})), end)
                if len(got) < len(cur):
                    changed = True
        progress = True
        while progress and time.time() < end:
            progress = False
            for cand in check.variants(best[0]):
                if time.time() > end:
                    break
                if attempt(cand, best[1]):
                    progress = changed = True
                    break
    # inputs nobody uses
    p = json.loads(json.dumps(best[0]))
    if 'inputs' in p and 'threads' in p:
        text = json.dumps({k: v for k, v in p.items() if k != 'inputs'})
        p['inputs'] = {k: v for k, v in p['inputs'].items() if json.dumps(k) in text}
        attempt(p, best[1])
    return best + [tries[0]]


# ------------------------------------------------------------------------------------ the check command
def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def write_replay(pid, plan, sched, viol, digest, hashseed, extra):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'hashseed': hashseed, 'plan': plan, 'explicit': sched, 'violation': viol, 'digest': digest, **extra}
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{pid}-{h}.json')
    json.dump(body, open(path, 'w'), indent=1)
    return path


def check_main(pid, tier, seed0, nworkers=None, runs=None, wall=None, quiet=False):
    t0 = time.time()
    check = get_check(pid)
    n = runs or check.runs[tier]
    wall = wall or check.wall[tier]
    nw = nworkers or min(8, os.cpu_count() or 4)
    workers = [Worker(pid, tier, i + 1) for i in range(nw)]
    viol = None
    errors = []
    agg = Counter()
    faults = Counter()
    digests, nontriv, states = set(), set(), Counter()
    done = events = switches = multi = 0
    lost = []
    simtime = 0.0
    samples = []
    try:
        for w in workers:
            bad = w.ready()
            if bad:
                errors.append(bad)
        if errors:
            print(f'HARNESS-ERROR property={pid} the library could not be loaded:\n{errors[0]}')
            return 2
        nxt = 0
        start = time.time()
        byfd = {w.fd: w for w in workers}

        def feed(w):
            nonlocal nxt
            if nxt < n and time.time() - start < wall and viol is None:
                w.send({'seed': seed0 * 10 ** 6 + nxt, 'tier': tier})
                nxt += 1
        for w in workers:
            feed(w)
        pending = []
        while any(w.busy for w in workers):
            rd, _, _ = select.select([w.fd for w in workers if w.busy], [], [])
            for fd in rd:
                w = byfd[fd]
                job = w.busy
                try:
                    r = w.recv()
                except EOFError:
                    errors.append(f'worker died on seed {job["seed"]}')
                    w.busy = None
                    continue
                done += 1
                if r.get('error'):
                    errors.append(f'seed {r["seed"]}: {r["error"]}')
                elif r.get('died') == 'hang' and check.native_hang:
                    agg['runs abandoned in native code'] += 1
                    lost.append(job['seed'])
                    r['died'] = None
                elif r.get('died'):
                    v = {'kind': r['died'].split()[0], 'msg': f'the run does not finish ({r["died"]})'}
                    pending.append((job['seed'], w, {'viol': v, 'plan': None, 'sched': None}))
                else:
                    agg.update(r['stats'])
                    faults.update(r['faults'])
                    events += r['events']
                    switches += r['switches']
                    simtime += r['simtime']
                    digests.add(r['digest'])
                    if r.get('nontrivial'):
                        nontriv.add(r['digest'])
                    if r.get('sample') and len(samples) < 6:
                        samples.append(r['sample'])
                    for s in r['states']:
                        states[s] += 1
                    if r['viol']:
                        pending.append((job['seed'], w, r))
                        viol = viol or r['viol']
                if r.get('died'):
                    viol = viol or {'kind': 'died'}
                if len(errors) > 20 or len(lost) > 20 + done // 20:
                    errors += [f'runs that did not finish: {lost}'] if len(errors) <= 20 else []
                    n = 0
                feed(w)
        elapsed = time.time() - start
        rc = 0
        if errors and not pending:
            print(f'HARNESS-ERROR property={pid}: {len(errors)} runs failed inside the harness; first:\n{errors[0]}')
            rc = 2
        if pending:
            pending.sort(key=lambda x: x[0])
            seed, w, r = pending[0]
            rc = 1
            path = report(check, tier, seed, w, r)
            print(f'VIOLATION property={pid} replay={path}')
        if rc == 0:
            for k in known_findings(pid):
                print(f'KNOWN-FINDING: property={pid} {k["what"]}')
        write_evidence(check, tier, seed0, done, elapsed, nw, agg, faults, digests, nontriv, samples, states, events, switches, simtime, rc,
                       pending[0][2]['viol'] if pending else None, errors, time.time() - t0)
        if not quiet:
            print(f'{pid} {tier}: {done} runs in {elapsed:.0f}s, {events} events, {switches} switches, {len(digests)} distinct executions, '
                  f'faults {dict(faults)}, rc={rc}')
            if lost:
                print(f'  abandoned in native code: seeds {lost}')
            for e in errors[:2]:
                print('  harness error:', e[:1500])
        return rc
    finally:
        for w in workers:
            w.close()


def report(check, tier, seed, worker, r):
    """minimise, write the replay file, and prove in a fresh interpreter that it reproduces"""
    pid = check.id
    v = r['viol']
    if r.get('plan') is None:       # hang or crash: replay by seed
        print(f'  {v["kind"]}: {v["msg"]} (seed {seed})')
        return write_replay(pid, {'seed': seed, 'generate': True, 'tier': tier}, None, v, None, worker.hashseed, {'seed': seed})
    print(f'  {v["kind"]}: {v["msg"]} (seed {seed})')
    best = minimise(check, worker, r['plan'], r.get('sched'), v)
    extra = {'seed': seed, 'original': {'ops': nops(r['plan']), 'switches': len((r.get('sched') or {}).get('switches', [])),
                                        'faults': len((r.get('sched') or {}).get('faults', []))}}
    if best is None:
        extra['note'] = 'explicit schedule did not reproduce; replaying by seed'
        return write_replay(pid, {'seed': seed, 'generate': True, 'tier': tier}, None, v, r['digest'], worker.hashseed, extra)
    plan, sched, viol, digest, tries = best
    extra['minimised'] = {'ops': nops(plan), 'switches': len((sched or {}).get('switches', [])), 'faults': len((sched or {}).get('faults', [])),
                          'attempts': tries}
    path = write_replay(pid, plan, sched, viol, digest, worker.hashseed, extra)
    print(f'  minimised: {extra["original"]} -> {extra["minimised"]}: {viol["msg"]}')
    ok = replay(path, quiet=True)
    print(f'  replay in a fresh interpreter: {"reproduced exactly" if ok else "NOT reproduced"}')
    return path


def nops(plan):
    return sum(len(t) for t in plan.get('threads', [])) if plan.get('threads') else None


def replay(path, quiet=False):
    body = json.load(open(path))
    w = Worker(body['property'], 'quick', body['hashseed'])
    try:
        bad = w.ready()
        if bad:
            print('HARNESS-ERROR', bad)
            return False
        plan = body['plan']
        if plan.get('generate'):
            r = w.call({'seed': plan['seed'], 'tier': plan['tier'], 'keep': True})
            if r.get('died'):
                r['viol'] = {'kind': r['died'].split()[0], 'msg': 'the run does not finish'}
        else:
            r = w.call({'plan': plan, 'explicit': body['explicit'], 'keep': True, 'tier': 'quick'})
        ok = same(r.get('viol'), body['violation']) and (body['digest'] is None or r.get('digest') == body['digest'])
        if not quiet:
            print(json.dumps({'violation': r.get('viol'), 'digest': r.get('digest'), 'expected digest': body['digest'],
                              'reproduced': ok, 'error': r.get('error')}, indent=1))
        return ok
    finally:
        w.close()


def write_evidence(check, tier, seed0, done, elapsed, nw, agg, faults, digests, nontriv, samples, states, events, switches, simtime, rc, viol, errors, wall):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    per_h = 3600 / elapsed if elapsed > 0 else 0
    ev = {
        'property': check.id, 'tier': tier, 'seed': seed0, 'level': check.level,
        'coverage': {
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, faults and call histories',
            'evaluations': done,
            'distinct_nontrivial': len(nontriv),
            'rule': check.rule,
            'samples': samples,
            'status': {0: 'held', 1: 'violated', 2: 'harness error'}[rc],
            'simulated_runs_per_hour': int(done * per_h),      # every run has a seed of its own
            'workers': nw,
            'simulated_time': f'{events} scheduler decision points (events inside numga code); the library reads no clock, virtual clock advanced {simtime:.0f} s by injected jumps',
            'decision_points': events,
            'context_switches_injected': switches,
            'faults_injected': dict(faults),
            'distinct_executions': len(digests),
            'distinct_executions_measure': 'distinct hashes of the complete sequence of (task, code object, line or instruction) events of a run',
            'distinct_states': len(states),
            'distinct_states_measure': check.measure,
            'counts': dict(agg),
            'ran_real_code': check.real,
            'ran_a_stub': check.stub,
            'violation': viol,
            'harness_errors': len(errors),
        },
        'assumptions': list(check.assumptions),
        'wall_s': round(wall, 1),
        'violations': 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{check.id}.json'), 'w'), indent=1, default=str)


def determinism(pid, nseeds, tier='quick'):
    """every seed twice, under different worker counts and hash seeds: identical digests and outcomes"""
    bad = 0
    ref = {}
    for hs in (1, 7, 4242):
        ws = [Worker(pid, tier, hs) for _ in range(6)]
        try:
            for w in ws:
                e = w.ready()
                if e:
                    print(e)
                    return 1
            for s in range(0, nseeds, len(ws)):
                for i, w in enumerate(ws):
                    if s + i < nseeds:
                        w.send({'seed': 10 ** 6 + s + i, 'tier': tier})
                for w in ws:
                    if w.busy:
                        r = w.recv()
                        k = (r['digest'], r['events'], r['switches'], str(r['viol']), str(sorted(r['faults'].items())), r.get('result_hash'))
                        if r.get('error'):
                            print('error', r['seed'], r['error'][:300])
                        if ref.setdefault(r['seed'], k) != k:
                            bad += 1
                            if bad < 5:
                                print(f'seed {r["seed"]} hashseed {hs}: {k} != {ref[r["seed"]]}')
        finally:
            for w in ws:
                w.close()
    print(f'{pid}: {nseeds} seeds x 3 interpreters: {bad} differences')
    return 1 if bad else 0


def main():
    if sys.argv[1] == 'worker':
        return worker_main()
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'determinism'])
    ap.add_argument('target')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--workers', type=int)
    a = ap.parse_args()
    if a.cmd == 'check':
        sys.exit(check_main(a.target, a.tier, a.seed, a.workers, a.runs, a.wall))
    if a.cmd == 'replay':
        sys.exit(1 if replay(a.target) else 0)
    if a.cmd == 'determinism':
        sys.exit(determinism(a.target, a.runs or 60))


if __name__ == '__main__':
    main()
