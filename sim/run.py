"""Runner: python -m sim.run check <property> [--tier quick|thorough] [--runs N] | replay <file> | plan <prop> <index>
| determinism <property>

Every simulated run executes in a process of its own that is forked from an initialised, otherwise untouched parent:
the run is a function of its plan (derived from VERIF_SEED, property and run index) and the code only."""
import argparse
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
RUN_LIMIT = 180      # seconds of real time for one run (an error of the check, never a verdict)

from . import boot, core   # noqa


def module(prop):
    return importlib.import_module('sim.props.' + prop.lower())


def make_plan(prop, mod, seed, i, tier):
    return mod.plan(core.rng_for(seed, prop, i), tier)


def execute(mod, plan):
    """one simulated run in this process; returns the record"""
    from . import faults, pool
    boot.fresh_run()
    ctx = core.new_ctx()
    rec = {}
    try:
        mod.run(json.loads(json.dumps(plan)))
        rec['status'] = 'ok'
    except core.Violation as v:
        rec.update(status='violation', cls=v.cls, msg=v.msg)
    except core.Skip as e:
        rec.update(status='skip', msg=str(e))
    except core.Known as e:
        rec.update(status='known', cls=e.key, msg=e.msg)
    except pool.SimHang as e:
        rec.update(status='violation', cls='hang', msg='the operation never ends: %s' % e)
    except BaseException:
        rec.update(status='error', msg=traceback.format_exc()[-3000:])
    finally:
        boot.unmute()
        try:
            pool.reset()
        except Exception:
            pass
    for k, n in faults.fired.items():
        ctx.fault(k, n)
    rec.update(faults=ctx.faults, probes=ctx.probes, sigs=sorted(ctx.sigs), ops=ctx.ops, checks=ctx.checks,
               hash=ctx.hash(), simtime=ctx.simtime + boot.clock.reads)
    return rec


def isolated(mod, plan, limit=RUN_LIMIT):
    """executes a plan in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            nul = os.open(os.devnull, os.O_RDWR)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            rec = execute(mod, plan)
            b = json.dumps(rec).encode()
            while b:
                b = b[os.write(w, b):]
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = time.monotonic() + limit
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        if select.select([r], [], [], left)[0]:
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.close(r)
    os.waitpid(pid, 0)
    if timed_out:
        return {'status': 'error', 'msg': 'run exceeded %d s of real time' % limit}
    try:
        return json.loads(buf.decode())
    except ValueError:
        return {'status': 'error', 'msg': 'run ended without a record'}


def worker(prop, mod, seed, tier, idx, path, deadline):
    with open(path, 'w') as f:
        for i in idx:
            if time.monotonic() > deadline:
                f.write(json.dumps({'i': i, 'status': 'late'}) + '\n')
                break
            try:
                plan = make_plan(prop, mod, seed, i, tier)
            except BaseException:
                f.write(json.dumps({'i': i, 'status': 'error', 'msg': traceback.format_exc()[-3000:]}) + '\n')
                break
            t = time.monotonic()
            rec = isolated(mod, plan)
            rec['i'] = i
            rec['wall'] = round(time.monotonic() - t, 2)
            f.write(json.dumps(rec) + '\n')
            if rec['status'] in ('violation', 'error'):
                break


def batch(prop, mod, seed, tier, n, workers, limit):
    """runs 0..n-1 on forked workers; returns the records"""
    d = os.path.join(EVID, '.work-%s-%d' % (prop, os.getpid()))
    os.makedirs(d, exist_ok=True)
    deadline = time.monotonic() + limit
    pids = []
    for k in range(workers):
        pid = os.fork()
        if pid == 0:
            try:
                worker(prop, mod, seed, tier, range(k, n, workers), os.path.join(d, str(k)), deadline)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(9)
        pids.append(pid)
    bad = 0
    for p in pids:
        bad += os.waitpid(p, 0)[1] != 0
    recs = []
    for k in range(workers):
        p = os.path.join(d, str(k))
        if os.path.exists(p):
            with open(p) as f:
                recs += [json.loads(l) for l in f if l.strip()]
            os.remove(p)
    os.rmdir(d)
    recs.sort(key=lambda r: r['i'])
    return recs, bad


def minimise(mod, plan, cls, seconds):
    """smallest plan (by greedy descent) that still fails in the same way"""
    end = time.monotonic() + seconds
    tries = 0
    shr = getattr(mod, 'shrink', core.shrink_plan)
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        size = len(json.dumps(plan))
        for c in shr(plan):
            if time.monotonic() > end:
                break
            if len(json.dumps(c)) >= size and c != plan and not getattr(mod, 'ANYSIZE', False):
                continue
            tries += 1
            rec = isolated(mod, c, 60)
            if rec['status'] == 'violation' and rec['cls'] == cls:
                plan = c
                progress = True
                break
    return plan, tries


def fresh_replay(path):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = '77'
    r = subprocess.run([sys.executable, '-m', 'sim.run', 'replay', path], cwd=HERE, env=env, capture_output=True,
                       text=True, timeout=600)
    return r.returncode, r.stdout + r.stderr


def known_findings(prop):
    """listed findings: lines 'known: property=<id> key=<key> <text>'"""
    out = {}
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for l in f:
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(None, 3)
                out[rest[2].split('=', 1)[1]] = rest[3].strip()
    return out


def cmd_check(a):
    prop = a.prop
    mod = module(prop)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier
    t0 = time.monotonic()
    os.makedirs(EVID, exist_ok=True)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    boot.init()
    if hasattr(mod, 'warm'):
        mod.warm()
    n = a.runs or mod.RUNS[tier]
    workers = a.workers
    recs, bad = batch(prop, mod, seed, tier, n, workers, 700 if tier == 'quick' else 10 * 3600)
    wall = time.monotonic() - t0
    if a.slow:
        print('slowest runs:', sorted(((r.get('wall', 0), r['i']) for r in recs), reverse=True)[:a.slow])
    viol = [r for r in recs if r['status'] == 'violation']
    errs = [r for r in recs if r['status'] == 'error']
    known = {}
    listed = known_findings(prop)
    for r in recs:
        if r['status'] == 'known':
            known.setdefault(r['cls'], []).append(r)
            if r['cls'] not in listed:
                r['status'] = 'violation'
                viol.append(r)
    viol.sort(key=lambda r: r['i'])
    write_evidence(prop, mod, tier, seed, recs, wall, 1 if viol else 0, workers, listed, known)
    for k in sorted(known):
        if k in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[k]))
    if viol:
        r = viol[0]
        plan = make_plan(prop, mod, seed, r['i'], tier)
        print('run %d of seed %d: %s: %s' % (r['i'], seed, r['cls'], r['msg']))
        path = os.path.join(EVID, '%s-replay.json' % prop)
        small, tries = minimise(mod, plan, r['cls'], 45 if tier == 'quick' else 300)
        rec = isolated(mod, small)
        write_replay(path, prop, seed, r['i'], small, rec)
        code, out = fresh_replay(path)
        if code != 1:  # fall back to the plan as generated
            print('minimised plan does not reproduce in a fresh process, using the original one')
            write_replay(path, prop, seed, r['i'], plan, r)
            code, out = fresh_replay(path)
        print('minimised in %d attempts; replay in a fresh process: %s' % (tries, 'reproduced' if code == 1 else
                                                                        'NOT reproduced'))
        print('minimised: %s' % rec.get('msg'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errs or bad or len([r for r in recs if r['status'] != 'late']) < n:
        for r in errs[:2]:
            print('ERROR in run %d: %s' % (r['i'], r['msg']))
        print('check incomplete: %d errors, %d lost workers, %d of %d runs' % (len(errs), bad, len(recs), n))
        return 3
    print('property %s held in %d runs (%d skipped), seed %d, %.1f s' % (
        prop, len(recs), sum(r['status'] == 'skip' for r in recs), seed, wall))
    return 0


def write_replay(path, prop, seed, i, plan, rec):
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'run': i, 'class': rec.get('cls'), 'violation': rec.get('msg'),
                   'plan': plan}, f, indent=1)


def write_evidence(prop, mod, tier, seed, recs, wall, nviol, workers, listed, known):
    faults, probes, sigs, hashes = {}, {}, set(), set()
    ops = checks = simtime = 0
    ran = [r for r in recs if r['status'] in ('ok', 'violation', 'known')]
    for r in ran:
        for k, v in r.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get('probes', {}).items():
            probes[k] = probes.get(k, 0) + v
        sigs.update(r.get('sigs', []))
        hashes.add(r.get('hash'))
        ops += r.get('ops', 0)
        checks += r.get('checks', 0)
        simtime += r.get('simtime', 0)
    samples = []
    for r in ran[:3]:
        p = make_plan(prop, mod, seed, r['i'], tier)
        samples.append({'run': r['i'], 'plan': json.dumps(p)[:1500], 'faults': r.get('faults', {}), 'steps': r['ops'],
                        'event_hash': r.get('hash')})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(ran), 'distinct_nontrivial': len(sigs), 'rule': mod.RULE, 'samples': samples,
            'skipped_runs': sum(r['status'] == 'skip' for r in recs),
            'simulated_runs': len(ran), 'seeds': len(recs), 'runs_per_hour': int(len(ran) / max(wall, 1e-3) * 3600),
            'simulated_steps': ops, 'oracle_comparisons': checks,
            'simulated_time': {'steps': ops, 'clock_reads': simtime,
                               'note': 'the library has no timers; simulated time is the number of executed '
                                       'operations and of readings of the simulated clock'},
            'faults_injected': faults, 'probes': probes,
            'distinct_event_histories': len(hashes), 'distinct_measure': mod.RULE,
            'components_real': mod.REAL, 'components_stub': mod.STUB,
            'known_findings_hit': dict((k, len(v)) for k, v in known.items()), 'worker_processes': workers,
        },
        'wall_s': round(wall, 2), 'violations': nviol,
        'assumptions': mod.ASSUME,
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def cmd_replay(a):
    with open(a.file) as f:
        rp = json.load(f)
    mod = module(rp['property'])
    if hasattr(mod, 'prepare'):
        mod.prepare()
    boot.init()
    if hasattr(mod, 'warm'):
        mod.warm()
    rec = isolated(mod, rp['plan'])
    print(rec['status'], rec.get('cls'), rec.get('msg'))
    if rec['status'] == 'violation':
        same = rec['cls'] == rp['class'] and rec['msg'] == rp['violation']
        print('recorded violation %s' % ('reproduced exactly' if same else 'differs: ' + str(rp['violation'])))
        print('VIOLATION property=%s replay=%s' % (rp['property'], a.file))
        return 1
    return 0 if rec['status'] in ('ok', 'skip', 'known') else 3


def cmd_plan(a):
    mod = module(a.prop)
    boot.init()
    p = make_plan(a.prop, mod, int(os.environ.get('VERIF_SEED', '1')), a.index, a.tier)
    print(json.dumps(p, indent=1))
    return 0


def cmd_one(a):
    """executes a single run in this process, with output of the harness"""
    mod = module(a.prop)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    boot.init()
    if hasattr(mod, 'warm'):
        mod.warm()
    p = make_plan(a.prop, mod, int(os.environ.get('VERIF_SEED', '1')), a.index, a.tier)
    rec = execute(mod, p)
    print(json.dumps(rec, indent=1).replace('\\n', '\n'))
    return 0


def cmd_hashes(a):
    """prints the event hashes of the first runs (used by the determinism test)"""
    mod = module(a.prop)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    boot.init()
    if hasattr(mod, 'warm'):
        mod.warm()
    recs, bad = batch(a.prop, mod, int(os.environ.get('VERIF_SEED', '1')), a.tier, a.runs, a.workers, 3600)
    for r in recs:
        print(r['i'], r['status'], r.get('hash'), json.dumps(r.get('faults'), sort_keys=True), r.get('msg', '')[:200].replace('\n', ' '))
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest='cmd')
    tier = os.environ.get('VERIF_TIER', 'quick')
    for name, f in (('check', cmd_check), ('hashes', cmd_hashes), ('plan', cmd_plan), ('one', cmd_one)):
        p = sp.add_parser(name)
        p.add_argument('prop')
        if name in ('plan', 'one'):
            p.add_argument('index', type=int)
        p.add_argument('--tier', default=tier)
        p.add_argument('--runs', type=int, default=None)
        p.add_argument('--slow', type=int, default=0)
        p.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
        p.set_defaults(f=f)
    p = sp.add_parser('replay')
    p.add_argument('file')
    p.set_defaults(f=cmd_replay)
    a = ap.parse_args()
    sys.exit(a.f(a))


if __name__ == '__main__':
    main()
