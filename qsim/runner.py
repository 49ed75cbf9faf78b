"""Runs batches of simulated executions, minimises, reports, writes evidence."""
import importlib
import json
import os
import resource
import select
import signal
import subprocess
import sys
import time

from . import env, lines
from .rng import derive, rng

WORKERS = int(os.environ.get('QSIM_WORKERS', '8'))
RUN_WALL = 90.0      # seconds of real time for one run: a harness limit, never a verdict
CHECK = os.path.join(env.VERIF, 'check')
REPLAYS = os.path.join(env.VERIF, 'replays')
EVIDENCE = os.path.join(env.VERIF, 'evidence')
KNOWN = os.path.join(env.VERIF, 'KNOWN_FINDINGS.txt')


def load_module(prop):
    return importlib.import_module('qsim.props.' + prop.lower())


def scenario_for(module, prop, seed, tier, index):
    r = rng(seed, prop, index)
    sc = module.generate(r, tier, index)
    sc['property'] = prop
    sc['seed'] = derive('run', seed, prop, index)
    sc['index'] = index
    return json.loads(json.dumps(sc))


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# What a run that was cut off counts as: nothing is known of it.
UNDECIDED = {'violation': None, 'skip': 'cut off by the harness', 'error': None, 'configured': {}, 'fired': {}, 'probes': {}, 'steps': 0, 'calls': 0, 'failed': 0,
             'solver_calls': 0, 'nontrivial': False, 'digest': '', 'shape': '', 'functions': [], 'lines': '0'}


def in_child(fn, wall=RUN_WALL):
    """Run fn() in a forked child, return its JSON-able result or an error."""
    (r, w) = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            _limits()
            data = json.dumps(fn()).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException as e:
            import traceback
            try:
                os.write(w, json.dumps({'error': 'harness: ' + traceback.format_exc()[-2000:]}).encode())
            except BaseException:
                code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + wall
    timeout = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timeout = True
            break
        (ready, _, _) = select.select([r], [], [], left)
        if not ready:
            timeout = True
            break
        data = os.read(r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    if timeout:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.waitpid(pid, 0)
    if timeout:
        return {'error': 'harness: run exceeded {} s of real time'.format(wall)}
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {'error': 'harness: child died without a result'}


def execute_isolated(module, scenario, keep_trace=False, wall=RUN_WALL):
    from . import ctx
    return in_child(lambda: ctx.run(module, scenario, keep_trace), wall)


def batch(module, prop, seed, tier, indices, workers=WORKERS, deadline=None, stop_on_violation=True, known=()):
    """Run the scenarios with the given indices; yields (index, record)."""
    indices = list(indices)
    (stop_r, stop_w) = os.pipe()
    procs = []
    for w in range(workers):
        (r, wfd) = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(stop_w)
                for i in indices[w::workers]:
                    if select.select([stop_r], [], [], 0)[0]:
                        break
                    if deadline is not None and time.monotonic() > deadline:
                        break

                    def one():
                        from . import ctx
                        sc = scenario_for(module, prop, seed, tier, i)
                        return ctx.run(module, sc)
                    rec = in_child(one)
                    line = json.dumps([i, rec]).encode() + b'\n'
                    off = 0
                    while off < len(line):
                        off += os.write(wfd, line[off:off + 65536])
            finally:
                os._exit(0)
        os.close(wfd)
        procs.append((pid, r))
    os.close(stop_r)
    buffers = {r: b'' for (_, r) in procs}
    live = set(buffers)
    stopped = False
    results = []
    while live:
        (ready, _, _) = select.select(list(live), [], [])
        for r in ready:
            data = os.read(r, 1 << 16)
            if not data:
                live.discard(r)
                os.close(r)
                continue
            buffers[r] += data
            while b'\n' in buffers[r]:
                (line, buffers[r]) = buffers[r].split(b'\n', 1)
                (i, rec) = json.loads(line)
                results.append((i, rec))
                if 'of real time' in str(rec.get('error')):
                    # Cut off by the harness (a loaded machine): undecided, not an error.
                    rec = dict(UNDECIDED)
                    results[-1] = (i, rec)
                bad = rec.get('error') or (rec.get('violation') and not is_known(prop, rec['violation'], known))
                if bad and stop_on_violation and not stopped:
                    stopped = True
                    os.close(stop_w)
    if not stopped:
        os.close(stop_w)
    for (pid, _) in procs:
        os.waitpid(pid, 0)
    results.sort(key=lambda x: x[0])
    return results


# -- known findings --------------------------------------------------------

def known_findings(prop):
    """Lines `known: property=C01 kind=<kind> match=<text> | <what fails>`."""
    out = []
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line.startswith('known:'):
                continue
            (head, _, what) = line[len('known:'):].partition('|')
            fields = dict(part.split('=', 1) for part in head.split() if '=' in part)
            if fields.get('property') == prop:
                out.append((fields.get('kind', ''), fields.get('match', '').replace('%20', ' '), what.strip()))
    return out


def is_known(prop, violation, known):
    for (kind, match, _) in known:
        if violation['kind'] == kind and match in violation['detail']:
            return True
    return False


# -- minimisation ----------------------------------------------------------

DROPPABLE = ('ops', 'symmetries', 'faults', 'terms', 'strings', 'threads', 'steps', 'operators', 'calls', 'factors',
             'coms', 'init', 'schedule', 'orth', 'transformations', 'searches', 'uses')


def _lists(node, path=()):
    if isinstance(node, dict):
        for (k, v) in node.items():
            if isinstance(v, list) and k in DROPPABLE:
                yield path + (k,)
            yield from _lists(v, path + (k,))
    elif isinstance(node, list):
        for (i, v) in enumerate(node):
            yield from _lists(v, path + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def _copy(node):
    return json.loads(json.dumps(node))


def minimise(module, scenario, kind, seconds=40.0, tries=150):
    """Delta debugging over all the droppable lists of a scenario."""
    deadline = time.monotonic() + seconds
    count = [0]

    def fails(sc):
        if count[0] >= tries or time.monotonic() > deadline:
            return False
        count[0] += 1
        rec = execute_isolated(module, sc, wall=30.0)
        v = rec.get('violation')
        return v is not None and v['kind'] == kind

    best = _copy(scenario)
    improved = True
    while improved and count[0] < tries and time.monotonic() < deadline:
        improved = False
        if hasattr(module, 'simplify'):
            for cand in module.simplify(_copy(best)):
                if fails(cand):
                    best = cand
                    improved = True
                    break
        for path in sorted(_lists(best), key=len):
            try:
                items = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            size = len(items)
            chunk = max(1, size // 2)
            while chunk >= 1:
                i = 0
                while i < len(_get(best, path)):
                    cand = _copy(best)
                    lst = _get(cand, path)
                    del lst[i:i + chunk]
                    if fails(cand):
                        best = cand
                        improved = True
                    else:
                        i += chunk
                    if count[0] >= tries or time.monotonic() > deadline:
                        break
                if chunk == 1:
                    break
                chunk //= 2
    return (best, count[0])


# -- replay ----------------------------------------------------------------

def write_replay(prop, scenario, record, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    name = '{}-{}.json'.format(prop, derive(json.dumps(scenario, sort_keys=True)) % (10 ** 10))
    path = os.path.join(REPLAYS, name)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'scenario': scenario, 'violation': record['violation'],
                   'digest': record['digest'], 'info': extra, 'trace': record.get('trace', [])[-400:]}, f, indent=1)
    return path


def replay_in_fresh_process(path):
    e = env.pinned_environment()
    e['QSIM_PINNED'] = '1'
    e['VERIF_REPO'] = env.REPO
    p = subprocess.run([sys.executable, CHECK, 'replay', path], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=180)
    return (p.returncode, p.stdout.decode(errors='replace'))


def replay(path):
    """Re-execute a replay file. Exit 1 iff the same violation recurs."""
    with open(path) as f:
        data = json.load(f)
    prop = data['property']
    env.load_repo()
    module = load_module(prop)
    if hasattr(module, 'prepare'):
        module.prepare()
    rec = execute_isolated(module, data['scenario'], keep_trace=True)
    if rec.get('error'):
        print('HARNESS-ERROR', rec['error'])
        return 2
    v = rec.get('violation')
    if v is None:
        print('no violation')
        return 0
    same = (v['kind'] == data['violation']['kind'])
    exact = (rec['digest'] == data['digest'])
    print('violation kind={} same={} exact={}'.format(v['kind'], same, exact))
    print(v['detail'])
    print('VIOLATION property={} replay={}'.format(prop, path))
    return 1


# -- a whole check ---------------------------------------------------------

def check(prop, tier, seed):
    t0 = time.monotonic()
    env.load_repo()
    module = load_module(prop)
    known = known_findings(prop)
    if hasattr(module, 'prepare'):
        module.prepare()
    runs = module.RUNS[tier]
    cap = getattr(module, 'WALL', {'quick': 240.0, 'thorough': 3000.0})[tier]
    results = batch(module, prop, seed, tier, range(runs), deadline=t0 + cap, known=known)
    late = [i for (i, r) in results if r.get('skip') == UNDECIDED['skip']]
    wall = time.monotonic() - t0
    errors = [(i, r) for (i, r) in results if r.get('error')]
    viols = [(i, r) for (i, r) in results if r.get('violation')]
    fresh = [(i, r) for (i, r) in viols if not is_known(prop, r['violation'], known)]
    status = 0
    lines_out = []
    if fresh:
        # The lowest index among those found.
        for (i, rec) in fresh[:4]:
            sc = scenario_for(module, prop, seed, tier, i)
            kind = rec['violation']['kind']
            again = execute_isolated(module, sc, keep_trace=True)
            if not again.get('violation') or again['violation']['kind'] != kind:
                continue
            (small, tries) = minimise(module, sc, kind)
            final = execute_isolated(module, small, keep_trace=True)
            if not final.get('violation') or final['violation']['kind'] != kind:
                (small, final) = (sc, again)
            path = write_replay(prop, small, final, {'verif_seed': seed, 'tier': tier, 'index': i,
                                                     'run_seed': sc['seed'], 'minimisation_runs': tries})
            (code, text) = replay_in_fresh_process(path)
            if code != 1:
                path = write_replay(prop, sc, again, {'verif_seed': seed, 'tier': tier, 'index': i,
                                                      'run_seed': sc['seed'], 'minimisation_runs': 0})
                (code, text) = replay_in_fresh_process(path)
            if code != 1:
                lines_out.append('unreproducible violation of run {}: {}'.format(i, rec['violation']))
                continue
            v = final['violation']
            lines_out.append('run {} (seed {}): {}: {}'.format(i, sc['seed'], v['kind'], v['detail']))
            if v.get('traceback'):
                lines_out.append(v['traceback'])
            lines_out.append('VIOLATION property={} replay={}'.format(prop, path))
            status = 1
            break
        else:
            status = 2
    if errors and status == 0:
        status = 2
        lines_out.append('HARNESS-ERROR run {}: {}'.format(errors[0][0], errors[0][1]['error']))
    if status == 0 and len(late) > max(5, len(results) // 50):
        status = 2
        lines_out.append('HARNESS-ERROR {} runs of {} were cut off, the first is {}'.format(len(late), len(results), late[0]))
    for (kind, match, what) in known:
        hit = [i for (i, r) in viols if r['violation']['kind'] == kind and match in r['violation']['detail']]
        lines_out.append('KNOWN-FINDING: property={} {} (met in {} runs)'.format(prop, what, len(hit)))
    write_evidence(prop, module, tier, seed, results, wall, runs, len(fresh))
    judged = [r for (_, r) in results if not r.get('skip') and not r.get('error')]
    print('{} {}: {} runs of {} in {:.1f} s, {} judged, {} distinct, {} calls, {} steps, faults {}'.format(
        prop, tier, len(results), runs, wall, len(judged), len(set(r['shape'] for r in judged)),
        sum(r['calls'] for r in judged), sum(r['steps'] for r in judged), _sum(judged, 'fired')))
    for line in lines_out:
        print(line)
    sys.stdout.flush()
    return status


def _sum(records, key):
    out = {}
    for r in records:
        for (k, v) in (r.get(key) or {}).items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def write_evidence(prop, module, tier, seed, results, wall, runs, nviol):
    os.makedirs(EVIDENCE, exist_ok=True)
    recs = [r for (_, r) in results if not r.get('error')]
    judged = [r for r in recs if not r.get('skip')]
    skips = {}
    for r in recs:
        if r.get('skip'):
            skips[r['skip']] = skips.get(r['skip'], 0) + 1
    shapes = set(r['shape'] for r in judged)
    nontrivial = set(r['shape'] for r in judged if r['nontrivial'])
    functions = set()
    for r in recs:
        functions.update(r['functions'])
    mask = 0
    for r in recs:
        mask |= int(r.get('lines', '0'), 16)
    samples = []
    for (i, r) in results[:3]:
        samples.append({'index': i, 'scenario': scenario_for(module, prop, seed, tier, i),
                        'steps': r.get('steps'), 'fired': r.get('fired')})
    steps = sum(r['steps'] for r in recs)
    data = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(nontrivial),
            'rule': module.RULE,
            'samples': samples,
            'judged_runs': len(judged),
            'skipped_runs': skips,
            'distinct_executions': len(shapes),
            'distinct_measure': 'digest of the sequence of calls with their faults, fault positions and outcomes',
            'runs_per_hour': round(len(results) / max(wall, 1e-9) * 3600),
            'seeds': 'every run has its own seed, derived from VERIF_SEED, the property and its index',
            'simulated_time_steps': steps,
            'simulated_time_unit': 'one executed source line of the library (the simulator has no other clock: the code has no timers)',
            'library_calls': sum(r['calls'] for r in recs),
            'failed_library_calls': sum(r['failed'] for r in recs),
            'solver_calls': sum(r['solver_calls'] for r in recs),
            'faults_configured': _sum(recs, 'configured'),
            'faults_fired': _sum(recs, 'fired'),
            'probes': _sum(recs, 'probes'),
            'library_functions_executed': len(functions),
            'functions': sorted(functions),
            'library_lines_reached': bin(mask).count('1'),
            'library_lines_total': len(lines.TABLE),
            'line_mask': '{:x}'.format(mask),
            'components_real': module.REAL,
            'components_stub': module.STUB,
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    path = os.path.join(EVIDENCE, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(data, f, indent=1)
    os.replace(path + '.tmp', path)


def selftest(props, seeds, runs, workers=(8, 3)):
    """Determinism: same seeds, different worker counts, same digests."""
    env.load_repo()
    bad = 0
    for prop in props:
        module = load_module(prop)
        if hasattr(module, 'prepare'):
            module.prepare()
        for s in seeds:
            logs = []
            for w in workers:
                res = batch(module, prop, s, 'quick', range(runs), workers=w, stop_on_violation=False)
                logs.append({i: (r.get('digest'), r.get('error')) for (i, r) in res})
            diff = [i for i in logs[0] if logs[0][i] != logs[1].get(i)]
            print(prop, 'seed', s, 'runs', len(logs[0]), 'differences', len(diff), diff[:5])
            sys.stdout.flush()
            bad += len(diff)
    return 1 if bad else 0
