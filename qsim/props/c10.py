"""C10: results survive restarts and do not depend on the hash seed."""
import copy
import json
import pickle

import numpy as np

from .. import api, build, gen, sci, seams, snap, zygote
from ..alone import alone, merge
from ..build import qosy
from ..ctx import Ctx, Invalid, Skip
from .c07 import trimmed

alg = qosy.algorithms
RUNS = {'quick': 4000, 'thorough': 60000}
WALL = {'quick': 200.0, 'thorough': 3000.0}
TOL = 1e-9
RULE = ('A run draws a program (calls on a pool of objects, a generator that is built, extended and run, searches sharing an exploration record, in-place edits, results used as inputs) and kills the '
        'process at chosen points: everything the program holds is serialised (one dump), and a fresh interpreter with another hash seed loads it (and builds some unchanged inputs anew) and goes on; or it is deep-copied and the original is '
        'overwritten. Every step is compared with the same program run without restarts. Non-trivial when at least one restart or deep copy took place (or the whole program ran under another hash seed) and a step succeeded.')
REAL = ['every public function in qsim/api.py; pickle and copy; interpreter processes with their own hash seed']
STUB = ['eigensolver answers (canonical)', 'a fresh process is a fork of an interpreter that has only imported the library']


# many_ops draws from numpy's random stream, whose state is not the library's to save
ALGS = ('selected_ci', 'sweep', 'greedy_simple', 'greedy', 'greedy', 'greedy', 'many_ops2')


def prepare():
    zygote.start()


# -- program steps ---------------------------------------------------------------

def step(state, s, ctx):
    """Execute one step of the program; returns the snapshot key."""
    do = s['do']
    world = View(state)
    if do == 'call':
        r = api.invoke(ctx, world, s['call'], budget=600000)
        if r.outcome.hang:
            raise Skip('too long')
        if r.ok and s.get('keep'):
            state[s['keep']] = r.outcome.value
        return r.key()
    fn = STEPS[do]
    np.random.seed(12345)
    o = ctx.call(fn, state, s, label=do, budget=600000)
    if o.hang:
        raise Skip('too long')
    return api.Result(o, snap.snap(o.value) if o.ok else None, o.out).key()


class View:
    def __init__(self, state):
        self.objects = state

    def resolve(self, arg):
        if isinstance(arg, dict) and 'ref' in arg:
            return self.objects[arg['ref']]
        if isinstance(arg, dict) and 'refs' in arg:
            return [self.objects[n] for n in arg['refs']]
        if isinstance(arg, dict) and 'inf' in arg:
            return float('inf')
        return arg


def _gen_new(state, s):
    state[s['var']] = qosy.SymmetricOperatorGenerator(state[s['basis']])


def _gen_add(state, s):
    state[s['var']].add_symmetry(state[s['symmetry']], operation_mode=s['mode'], num_vecs=s.get('num_vecs'))


def _gen_run(state, s):
    g = state[s['var']]
    ops = g.generate(mode=s['mode'], sparsification=s['sparse'], orthogonalization=s['orth'], verbose=s['verbose'])
    return (ops, g.eigenvalues, g.eigenvectors, g.output_operators, g.projected_output_operators)


def _record_new(state, s):
    state[s['var']] = [qosy.Basis(), qosy.Basis(), dict()]


def _record(state, s):
    return tuple(state[s['var']])


def _search(state, s):
    rec = _record(state, s)
    if s['how'] == 'greedy':
        return alg.selected_ci_greedy(state[s['init']], state[s['H']], s['steps'], num_H_terms=s['terms'], max_basis_size=s['size'],
                                      explored_data=rec, verbose=s['verbose'])
    if s['how'] == 'selected_ci':
        return qosy.selected_ci(state[s['init']], state[s['H']], s['steps'], max_basis_size=s['size'], explored_data=rec)
    return alg.selected_ci_sweep(state[s['init']], state[s['H']], 1, max_basis_size=s['size'], explored_data=rec)


def _sci(state, s):
    """A search with any of the options, described by itself."""
    lib = sci.Search(s['spec'], s['ham'], s['type'])
    (args, kw) = lib.args(_record(state, s) if s.get('var') else None)
    return lib.fn(*args, **kw)


def _explored(state, s):
    """What the record contains, in its order."""
    (b, e, data) = state[s['var']]
    return (b, e, [(k, v[:3]) for (k, v) in data.items()])


def _iadd(state, s):
    state[s['var']] += state[s['other']]
    return state[s['var']]


def _grow(state, s):
    typ = s['type']
    x = build.lib_string((('X' if typ == 'Pauli' else 'A', 9),), typ)
    if x not in state[s['var']]:
        state[s['var']] += x
    return (state[s['var']], state[s['var']].index(x))


def _lookup(state, s):
    """Equal strings built now are found in containers that came from before."""
    b = state[s['var']]
    out = []
    for old in list(b):
        new = qosy.OperatorString(list(old.orbital_operators), list(old.orbital_labels), old.op_type, prefactor=old.prefactor)
        out.append((new in b, b.index(new), new == old, hash(new) == hash(old), {old: 1}.get(new), {new: 1}.get(old)))
    return out


def _arith(state, s):
    (a, b) = (state[s['a']], state[s['b']])
    out = [a + b, a - 2.0 * b, qosy.commutator(a, b), qosy.product(a, b), a == b, a.norm()]
    if s.get('keep'):
        state[s['keep']] = out[0]
    return out


def _permute(state, s):
    """Sorting and hashing of strings from different processes together."""
    strings = list(state['b0']) + list(state['b1'])
    seen = {}
    for x in strings:
        seen.setdefault(x, len(seen))
    return ([seen[x] for x in strings], len(seen), len(set(strings)))


STEPS = {'gen_new': _gen_new, 'gen_add': _gen_add, 'gen_run': _gen_run, 'record_new': _record_new, 'search': _search, 'sci': _sci, 'explored': _explored,
         'iadd': _iadd, 'grow': _grow, 'lookup': _lookup, 'arith': _arith, 'permute': _permute}


FRESH = ('operator', 'basis', 'string', 'strings', 'normalized', 'operators', 'transformation', 'lattice', 'unitcell', 'array', 'text')


def eligible(flags):
    return not flags.get('plots')


def generate(rng, tier, index):
    (info, pool) = api.generate_pool(rng, tier, rules=rng.chance(0.7))
    steps = []
    (ngen, nrec, nkeep) = (0, 0, 0)
    kept = []
    have = {'gens': [], 'recs': []}
    extra = set(['b0', 'b1'])
    for _ in range(rng.randint(2, 7)):
        kind = rng.pick([(5, 'call'), (3, 'gen'), (3, 'rec'), (1, 'iadd'), (1, 'grow'), (2, 'lookup'), (2, 'arith'), (1, 'permute')])
        if kind == 'call':
            sel = (lambda f: eligible(f) and (f.get('core') or f.get('search') or f.get('prints'))) if rng.chance(0.3) else eligible
            c = api.generate_call(rng, info, sel, tier)
            steps.append({'do': 'call', 'call': c, 'keep': None})
            extra.update(api.refs_of(c))
        elif kind == 'gen':
            if not have['gens'] or rng.chance(0.3):
                v = 'g{}'.format(len(have['gens']))
                have['gens'].append(v)
                b = rng.choice(['b0', 'b1', 'bf', 'l0'])
                extra.add(b)
                steps.append({'do': 'gen_new', 'var': v, 'basis': b})
            v = rng.choice(have['gens'])
            for _ in range(rng.randint(1, 2)):
                if rng.chance(0.6):
                    sym = rng.choice(['o0', 'o1', 't0', 't1', 'tq'])
                    extra.add(sym)
                    steps.append({'do': 'gen_add', 'var': v, 'symmetry': sym, 'mode': rng.pick([(3, 'commutator'), (1, 'anticommutator')])})
                else:
                    steps.append({'do': 'gen_run', 'var': v, 'mode': rng.pick([(2, 'cumulative'), (1, 'noncumulative')]), 'sparse': rng.chance(0.5),
                                  'orth': rng.chance(0.3), 'verbose': rng.chance(0.2)})
        elif kind == 'rec':
            if not have['recs'] or rng.chance(0.2):
                v = 'r{}'.format(len(have['recs']))
                have['recs'].append(v)
                steps.append({'do': 'record_new', 'var': v})
            v = rng.choice(have['recs'])
            (a, b) = (rng.choice(['o0', 'o2']), rng.choice(['o1', 'o2']))
            extra.update([a, b])
            steps.append({'do': 'search', 'var': v, 'init': a, 'H': b, 'how': rng.pick([(3, 'greedy'), (2, 'selected_ci'), (1, 'sweep')]),
                          'steps': rng.randint(1, 2), 'terms': rng.randint(1, 3), 'size': rng.choice([4, 100]), 'verbose': rng.chance(0.2)})
            if rng.chance(0.6):
                labs = list(range(info['n'] if rng.chance(0.5) else 3))
                spec = sci.search(rng, info['type'], labs, 1, ALGS)
                spec['steps'] = min(spec['steps'], 2)
                for key in ('max_basis_size', 'num_H_terms'):
                    if isinstance(spec['kw'].get(key), list):
                        spec['kw'][key] = spec['kw'][key][0]
                spec['init'] = sci.operator(rng, info['type'], labs, 2, 1, 4)
                if spec['alg'] == 'greedy' and rng.chance(0.5):
                    spec['kw']['num_O_terms'] = rng.choice([1, 2, 3, 5])
                steps[-1] = {'do': 'sci', 'var': v, 'spec': spec, 'ham': sci.hamiltonian(rng, info['type'], labs), 'type': info['type']}
            if rng.chance(0.5):
                steps.append({'do': 'explored', 'var': v})
        elif kind == 'iadd':
            (a, b) = (rng.choice(['o0', 'o1', 'o2']), rng.choice(['o0', 'o1', 'oz']))
            extra.update([a, b])
            steps.append({'do': 'iadd', 'var': a, 'other': b})
        elif kind == 'grow':
            steps.append({'do': 'grow', 'var': rng.choice(['b0', 'b1']), 'type': info['type']})
        elif kind == 'lookup':
            v = rng.choice(['b0', 'b1', 'bf'])
            extra.add(v)
            steps.append({'do': 'lookup', 'var': v})
        elif kind == 'arith':
            (a, b) = (rng.choice(['o0', 'o1', 'ob'] + kept), rng.choice(['o1', 'o2'] + kept))
            extra.update([a, b])
            k = 'k{}'.format(nkeep)
            nkeep += 1
            steps.append({'do': 'arith', 'a': a, 'b': b, 'keep': k})
            kept.append(k)
        else:
            steps.append({'do': 'permute'})
    # restarts
    cuts = []
    how = rng.pick([(1, 'none'), (4, 'some'), (1, 'all')])
    for i in range(len(steps) + 1):
        if how == 'all' or (how == 'some' and rng.chance(0.4)):
            cuts.append({'at': i, 'how': rng.pick([(4, 'restart'), (1, 'deepcopy')]), 'zygote': rng.randrange(4), 'protocol': rng.choice([2, 4, 5])})
    # objects that nobody changed may be built anew after a restart, and meet those that were saved
    changed = set(s['var'] for s in steps if s['do'] in ('iadd', 'grow'))
    fresh = [n for n in sorted(extra) if n in pool and n not in changed and pool[n]['kind'] in FRESH]
    for c in cuts:
        c['fresh'] = [n for n in fresh if rng.chance(0.5)] if c['how'] == 'restart' and rng.chance(0.6) else []
    pool = trimmed(pool, [{'args': [{'ref': n} for n in sorted(extra)], 'kw': {}}])
    return {'info': info, 'pool': pool, 'steps': [dict(s, n=i) for (i, s) in enumerate(steps)], 'faults': cuts, 'first': rng.randrange(4)}


def program(pool, steps, data=None, cuts=(), protocol=None):
    """Run steps; returns (keys, serialised state or None, stats)."""
    ctx = Ctx()
    seams.seed_randomness(1)
    if data is None:
        w = api.World(pool)
        w.build_all()
        state = dict(w.objects)
    else:
        state = pickle.loads(data)
    keys = []
    try:
        for s in steps:
            if s['do'] == 'rebuild':
                for n in s['names']:
                    state[n] = api.World(pool).get(n)
                continue
            if s['do'] == 'deepcopy':
                new = copy.deepcopy(state)
                from .c08 import scramble
                for name in sorted(state):
                    if not isinstance(state[name], (qosy.Lattice, qosy.Transformation)):
                        scramble(state[name])
                state = new
                continue
            keys.append(step(state, s, ctx))
    except Skip as e:
        return ('skip', str(e))
    except KeyError as e:
        return ('invalid', str(e))
    out = None
    if protocol is not None:
        out = pickle.dumps(state, protocol=protocol)
    return ('ok', keys, out, state_key(state), {'steps': ctx.steps, 'calls': ctx.calls, 'solver_calls': ctx.solver_calls, 'functions': ctx.functions, 'lines': ctx.lines})


def state_key(state):
    return {n: snap.snap(state[n]) for n in sorted(state) if not n.startswith('r')}


def attempt(*args):
    """Like program, reporting serialisation problems as results."""
    try:
        return program(*args)
    except (pickle.PicklingError, pickle.UnpicklingError, AttributeError, TypeError, ValueError, copy.Error, KeyError, IndexError, ImportError, EOFError) as e:
        return ('broken', '{}: {}'.format(type(e).__name__, str(e)[:300]))


def execute(sc, ctx):
    (pool, steps) = (sc['pool'], sc['steps'])
    (ref, stats) = alone(lambda c: program(pool, steps))
    if ref[0] == 'skip':
        raise Skip(ref[1])
    if ref[0] == 'invalid':
        raise Invalid(ref[1])
    (_, refkeys, _, refstate, st) = ref
    merge(ctx, st)
    # the segments between restarts
    segments = [[]]
    info = [{'zygote': sc['first'], 'protocol': None}]
    cuts = {}
    for c in sc['faults']:
        cuts.setdefault(c['at'], []).append(c)
    for s in steps + [None]:
        at = s['n'] if s is not None else max([x['n'] for x in steps] + [-1]) + 1
        for c in cuts.get(at, []):
            if c['how'] == 'deepcopy':
                segments[-1].append({'do': 'deepcopy'})
                ctx.configured('deepcopy')
                ctx.fired('deepcopy')
            else:
                info[-1]['protocol'] = c['protocol']
                info.append({'zygote': c['zygote'], 'protocol': None})
                fresh = [n for n in c.get('fresh', []) if n in pool]
                segments.append([{'do': 'rebuild', 'names': fresh}] if fresh else [])
                if fresh:
                    ctx.probe('rebuilt-objects', len(fresh))
                ctx.configured('restart')
                ctx.fired('restart')
        if s is not None:
            segments[-1].append(s)
    data = None
    keys = []
    final = None
    where = 0
    for (seg, i) in zip(segments, info):
        answer = zygote.request(i['zygote'], 'qsim.props.c10:attempt', pool, seg, data, (), i['protocol'])
        (status, out) = answer
        if status == 'error':
            from ..env import HarnessError
            raise HarnessError(out)
        if out[0] == 'skip':
            raise Skip(out[1])
        ctx.check(out[0] == 'ok', 'cannot-continue', lambda: 'after step {} of {}: {}'.format(len(keys), len(refkeys), out[1]))
        keys.extend(out[1])
        data = out[2]
        final = out[3]
        merge(ctx, out[4])
        ctx.state(i['zygote'], [s['do'] for s in seg])
    ctx.fired('hash-seed-change')
    for (n, (a, b, s)) in enumerate(zip(refkeys, keys, steps)):
        if a[0] == 'raised' and b[0] == 'raised' and a[1] == b[1]:
            continue
        d = snap.diff(a, b, TOL)
        ctx.check(d is None, 'differs', lambda: 'step {} ({}) gives another result with {} restarts: {} {} / {} {}'.format(
            n, s['call']['fn'] if s['do'] == 'call' else s['do'], len(segments) - 1, d, a[0], b[0], b[1] if b[0] == 'raised' else ''))
        ctx.state(s['do'], a[0])
        if a[0] == 'returned':
            ctx.nontrivial = True
    ctx.check(len(keys) == len(refkeys), 'differs', lambda: '{} steps of {}'.format(len(keys), len(refkeys)))
    for n in refstate:
        d = snap.diff(refstate[n], final.get(n), TOL)
        ctx.check(d is None, 'state-differs', lambda: 'the object {} ends up different: {}'.format(n, d))
    ctx.log('keys', tuple(snap.text(k) for k in keys))
