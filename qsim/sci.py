"""Approximate-symmetry searches: scenarios, execution, and an executable
model of their steps.

The model follows a search from the operators it reports: the strings a step
may use are determined by the operator reported before it (its largest
coefficients), the Hamiltonian and the options; within those strings the
reported operator has to be the best one.
"""
import math

import numpy as np

from . import build, gen, model, seams
from .build import qosy
from .ctx import Invalid

ALGS = ('selected_ci', 'sweep', 'greedy_simple', 'greedy', 'simple', 'many_ops', 'many_ops2')


# -- generation ------------------------------------------------------------

def hamiltonian(rng, typ, labs):
    letters = gen.LET[typ]
    terms = {}
    generic = rng.chance(0.5)

    def coeff():
        return round(rng.uniform(0.2, 2.0), 3) * rng.choice([1, -1]) if generic else rng.choice([1.0, -1.0, 0.5, 2.0])
    pairs = list(zip(labs, labs[1:]))
    if rng.chance(0.3) and len(labs) > 2:
        pairs.append((labs[0], labs[-1]))
    nk = rng.randint(1, 2)
    for (i, j) in pairs:
        kinds = [(a, b) for a in letters for b in letters]
        rng.shuffle(kinds)
        same = [(a, a) for a in letters]
        rng.shuffle(same)
        for (a, b) in (same if rng.chance(0.7) else kinds)[:nk]:
            terms[((a, i), (b, j))] = coeff()
    for l in labs:
        if rng.chance(0.8):
            a = rng.choice(letters)
            terms[((a, l),)] = coeff()
    if not terms:
        terms[((letters[0], labs[0]),)] = 1.0
    items = list(terms.items())
    if rng.chance(0.3):
        rng.shuffle(items)
    return [[c, [list(x) for x in s]] for (s, c) in items]


def operator(rng, typ, labs, kmax=2, lo=1, hi=3):
    out = []
    seen = []
    for _ in range(rng.randint(lo, hi)):
        s = gen.string(rng, typ, labs, 1, kmax)
        if s not in seen:
            seen.append(s)
            out.append([round(rng.uniform(-1.5, 1.5), 3) or 1.0, s])
    return out


def search(rng, typ, labs, hams, algs=ALGS, deep=False):
    """One search (JSON). hams: number of Hamiltonians to choose from."""
    alg = rng.pick([({'greedy': 5, 'selected_ci': 3, 'sweep': 3, 'many_ops': 2}.get(a, 2), a) for a in algs])
    s = {'alg': alg, 'H': rng.randrange(hams), 'init': operator(rng, typ, labs), 'steps': rng.randint(1, 6 if deep else 4), 'kw': {}}
    kw = s['kw']
    kw['threshold'] = rng.choice([1e-6, 1e-6, 1e-3, 0.02, 0.05])
    kw['max_basis_size'] = rng.choice([100, 100, 3, 5, 8, 12, 20])
    if alg == 'sweep':
        s['steps'] = rng.randint(1, 3)
        if rng.chance(0.3):
            s['orth'] = [operator(rng, typ, labs) for _ in range(rng.randint(1, 2))]
        if rng.chance(0.3):
            s['norm_fun'] = rng.choice(['support', 'size'])
        if typ == 'Pauli' and rng.chance(0.2):
            kw['expand_unitary'] = rng.randint(1, 4)
    if alg in ('selected_ci', 'sweep'):
        m = rng.choice([2, 2, 2, 3, 4])
        kw['max_num_evecs'] = m
        kw['min_num_evecs'] = rng.choice([1, 2])
        if rng.chance(0.3):
            kw['eval_threshold'] = rng.choice([1e-6, 1e-2, 1.0])
        if rng.chance(0.2):
            s['filter'] = rng.choice(['lowest', 'last', 'last' if s.get('orth') or s.get('norm_fun') else 'mix'])
        if rng.chance(0.15):
            s['trunc_filter'] = rng.choice(['support', 'identity'])
        if alg == 'sweep' and rng.chance(0.15):
            s['pre_filter'] = rng.choice(['range3', 'all'])
    if alg == 'greedy':
        kw['num_H_terms'] = rng.pick([(5, 1000), (1, 1), (2, 3), (1, 8)])
        if rng.chance(0.3):
            kw['num_O_terms'] = rng.choice([1, 2, 5])
        if rng.chance(0.15):
            kw['max_basis_size'] = [rng.choice([4, 8, 12, 30]) for _ in range(s['steps'])]
        if rng.chance(0.1):
            kw['num_H_terms'] = [rng.choice([1, 3, 1000]) for _ in range(s['steps'])]
        if rng.chance(0.3):
            s['orth'] = [operator(rng, typ, labs) for _ in range(rng.randint(1, 2))]
        if rng.chance(0.25):
            s['transformations'] = [gen.transformation(rng, typ, labs) for _ in range(rng.randint(1, 2))]
        if rng.chance(0.2):
            s['coms'] = [operator(rng, typ, labs, kmax=1) for _ in range(rng.randint(1, 2))]
        if rng.chance(0.25):
            kw['target_com_norm'] = rng.choice([1e-12, 1e-3, 0.1, 1.0, 5.0])
        if rng.chance(0.25):
            kw['min_relative_change'] = rng.choice([1e-6, 1e-2, 0.3])
        if rng.chance(0.2):
            kw['sigma'] = rng.choice([-1e-3, -1e-6])
        if rng.chance(0.35):
            s['target'] = operator(rng, typ, labs, kmax=rng.choice([1, 2, 3]), hi=4)
            if rng.chance(0.6):
                kw['target_fidelity'] = rng.choice([0.2, 0.5, 0.9, 0.99, 1.5])
        if rng.chance(0.4):
            kw['num_vecs'] = rng.choice([1, 2, 3, 6, 15])
        if rng.chance(0.3):
            kw['return_final_params'] = True
        if len(labs) > 2 and rng.chance(0.12):
            retries(rng, s)
    if alg in ('many_ops', 'many_ops2'):
        s['inits'] = [operator(rng, typ, labs) for _ in range(rng.randint(1, 3))]
        kw['num_H_terms'] = rng.pick([(5, 1000), (1, 2)])
        if alg == 'many_ops':
            if rng.chance(0.3):
                kw['num_O_terms'] = rng.choice([1, 3])
            if rng.chance(0.2):
                kw['max_basis_size'] = [rng.choice([4, 8, 30]) for _ in range(s['steps'])]
        if alg == 'many_ops2' and rng.chance(0.3):
            s['orth'] = [operator(rng, typ, labs)]
    if alg not in ('selected_ci', 'sweep', 'greedy_simple', 'simple') and rng.chance(0.4):
        kw['verbose'] = False
    if alg == 'greedy_simple' and len(labs) > 2 and rng.chance(0.15):
        # enough strings for the iterative solver
        s['init'] = operator(rng, typ, labs, kmax=3, lo=18, hi=24)
    if rng.chance(0.3):
        # leave out the options that have their default value
        s['omit'] = True
        if 'num_H_terms' in kw and not isinstance(kw['num_H_terms'], list) and rng.chance(0.5):
            kw['num_H_terms'] = DEFAULTS['num_H_terms']
    return s


DEFAULTS = {'threshold': 1e-6, 'max_basis_size': 100, 'num_H_terms': 10, 'num_O_terms': 0, 'min_num_evecs': 2, 'max_num_evecs': 2, 'return_final_params': False}


def retries(rng, s):
    """Options that make selected_ci_greedy repeat steps with more eigenvectors:
    the target is within reach of the first step, and later steps use the
    iterative solver (20 strings or more) with few eigenvectors."""
    kw = s['kw']
    s['steps'] = max(s['steps'], rng.randint(2, 4))
    s['target'] = [list(t) for t in s['init']]
    kw['target_fidelity'] = rng.choice([0.1, 0.3, 0.6, 0.9, 0.99, 0.999999])
    kw['num_vecs'] = rng.choice([1, 1, 2, 3, 8])
    kw['num_H_terms'] = rng.choice([1000, 1000, 12])
    kw['max_basis_size'] = rng.choice([1, 2, 3, 5, 8, 15, 40, 100])
    kw['num_O_terms'] = rng.choice([0, 5, 20])
    kw['threshold'] = rng.choice([1e-6, 0.02])
    for key in ('target_com_norm', 'min_relative_change'):
        kw.pop(key, None)
    if rng.chance(0.7):
        s.pop('orth', None)
        s.pop('transformations', None)
        s.pop('coms', None)


# -- user callbacks (written as a user would) --------------------------------

def _filter(kind):
    def fun(evals, evecs, basis):
        build.called()
        if kind == 'lowest':
            return (evecs[:, 0], evals[0])
        if kind == 'last':
            return (evecs[:, -1], evals[-1])
        v = evecs[:, 0] + 0.5 * evecs[:, -1]
        norm2 = float(np.real(np.vdot(v, v)))
        if evecs.shape[1] == 1:
            return (v / np.sqrt(norm2), evals[0])
        return (v / np.sqrt(norm2), (evals[0] + 0.25 * evals[-1]) / norm2)
    return fun


def _trunc_filter(kind):
    def fun(vector, basis):
        build.called()
        if kind == 'identity':
            return np.copy(vector)
        return np.array([vector[i] / len(list(basis[i].orbital_labels)) for i in range(len(basis))])
    return fun


def _norm_fun(kind):
    def size(os):
        build.called()
        return 1.0 + len(list(os.orbital_labels))

    def span(os):
        build.called()
        labels = [int(l) for l in os.orbital_labels]
        return 1.0 + max(labels) - min(labels)
    return size if kind == 'size' else span


def _pre_filter(kind):
    def fun(basis):
        build.called()
        if kind == 'all':
            return basis
        keep = [os for os in basis if max(os.orbital_labels) - min(os.orbital_labels) < 3]
        return qosy.Basis(keep) if keep else basis
    return fun


def _keep(kind, s):
    labels = [l for (_, l) in s]
    return kind == 'all' or max(labels) - min(labels) < 3


# -- execution ---------------------------------------------------------------

class Search:
    """Library objects of one search, ready to call."""

    def __init__(self, spec, ham_terms, typ):
        self.spec = spec
        self.typ = typ
        alg = spec['alg']
        if not ham_terms:
            raise Invalid('H')
        self.H = build.lib_operator(ham_terms, typ)
        self.H.coeffs = np.real(self.H.coeffs) + 0j
        kw = dict(spec['kw'])
        self.fn = getattr(qosy.algorithms, {'selected_ci': 'selected_ci', 'sweep': 'selected_ci_sweep', 'greedy_simple': 'selected_ci_greedy_simple',
                                            'greedy': 'selected_ci_greedy', 'simple': 'selected_ci_simple',
                                            'many_ops': 'selected_ci_greedy_many_ops', 'many_ops2': 'selected_ci_greedy_many_ops2'}[alg])
        if alg in ('many_ops', 'many_ops2'):
            if not spec['inits'] or any(not t for t in spec['inits']):
                raise Invalid('inits')
            self.init = [build.lib_operator(t, typ) for t in spec['inits']]
        else:
            if not spec['init']:
                raise Invalid('init')
            self.init = build.lib_operator(spec['init'], typ)
        com = self.H
        if alg == 'greedy':
            if spec.get('coms'):
                if any(not t for t in spec['coms']):
                    raise Invalid('coms')
                com = [self.H] + [build.lib_operator(t, typ) for t in spec['coms']]
            if spec.get('transformations'):
                kw['transformations'] = [build.lib_transformation(t) for t in spec['transformations']]
            if spec.get('target'):
                t = build.lib_operator(spec['target'], typ)
                t.normalize()
                kw['target_operator'] = t
            else:
                kw.pop('target_fidelity', None)
        if spec.get('orth'):
            if any(not t for t in spec['orth']):
                raise Invalid('orth')
            kw['orth_ops'] = [build.lib_operator(t, typ) for t in spec['orth']]
        if spec.get('filter'):
            kw['filter_fun' if alg == 'selected_ci' else 'post_filter_fun'] = _filter(spec['filter'])
        if spec.get('trunc_filter'):
            kw['filter_trunc_fun' if alg == 'selected_ci' else 'trunc_filter_fun'] = _trunc_filter(spec['trunc_filter'])
        if spec.get('norm_fun'):
            kw['norm_fun'] = _norm_fun(spec['norm_fun'])
        if spec.get('pre_filter'):
            kw['pre_filter_fun'] = _pre_filter(spec['pre_filter'])
        for key in ('max_basis_size', 'num_H_terms'):
            if isinstance(kw.get(key), list) and len(kw[key]) != spec['steps']:
                raise Invalid('list option')
        self.com = com
        self.kw = kw

    def args(self, record=None):
        kw = dict(self.kw)
        if self.spec.get('omit'):
            kw = {k: v for (k, v) in kw.items() if isinstance(v, (list, np.ndarray)) or k not in DEFAULTS or v != DEFAULTS[k]}
        if record is not None and self.spec['alg'] != 'simple':
            kw['explored_data'] = record
        return ((self.init, self.com, self.spec['steps']), kw)


def fresh_record():
    return (qosy.Basis(), qosy.Basis(), dict())


def penalised(spec):
    return bool(spec.get('transformations'))


def solver_for(spec, sol, faults=None):
    sim = seams.SolverSim(sol['mode'], sol['seed'], faults or {})
    if penalised(spec):
        # the penalty (1e10) is part of the matrix norm
        sim.group = 0.05
        if sim.mode == 'canon':
            sim.mode = 'legal'
    return sim


def repeat_limit(spec, nlabels):
    """How often one eigenvalue problem may be solved again in a search."""
    return 10 + 3 * (spec['steps'] + 1) * nlabels * len(spec.get('inits') or [1])


def budget(spec, hterms, nlabels, nsearch=1):
    """Bound on the executed lines of one search: a generous multiple of
    (steps) x (all strings) x (Hamiltonian terms)."""
    strings = 4 ** nlabels
    steps = spec['steps'] + 1
    if spec['alg'] == 'sweep':
        steps = spec['steps'] * nlabels + 1
    ops = len(spec.get('inits') or [1])
    terms = hterms + sum(len(t) for t in spec.get('coms') or []) + 2
    if spec['kw'].get('target_fidelity') is not None and spec.get('target'):
        steps = steps + strings      # one retry per additional eigenvector
    return 1000000 + 800 * steps * ops * strings * terms * nsearch


# -- the model ----------------------------------------------------------------

class Model:
    def __init__(self, typ, labels):
        self.alg = model.Algebra(typ, labels)
        self.comm = {}

    def commutator_string(self, s, t):
        """(coefficient, string) of [s, t]; coefficient 0 when they commute."""
        key = (s, t)
        if key not in self.comm:
            (c1, u) = self.alg.multiply(s, t)
            (c2, _) = self.alg.multiply(t, s)
            self.comm[key] = (c1 - c2, u)
        return self.comm[key]

    def expand(self, strings, hstrings, allowed=None):
        out = set()
        for t in hstrings:
            if allowed is not None and not set(l for (_, l) in t) & allowed:
                continue
            for s in strings:
                (c, u) = self.commutator_string(s, t)
                if abs(c) > 1e-9:
                    out.add(u)
        return out

    def anti(self, strings1, strings2):
        out = set()
        for s in strings1:
            for t in strings2:
                (c1, u) = self.alg.multiply(s, t)
                (c2, _) = self.alg.multiply(t, s)
                if abs(c1 + c2) > 1e-9:
                    out.add(u)
        return out

    def lmatrix(self, strings, combo):
        rows = {}
        data = []
        for (j, s) in enumerate(strings):
            for (t, h) in combo.items():
                (c, u) = self.commutator_string(s, t)
                if abs(c) > 1e-9:
                    i = rows.setdefault(u, len(rows))
                    data.append((i, j, h * c))
        m = np.zeros((max(1, len(rows)), len(strings)), dtype=complex)
        for (i, j, v) in data:
            m[i, j] += v
        return m

    def norm2(self, combo, ham):
        strings = list(combo)
        v = np.array([combo[s] for s in strings])
        return float(np.linalg.norm(self.lmatrix(strings, ham) @ v) ** 2)

    def mmatrix(self, strings, combo):
        l = self.lmatrix(strings, combo)
        return np.real(np.conj(l.T) @ l)


class Report:
    """One reported operator."""

    def __init__(self, op, norm):
        self.strings = [build.model_string(os) for (_, os) in op]
        self.vector = np.array([complex(c) for (c, _) in op])
        self.combo = dict(zip(self.strings, self.vector))
        self.norm = float(np.real(norm))


def close_set(ctx, got, lower, upper, what):
    if not set(got) >= set(lower):
        miss = sorted(set(lower) - set(got))
        ctx.violate('missing-strings', '{}: {} strings of the expansion are missing, e.g. {}'.format(what, len(miss), miss[0]))
    if not set(got) <= set(upper):
        extra = sorted(set(got) - set(upper))
        ctx.violate('foreign-strings', '{}: {} strings that no expansion produces, e.g. {}'.format(what, len(extra), extra[0]))


class Truncation:
    """Bounds (certain members, possible members) of a truncated basis."""

    def __init__(self, strings, weights, threshold, size):
        w = np.abs(np.asarray(weights))
        may = [i for i in range(len(strings)) if w[i] > threshold * (1 - 1e-9)]
        must = [i for i in range(len(strings)) if w[i] > threshold * (1 + 1e-9)]
        order = sorted(may, key=lambda i: -w[i])
        if len(order) > size:
            cut = w[order[size - 1]] if size > 0 else np.inf
            may = [i for i in order if w[i] >= cut - 1e-13]
            must = [i for i in must if w[i] > cut + 1e-13] if len(may) > size else [i for i in order[:size] if i in must]
        self.lower = set(strings[i] for i in must)
        self.upper = set(strings[i] for i in may)

    @property
    def exact(self):
        return self.lower == self.upper


class Judge:
    """Follows the reports of one search."""

    def __init__(self, ctx, spec, ham_terms, typ, labels, mdl=None, what='search'):
        self.ctx = ctx
        self.spec = spec
        self.typ = typ
        self.labels = labels
        self.m = mdl or Model(typ, labels)
        self.ham = build.model_combo(ham_terms)
        self.ham = {k: float(np.real(v)) for (k, v) in self.ham.items()}
        self.hs = list(self.ham)
        self.coms = [build.model_combo(t) for t in spec.get('coms') or []]
        self.scale = max(1.0, sum(abs(v) for v in self.ham.values()) ** 2)
        self.what = '{} {}'.format(spec['alg'], what)
        self.gaps = []               # gap of the deciding spectrum at each step
        self.determined = np.inf     # the steps after this one depend on how ties were broken
        self.probes = set()

    # each reported operator ------------------------------------------------

    def constraints(self, strings, orth):
        """Real matrix whose null space are the allowed vectors."""
        rows = []
        index = {s: i for (i, s) in enumerate(strings)}
        for terms in orth:
            v = np.zeros(len(strings))
            for (s, c) in build.model_combo(terms).items() if not isinstance(terms, dict) else terms.items():
                if s in index:
                    v[index[s]] += np.real(c)
            if np.linalg.norm(v) > 1e-3:
                rows.append(v[None, :])
            elif np.linalg.norm(v) > 1e-9:
                self.vague = True
        alg = self.m.alg
        for t in self.spec.get('transformations') or []:
            sym = build.model_symmetry(t, self.typ)
            s_mat = np.zeros((len(strings), len(strings)), dtype=complex)
            for (j, s) in enumerate(strings):
                image = alg.decompose(sym.apply_string(alg, s))
                for (u, c) in image.items():
                    if u in index:
                        s_mat[index[u], j] += c
            rows.append(np.eye(len(strings)) - 0.5 * np.real(s_mat + np.conj(s_mat.T)))
        if not rows:
            return np.zeros((0, len(strings)))
        return np.vstack(rows)

    def operator(self, r, label, orth=(), best=True):
        ctx = self.ctx
        what = '{} {}'.format(self.what, label)
        ctx.check(len(set(r.strings)) == len(r.strings), 'duplicate-strings', lambda: what + ': a string is listed twice')
        ctx.check(np.all(np.isfinite(r.vector)) and math.isfinite(r.norm), 'not-finite', lambda: what + ': not finite')
        n = float(np.linalg.norm(r.vector))
        ctx.check(abs(n - 1.0) < 1e-6, 'not-normalised', lambda: '{}: norm {}'.format(what, n))
        true = self.m.norm2(r.combo, self.ham)
        ctx.check(abs(true - r.norm) < 1e-6 * self.scale, 'untrue-norm',
                  lambda: '{}: reported commutator norm {!r}, true {!r}'.format(what, r.norm, true))
        self.vague = False
        self.gaps.append(0.0)
        orth = list(orth)
        kmat = self.constraints(r.strings, orth)
        mm = self.m.mmatrix(r.strings, self.ham)
        for c in self.coms:
            mm = mm + self.m.mmatrix(r.strings, {k: float(np.real(v)) for (k, v) in c.items()})
        if self.vague:
            self.ctx.probe('vague-constraint')
            return
        p = np.eye(len(r.strings))
        tol = 1e-6
        if kmat.shape[0]:
            p = np.real(model.null_space(kmat, low=1e-8, high=1e-4))
            tol = 1e-3 if self.spec.get('transformations') else 1e-6
            if p.shape[1] == 0:
                ctx.probe('constraints-cannot-be-met')
                return
            rest = np.linalg.norm(r.vector - p @ (p.T @ r.vector))
            self.probes.add('constrained')
            free = self.spec.get('filter') in ('last', 'mix')    # the user chose
            ctx.check(free or rest < 1e-3, 'constraint-violated', lambda: '{}: {:.2e} of the operator violates the requested constraints ({} dimensions are free)'.format(
                what, rest, p.shape[1]))
        small = p.T @ mm @ p
        if self.spec.get('norm_fun'):
            f = _norm_fun(self.spec['norm_fun'])
            d = np.array([f(build.lib_string(s, self.typ)) for s in r.strings])
            chol = np.linalg.inv(np.linalg.cholesky(p.T @ (d[:, None] * p)))
            small = chol @ small @ chol.T
        evals = np.linalg.eigvalsh(small)
        self.gaps[-1] = float(evals[1] - evals[0]) if len(evals) > 1 else np.inf
        if not best:
            return
        v = r.vector
        if self.spec.get('norm_fun'):
            value = float(np.real(np.vdot(v, mm @ v)) / np.real(np.vdot(v, d * v)))
        else:
            value = float(np.real(np.vdot(v, mm @ v)))
        sc = max(1.0, float(np.max(np.abs(evals), initial=0.0)))
        ctx.check(value <= evals[0] + tol * sc, 'not-best', lambda: '{}: commutator norm {!r}, the best operator in its {} strings has {!r}'.format(
            what, value, len(r.strings), float(evals[0])))

    # expansions -------------------------------------------------------------

    def closure(self, strings):
        ts = self.spec.get('transformations')
        if not ts:
            return set(strings)
        alg = self.m.alg
        syms = [build.model_symmetry(t, self.typ) for t in ts]
        out = list(strings)
        seen = set(out)
        i = 0
        while i < len(out):
            for sym in syms:
                for u in alg.decompose(sym.apply_string(alg, out[i])):
                    if u not in seen:
                        seen.add(u)
                        out.append(u)
            i += 1
        return seen

    def expanded(self, strings, kind, rule=None):
        """Everything a step may use, starting from these strings."""
        strings = set(strings)
        ex = self.m.expand
        if kind == 'simple':
            b = strings | ex(strings, self.hs)
            return b | ex(b, self.hs)
        if kind in ('selected_ci', 'many_ops2'):
            return strings | ex(ex(strings, self.hs), self.hs)
        if kind == 'greedy':
            a = ex(strings, self.hs)
            b = strings | ex(a, self.hs)
            for c in self.coms:
                b |= ex(a, list(c))
            if self.spec['kw'].get('num_O_terms'):
                first = self.m.anti(strings, strings)
                b |= first | self.m.anti(strings, first)
            return self.closure(b)
        raise ValueError(kind)

    # whole searches -----------------------------------------------------------

    def judge(self, value):
        alg = self.spec['alg']
        if alg == 'many_ops':
            return self.many_ops(value)
        if alg == 'many_ops2':
            return self.many_ops2(value)
        ctx = self.ctx
        (best, best_norm, ops, norms) = value[:4]
        ctx.check(len(ops) == len(norms), 'malformed-result', lambda: '{}: {} operators and {} norms'.format(self.what, len(ops), len(norms)))
        reports = [Report(o, n) for (o, n) in zip(ops, norms)]
        self.reports = reports
        bound = self.spec['steps']
        if alg == 'sweep':
            bound = self.spec['steps'] * (max(self.labels) - min(self.labels) + 1)
        ctx.check(len(reports) <= bound, 'too-many-steps', lambda: '{}: {} steps reported, {} asked for'.format(self.what, len(reports), bound))
        target = bool(self.spec.get('target'))
        for (k, r) in enumerate(reports):
            self.operator(r, 'step {}'.format(k), orth=self.spec.get('orth') or (),
                          best=not target and self.spec.get('filter') in (None, 'lowest'))
        # the best of all steps
        if reports:
            b = Report(best, best_norm)
            k = min(range(len(reports)), key=lambda i: abs(reports[i].norm))
            ctx.check(abs(abs(b.norm) - abs(reports[k].norm)) < 1e-9 * self.scale, 'not-the-best',
                      lambda: '{}: best norm {!r}, but step {} has {!r}'.format(self.what, b.norm, k, reports[k].norm))
            ctx.check(any(r.norm == b.norm and build.combo_close(r.combo, b.combo, 1e-9) for r in reports), 'not-the-best',
                      lambda: '{}: the best operator is none of the reported ones'.format(self.what))
        else:
            ctx.check(best_norm == np.inf, 'not-the-best', lambda: '{}: no step, but best norm {!r}'.format(self.what, best_norm))
            ctx.check(build.combo_close(build.combo_of(best), build.model_combo(self.spec['init']), 1e-12), 'not-the-best',
                      lambda: '{}: no step, but the best operator is not the initial one'.format(self.what))
        getattr(self, 'steps_' + {'simple': 'ci', 'selected_ci': 'ci', 'sweep': 'sweep', 'greedy_simple': 'greedy_simple', 'greedy': 'greedy'}[alg])(reports)
        for p in self.probes:
            ctx.probe(p)

    def truncate(self, r, threshold, size, k):
        w = r.vector
        if self.spec.get('trunc_filter') == 'support':
            w = np.array([w[i] / len(s) if len(s) else np.inf for (i, s) in enumerate(r.strings)])
        t = Truncation(r.strings, w, threshold, size)
        if not t.exact:
            self.tie(k)
        return t

    def tie(self, k):
        """The report of step k is determined, the following ones are not."""
        self.determined = min(self.determined, k + 1)

    def steps_ci(self, reports):
        """selected_ci and selected_ci_simple."""
        ctx = self.ctx
        alg = self.spec['alg']
        kw = self.spec['kw']
        start = set(build.model_combo(self.spec['init']))
        (lower, upper) = (start, start)
        prevs = [start] if alg == 'selected_ci' else []
        for k in range(self.spec['steps']):
            lo = self.expanded(lower, alg)
            up = lo if lower == upper else self.expanded(upper, alg)
            if k >= len(reports):
                ctx.check(alg == 'selected_ci', 'stopped-early', lambda: '{}: {} steps of {}'.format(self.what, len(reports), self.spec['steps']))
                if lo == up:
                    ctx.check(any(lo == p for p in prevs[-2:]), 'stopped-early',
                              lambda: '{}: stopped after {} of {} steps although the strings still change'.format(self.what, len(reports), self.spec['steps']))
                self.probes.add('stopped-converged')
                return
            r = reports[k]
            close_set(ctx, r.strings, lo, up, '{} step {}'.format(self.what, k))
            prevs.append(set(r.strings))
            if self.spec.get('filter') not in (None, 'lowest'):
                # the truncation uses an eigenvector that is not reported
                (lower, upper) = (set(), set(r.strings))
                self.tie(k)
            else:
                t = self.truncate(r, kw['threshold'], kw['max_basis_size'], k)
                (lower, upper) = (t.lower, t.upper)

    def steps_greedy_simple(self, reports):
        ctx = self.ctx
        current = set(build.model_combo(self.spec['init']))
        for k in range(self.spec['steps']):
            allowed = self.m.expand(self.m.expand(current, self.hs), self.hs)
            if k >= len(reports):
                ctx.check(allowed <= current, 'stopped-early', lambda: '{}: stopped after {} of {} steps although {} new strings were available'.format(
                    self.what, len(reports), self.spec['steps'], len(allowed - current)))
                self.probes.add('stopped-converged')
                return
            new = set(reports[k].strings)
            ctx.check(current <= new, 'missing-strings', lambda: '{} step {}: strings were lost'.format(self.what, k))
            ctx.check(len(new - current) == 1, 'foreign-strings' if len(new - current) > 1 else 'missing-strings',
                      lambda: '{} step {}: {} strings were added'.format(self.what, k, len(new - current)))
            close_set(ctx, new, current, current | allowed, '{} step {}'.format(self.what, k))
            current = new

    def steps_sweep(self, reports):
        ctx = self.ctx
        kw = self.spec['kw']
        maxh = max(l for s in self.hs for (_, l) in s)
        start = set(build.model_combo(self.spec['init']))
        (lower, upper) = (start, start)
        prev = start
        k = 0
        direction = 1
        exact = True
        for sweep in range(self.spec['steps']):
            if lower != upper:
                exact = False
            labels = [l for s in upper for (_, l) in s]
            if not labels:
                return
            sites = list(range(min(labels), max(labels) + 1))[::direction]
            for site in sites:
                if not exact:
                    break
                a1 = set([site, min(site + 1, maxh)])
                a2 = set([max(0, site - 1), site, min(site + 1, maxh), min(site + 2, maxh)])

                def grow(b):
                    return b | self.m.expand(self.m.expand(b, self.hs, a1), self.hs, a2)
                lo = grow(lower)
                up = grow(upper)
                if kw.get('expand_unitary') is not None and k > 0:
                    r = reports[k - 1]
                    p = set(self.m.alg.multiply(s, t)[1] for s in r.strings for t in r.strings)
                    up = up | self.m.expand(p | {()}, self.hs, a2)
                if self.spec.get('pre_filter'):
                    lo = set(s for s in lo if _keep(self.spec['pre_filter'], s)) or lo
                    up = set(s for s in up if _keep(self.spec['pre_filter'], s)) or up
                if lo == up and lo == prev:
                    (lower, upper) = (lo, up)
                    continue
                if lo != up:
                    # it may have been skipped: stop following
                    exact = False
                    if k < len(reports) and set(reports[k].strings) <= up and set(reports[k].strings) >= lo:
                        exact = True
                        if set(prev) <= up and set(prev) >= lo:
                            exact = False
                    if not exact:
                        break
                if k >= len(reports):
                    ctx.violate('stopped-early', '{}: site {} of sweep {} has new strings but there is no report'.format(self.what, site, sweep))
                r = reports[k]
                close_set(ctx, r.strings, lo, up, '{} sweep {} site {}'.format(self.what, sweep, site))
                prev = set(r.strings)
                k += 1
                if self.spec.get('filter') not in (None, 'lowest'):
                    (lower, upper) = (set(), set(r.strings))
                    exact = False
                    break
                t = self.truncate(r, kw['threshold'], kw['max_basis_size'], k - 1)
                (lower, upper) = (t.lower, t.upper)
            direction *= -1
            if not exact:
                break
        if exact:
            ctx.check(k == len(reports), 'too-many-steps', lambda: '{}: {} reports, {} expected'.format(self.what, len(reports), k))
        else:
            self.tie(k - 1)
            self.probes.add('sweep-followed-partly')

    def steps_greedy(self, reports):
        ctx = self.ctx
        kw = self.spec['kw']
        nsteps = self.spec['steps']
        threshold = kw['threshold']
        sizes = kw['max_basis_size']
        sizes = sizes if isinstance(sizes, list) else [sizes] * nsteps
        hterms = kw['num_H_terms']
        hterms = hterms if isinstance(hterms, list) else [hterms] * nsteps
        start = set(build.model_combo(self.spec['init']))
        (lower, upper) = (start, start)
        best = np.inf
        best_combo = build.model_combo(self.spec['init'])
        target = self.spec.get('target')
        tf = kw.get('target_fidelity') if target else None
        reason = None
        doubtful = False
        for (k, r) in enumerate(reports):
            doubtful = False
            up = self.expanded(upper, 'greedy')
            unlimited = hterms[k] >= 1000
            if unlimited and not self.spec['kw'].get('num_O_terms'):
                lo = self.expanded(lower, 'greedy')
            else:
                lo = self.closure(lower)
            if not unlimited and not kw.get('num_O_terms') and not self.spec.get('transformations'):
                limit = hterms[k] * (1 + len(self.coms))
                ctx.check(len(set(r.strings)) - len(lower) <= limit or lower != upper, 'foreign-strings',
                          lambda: '{} step {}: more strings than num_H_terms were added'.format(self.what, k))
                # as many as allowed, if there are as many
            close_set(ctx, r.strings, lo, up, '{} step {}'.format(self.what, k))
            ctx.check(reason is None, 'too-many-steps', lambda: '{}: step {} follows although the search had to end ({})'.format(self.what, k, reason))
            fid = None
            if target:
                tc = build.model_combo(target) if k == 0 else best_combo
                if k == 0:
                    nn = math.sqrt(sum(abs(v) ** 2 for v in tc.values()))
                    tc = {a: b / nn for (a, b) in tc.items()}
                fid = abs(sum(np.conj(tc.get(s, 0)) * v for (s, v) in r.combo.items())) ** 2
                if tf is not None and fid < tf - 1e-9:
                    reason = 'fidelity'
                    self.probes.add('fidelity-out-of-reach')
                elif tf is not None and fid < tf + 1e-9:
                    doubtful = True      # too close to call
            c = r.norm
            worse = c - best > 1e-16
            if abs(c - best) < 1e-9 * self.scale and k > 0:
                self.tie(k)          # what follows depends on round-off
            if worse:
                threshold /= 2.0
            if kw.get('min_relative_change') is not None and k >= 1:
                change = abs(c - best) / best if best else np.inf
                if abs(change - kw['min_relative_change']) < 1e-6:
                    self.tie(k)
                if worse or change < kw['min_relative_change']:
                    reason = 'relative change'
            if abs(c) < best:
                best = c
                best_combo = r.combo
            if kw.get('target_com_norm') is not None and abs(best - kw['target_com_norm']) < 1e-9 * self.scale:
                self.tie(k)
            if kw.get('target_com_norm') is not None and best < kw['target_com_norm']:
                reason = 'target norm'
            if target:
                (lower, upper) = (set(), set(r.strings))
                self.tie(k)
            else:
                t = self.truncate(r, threshold, sizes[k], k)
                (lower, upper) = (t.lower, t.upper)
        if len(reports) < nsteps:
            ctx.check(reason is not None or doubtful, 'stopped-early', lambda: '{}: {} steps of {} without a reason'.format(self.what, len(reports), nsteps))
            self.probes.add('stopped: ' + str(reason))

    def many_ops(self, value):
        ctx = self.ctx
        (ops, norms) = value
        kw = self.spec['kw']
        n = len(self.spec['inits'])
        nsteps = self.spec['steps']
        ctx.check(len(ops) == nsteps and len(norms) == nsteps, 'stopped-early' if len(ops) < nsteps else 'too-many-steps',
                  lambda: '{}: {} steps of {}'.format(self.what, len(ops), nsteps))
        sizes = kw['max_basis_size']
        sizes = sizes if isinstance(sizes, list) else [sizes] * nsteps
        current = [build.model_combo(t) for t in self.spec['inits']]
        for k in range(nsteps):
            ctx.check(len(ops[k]) == n and len(norms[k]) == n, 'malformed-result', lambda: '{}: {} operators'.format(self.what, len(ops[k])))
            for i in range(n):
                r = Report(ops[k][i], norms[k][i])
                others = [current[j] for j in range(n) if j != i]
                strings = list(current[i])
                if k == 0:
                    (lower, upper) = (set(strings), set(strings))
                else:
                    t = Truncation(strings, [current[i][s] for s in strings], kw['threshold'], sizes[k])
                    (lower, upper) = (t.lower, t.upper)
                lo = set(lower)
                if kw['num_H_terms'] >= 1000 and not kw.get('num_O_terms'):
                    lo = self.expanded(lower, 'greedy')
                close_set(ctx, r.strings, lo, self.expanded(upper, 'greedy'), '{} step {} operator {}'.format(self.what, k, i))
                self.operator(r, 'step {} operator {}'.format(k, i), orth=others)
                current[i] = r.combo
        self.determined = 0
        for p in self.probes:
            ctx.probe(p)

    def many_ops2(self, value):
        ctx = self.ctx
        (ops, norms) = value
        kw = self.spec['kw']
        n = len(self.spec['inits'])
        nsteps = self.spec['steps']
        ctx.check(len(ops) <= nsteps and len(ops) == len(norms), 'too-many-steps', lambda: '{}: {} steps of {}'.format(self.what, len(ops), nsteps))
        upper = set()
        for t in self.spec['inits']:
            upper |= set(build.model_combo(t))
        lower = set(upper)
        prevs = []
        orth = self.spec.get('orth') or []
        for k in range(len(ops)):
            ctx.check(len(ops[k]) == n and len(norms[k]) == n, 'malformed-result', lambda: '{}: {} operators'.format(self.what, len(ops[k])))
            reports = [Report(ops[k][i], norms[k][i]) for i in range(n)]
            strings = reports[0].strings
            lo = set(lower)
            if kw['num_H_terms'] >= 1000:
                lo = self.expanded(lower, 'many_ops2')
            close_set(ctx, strings, lo, self.expanded(upper, 'many_ops2'), '{} step {}'.format(self.what, k))
            vs = np.array([r.vector for r in reports]).T
            ctx.check(all(r.strings == strings for r in reports), 'malformed-result', lambda: self.what + ': operators of one step use different strings')
            ctx.check(np.max(np.abs(np.conj(vs.T) @ vs - np.eye(n))) < 1e-6, 'not-orthonormal', lambda: '{} step {}: operators not orthonormal'.format(self.what, k))
            self.operator(reports[0], 'step {} operator 0'.format(k), orth=orth)
            for i in range(1, n):
                true = self.m.norm2(reports[i].combo, self.ham)
                ctx.check(abs(true - reports[i].norm) < 1e-6 * self.scale, 'untrue-norm',
                          lambda: '{} step {} operator {}: reported norm {!r}, true {!r}'.format(self.what, k, i, reports[i].norm, true))
            if not orth:
                ev = np.linalg.eigvalsh(self.m.mmatrix(strings, self.ham))[:n]
                got = sorted(r.norm for r in reports)
                ctx.check(np.max(np.abs(ev - got)) < 1e-6 * max(1.0, self.scale), 'not-best',
                          lambda: '{} step {}: norms {}, the lowest are {}'.format(self.what, k, got, list(ev)))
            ctx.check(k == 0 or set(strings) != prevs[-1], 'too-many-steps', lambda: '{} step {}: the strings did not change, yet the search went on'.format(self.what, k))
            prevs.append(set(strings))
            (lower, upper) = (set(), set(strings))
        if len(ops) < nsteps:
            ctx.check(len(ops) >= 1, 'stopped-early', lambda: self.what + ': no step at all')
            ok = False
            for x in prevs[-2:]:
                t = x & prevs[-1]
                if x <= self.expanded(t, 'many_ops2'):
                    ok = True
            ctx.check(ok, 'stopped-early', lambda: '{}: stopped after {} of {} steps although the strings had to change'.format(self.what, len(ops), nsteps))
            self.probes.add('stopped-converged')
        self.determined = 0
        for p in self.probes:
            ctx.probe(p)


def same_answers(ctx, spec, a, b, what):
    """Compare two results of a search as far as its answer is unique.

    Returns whether everything was compared."""
    (ra, rb) = (a.reports, b.reports)
    determined = min(a.determined, b.determined)
    plain = not spec.get('norm_fun') and not spec.get('coms')
    n = max(len(ra), len(rb))
    for k in range(n):
        if k >= determined:
            return False
        ctx.check(k < len(ra) and k < len(rb), 'different-answer', lambda: '{}: {} steps instead of {}'.format(what, len(rb), len(ra)))
        (x, y) = (ra[k], rb[k])
        ctx.check(set(x.strings) == set(y.strings), 'different-answer', lambda: '{}: different strings at step {}'.format(what, k))
        unique = min(a.gaps[k], b.gaps[k]) > 1e-6
        if unique or plain:
            tol = 1e-3 if spec.get('transformations') else 1e-6
            ctx.check(abs(x.norm - y.norm) < tol * a.scale, 'different-answer', lambda: '{}: norm {!r} instead of {!r} at step {}'.format(what, y.norm, x.norm, k))
        if not unique:
            return False
        ov = abs(sum(np.conj(x.combo[s]) * y.combo[s] for s in x.strings))
        ctx.check(abs(ov - 1.0) < 1e-5, 'different-answer', lambda: '{}: different operator (overlap {:.6f}) at step {}'.format(what, ov, k))
    return determined > n
