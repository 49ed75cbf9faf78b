"""Seeded generators of scenarios' ingredients (pure JSON)."""
import itertools
import math

COEFFS = [1.0, -1.0, 0.5, 2.0, -0.5, 0.3, 1.7, -2.0]
LET = {'Pauli': 'XYZ', 'Majorana': 'ABD'}


def labels(rng, lo=1, hi=4, contiguous=None):
    n = rng.randint(lo, hi)
    if contiguous is None:
        contiguous = rng.chance(0.7)
    if contiguous:
        return list(range(n))
    return sorted(rng.sample(range(0, 13), n))


def op_type(rng):
    return rng.pick([(3, 'Pauli'), (2, 'Majorana')])


def string(rng, typ, labs, kmin=1, kmax=3):
    k = rng.randint(min(kmin, len(labs)), min(kmax, len(labs)))
    pos = sorted(rng.sample(labs, k))
    return [[rng.choice(LET[typ]), l] for l in pos]


def all_strings(typ, labs, k, identity=False):
    out = [[]] if identity else []
    for r in range(1, k + 1):
        for pos in itertools.combinations(labs, r):
            for let in itertools.product(LET[typ], repeat=r):
                out.append([[a, l] for (a, l) in zip(let, pos)])
    return out


def string_basis(rng, typ, labs, cap=48):
    """List of distinct strings: a full cluster, or a random part of it."""
    k = rng.randint(1, min(len(labs), 3))
    full = all_strings(typ, labs, k, identity=rng.chance(0.3))
    style = rng.pick([(4, 'cluster'), (3, 'subset'), (2, 'shuffled')])
    if style != 'cluster':
        rng.shuffle(full)
    if style == 'subset':
        full = full[:rng.randint(1, len(full))]
    return full[:cap]


def operator_list(rng, typ, labs, cap=20):
    """Linearly independent operators (JSON terms), generally not orthonormal."""
    strings = string_basis(rng, typ, labs, cap=cap)
    rng.shuffle(strings)
    m = rng.randint(1, len(strings))
    cplx = rng.chance(0.15)
    ops = []
    for i in range(m):
        c = rng.choice(COEFFS)
        terms = [[c, strings[i]]]
        later = strings[i + 1:]
        rng.shuffle(later)
        for s in later[:rng.pick([(4, 0), (4, 1), (2, 2), (1, 3)])]:
            c = rng.choice(COEFFS)
            if cplx and rng.chance(0.4):
                c = [c, rng.choice(COEFFS)]
            terms.append([c, s])
        if rng.chance(0.5):
            rng.shuffle(terms)
        ops.append(terms)
    rng.shuffle(ops)
    return ops


def search_space(rng, typ, labs, cap=48):
    if rng.chance(0.7):
        return {'kind': 'strings', 'strings': string_basis(rng, typ, labs, cap)}
    return {'kind': 'operators', 'operators': operator_list(rng, typ, labs, min(cap, 20))}


def hermitian(rng, typ, labs):
    """Terms of a Hermitian operator (real coefficients, distinct strings)."""
    kind = rng.pick([(3, 'total'), (3, 'bonds'), (3, 'random'), (1, 'single'), (1, 'mixed')])
    letters = LET[typ]
    terms = []
    if kind in ('total', 'mixed'):
        if typ == 'Majorana':
            a = rng.pick([(4, 'D'), (1, 'A'), (1, 'B')])
        else:
            a = rng.choice(letters)
        uniform = rng.chance(0.8)
        c = rng.choice(COEFFS)
        for l in labs:
            terms.append([c if uniform else rng.choice(COEFFS), [[a, l]]])
    if kind in ('bonds', 'mixed'):
        aniso = rng.chance(0.4)
        pairs = list(zip(labs, labs[1:])) if rng.chance(0.7) else list(itertools.combinations(labs, 2))
        kinds = [(a, a) for a in letters]
        if typ == 'Majorana':
            kinds = [('A', 'B'), ('B', 'A')] if rng.chance(0.6) else [('A', 'A'), ('B', 'B'), ('D', 'D')]
        keep = rng.sample(kinds, rng.randint(1, len(kinds)))
        base = {k: rng.choice(COEFFS) for k in keep}
        for (i, j) in pairs:
            for (a, b) in keep:
                terms.append([base[(a, b)] if not aniso else rng.choice(COEFFS), [[a, i], [b, j]]])
    if kind == 'single':
        terms = [[rng.choice(COEFFS), string(rng, typ, labs)]]
    if kind == 'random' or not terms:
        seen = []
        for _ in range(rng.randint(1, 5)):
            s = string(rng, typ, labs)
            if s not in seen:
                seen.append(s)
                terms.append([rng.choice(COEFFS), s])
    return terms


def permutation(rng, labs):
    size = max(labs) + 1
    perm = list(range(size))
    kind = rng.pick([(3, 'cycle'), (3, 'reflect'), (2, 'swap'), (2, 'random')])
    n = len(labs)
    if kind == 'cycle':
        image = labs[1:] + labs[:1]
    elif kind == 'reflect':
        image = labs[::-1]
    elif kind == 'swap' and n > 1:
        image = list(labs)
        (i, j) = rng.sample(range(n), 2)
        (image[i], image[j]) = (image[j], image[i])
    else:
        image = list(labs)
        rng.shuffle(image)
    for (l, m) in zip(labs, image):
        perm[l] = m
    return {'kind': 'permutation', 'perm': perm}


def transformation(rng, typ, labs, depth=0, rules=True):
    contiguous = labs == list(range(len(labs)))
    n = len(labs)
    options = [(4, 'permutation'), (3, 'time_reversal')]
    if typ == 'Majorana':
        options += [(3, 'particle_hole'), (1, 'charge_conjugation')]
    if contiguous and n in (2, 4):
        options += [(1, 'spin_flip')]
        if typ == 'Majorana':
            options += [(1, 'spin_parity'), (1, 'spinful_T')]
    if contiguous and n > 1:
        options += [(2, 'space_group')]
    if typ == 'Pauli' and rules:
        options += [(3, 'rule')]
    if depth == 0:
        options += [(2, 'product'), (1, 'power')]
    kind = rng.pick(options)
    if kind == 'permutation':
        return permutation(rng, labs)
    if kind in ('time_reversal', 'particle_hole', 'charge_conjugation'):
        return {'kind': kind}
    spinful = {'kind': 'chain', 'n': n // 2, 'orbitals': ['Up', 'Dn'], 'periodic': rng.chance(0.5)}
    if kind in ('spin_flip', 'spin_parity'):
        return {'kind': kind, 'chain': spinful}
    if kind == 'spinful_T':
        return {'kind': 'time_reversal', 'chain': spinful}
    if kind == 'space_group':
        ch = {'kind': 'chain', 'n': n, 'periodic': True}
        return {'kind': 'space_group', 'chain': ch, 'R': [[rng.choice([1, -1])]], 'd': [rng.randint(0, n - 1)]}
    if kind == 'rule':
        name = rng.choice(['hadamard', 'flip', 'cycle', 'rotz'])
        return {'kind': 'rule', 'name': name, 'angle': rng.choice([math.pi / 2, math.pi, 2 * math.pi / 3, 0.7])}
    if kind == 'product':
        return {'kind': 'product', 'factors': [transformation(rng, typ, labs, 1, rules) for _ in range(rng.randint(2, 3))]}
    return {'kind': 'power', 'base': transformation(rng, typ, labs, 1, rules), 'n': rng.randint(2, 3)}


def symmetry(rng, typ, labs):
    if rng.chance(0.55):
        return {'kind': 'operator', 'terms': hermitian(rng, typ, labs)}
    return {'kind': 'transformation', 'spec': transformation(rng, typ, labs)}


def solver(rng, real=0.2):
    return {'mode': 'real' if rng.chance(real) else 'legal', 'seed': rng.randrange(10 ** 9)}
