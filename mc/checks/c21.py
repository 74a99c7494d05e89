"""C21: a combination of kernels acts as its parts, one after the other, in each step."""
import itertools

import numpy as np

from pk import MODES, ErrorCode, FieldSet, KernelCache, ParticleSet, flat_fieldset, func, pclass

ID = 'C21'
LEVEL = 'model_checking'
RULE = ('every sequence of parts (repetition allowed) up to the length bound x every grouping (binary tree) x operand form '
        '(Kernel or plain function) x mode, executed for all combinations of per-part behaviours (one particle each: normal, '
        'early return, error with roll-back by recovery, delete, repeat) and compared with a sequential model; afterwards every '
        'part and every intermediate combination is executed again and compared with its own model; non-trivial: sequence with '
        'two or more different parts; distinct by (mode, tree, forms)')
BOUNDS = '5 parts with shared and private locals, sequences of 2-3 (thorough: 4 in SciPy and JIT), all binary trees, 3 steps, 5 behaviours per part'
ASSUMPTIONS = ['parts define their local variables before using them and use the parameter names particle, fieldset, time']

# every part reads its behaviour from the particle: 0 normal, 1 early end, 2 error, 3 repeat once with half step, 4 delete, 5 error after doing its work
GUARD = """
    if particle.b%(n)s == 1 and particle.steps > 0.5:
        return StateCode.Success
    if particle.b%(n)s == 2 and particle.rec < 0.5:
        return ErrorCode.ErrorOutOfBounds
    if particle.b%(n)s == 4 and particle.steps > 0.5:
        return OperationCode.Delete
"""
TAIL = """
    if particle.b%(n)s == 5 and particle.rec < 0.5:
        return ErrorCode.Error
"""
BODY = {
    'A': "    a = particle.x + 3\n    particle.x = a\n    particle.na += 1\n",
    'B': "    a = 2 * particle.x\n    if a > 10:\n        b = a - 1\n    else:\n        b = a + 1\n    particle.x = b\n    particle.nb += 1\n",
    'C': "    n = 0\n    while n < 2:\n        particle.x = 2 * particle.x - 1\n        n += 1\n    particle.lon += 0.125\n    particle.nc += 1\n",
    'D': "    b = particle.x\n    c = particle.dt\n    particle.x = b - 4 * c\n    particle.y = particle.y + particle.x\n    particle.steps += 1\n",
    'E': "    particle.x = -particle.x + fieldset.k0 + time\n    particle.lat += 0.25\n",
}
CINC = {}
PARTS = 'ABCDE'
K0 = 5.


def source(p):
    n = p.lower()
    return 'def part%s(particle, fieldset, time):%s%s%s' % (p, GUARD % {'n': n}, BODY[p], TAIL % {'n': n})


class End(Exception):
    def __init__(self, code):
        self.code = code


def model_part(p, s, beh, time, dt):
    b = beh.get(p, 0)
    if b == 1 and s['steps'] > .5:
        raise End('ok')
    if b == 2 and s['rec'] < .5:
        raise End('error')
    if b == 4 and s['steps'] > .5:
        raise End('delete')
    if p == 'A':
        s['x'] += 3
        s['na'] += 1
    elif p == 'B':
        a = 2 * s['x']
        s['x'] = a - 1 if a > 10 else a + 1
        s['nb'] += 1
    elif p == 'C':
        for i in range(2):
            s['x'] = 2 * s['x'] - 1
        s['lon'] += .125
        s['nc'] += 1
    elif p == 'D':
        s['x'] -= 4 * dt
        s['y'] += s['x']
        s['steps'] += 1
    elif p == 'E':
        s['x'] = -s['x'] + K0 + time
        s['lat'] += .25
    if b == 5 and s['rec'] < .5:
        raise End('error')


VARS = ['x', 'y', 'na', 'nb', 'nc', 'steps', 'rec']


def model(seq, beh, nsteps, x0):
    s = dict(x=x0, y=0., na=0., nb=0., nc=0., steps=0., rec=0., lon=.5, lat=.5)
    for n in range(nsteps):
        while True:
            back = dict(s)
            try:
                for p in seq:
                    model_part(p, s, beh, float(n), 1.)
            except End as e:
                if e.code == 'delete':
                    return None
                if e.code == 'error':
                    s = back
                    s['rec'] += 1.
                    continue
            break
    return s


def trees(n):
    if n == 1:
        return [0]
    return [(a, b) for k in range(1, n) for a in trees(k) for b in trees(n - k)]


def leaves(t):
    return 1 if t == 0 else leaves(t[0]) + leaves(t[1])


def behaviours(seq):
    used = sorted(set(seq))
    out = []
    for combo in itertools.product((0, 1, 2, 4, 5), repeat=len(used)):
        if sum(c != 0 for c in combo) <= 2:
            out.append(dict(zip(used, combo)))
    return out


def seqs(tier):
    ns = (2, 3) if tier == 'quick' else (2, 3, 4)
    return [''.join(s) for n in ns for s in itertools.product(PARTS, repeat=n)]


def units(tier):
    u = []
    for mode in MODES:
        for f in PARTS:
            for g in PARTS:
                u.append({'kind': 'trees', 'mode': mode, 'start': f + g})
    return u + [{'kind': k, 'mode': m} for m in MODES for k in ('many', 'context', 'cinc') if not (k == 'cinc' and m == 'scipy')]


def fresh(mode, seq, behs):
    P = pclass(mode, [(v, np.float64, 0.) for v in VARS] + [('b' + p.lower(), np.int32, 0) for p in PARTS], name='VP21' + mode)
    fs = flat_fieldset()
    fs.add_constant('k0', K0)
    n = len(behs)
    return fs, P, lambda fs_: ParticleSet(fs_, pclass=P, lon=[.5] * n, lat=[.5] * n, time=[0.] * n, x=[float(i % 7) for i in range(n)], lonlatdepth_dtype=np.float64,
                                          **{'b' + p.lower(): [b.get(p, 0) for b in behs] for p in PARTS})


def recover(particle, fieldset, time):
    particle.rec += 1.


def observe(ps):
    return {int(q.id): {v: float(getattr(q, v)) for v in VARS + ['lon', 'lat']} for q in ps}


def check(ctx, mode, seq, tree, forms, what, ps, behs, first, nsteps):
    got = observe(ps)
    for i, b in enumerate(behs):
        want = model(seq, b, nsteps, float(i % 7))
        g = got.get(first + i)
        ctx.step(nsteps)
        ctx.evaluations += 1
        ctx.outcome('deleted' if want is None else 'recovered' if want['rec'] else 'early' if 1 in b.values() else 'plain')
        ctx.state((seq, tuple(sorted(b.items())), None if want is None else tuple(want.values())))
        ctx.expect(g == want, '%s %s %s %s %s %s' % (mode, seq, tree, forms, what, sorted(b.items())), 'expected %s, got %s' % (want, g))


def run(unit, ctx):
    globals()['run_' + unit['kind']](unit, ctx)


def build(ps, seq, tree, forms, kernels):
    """Combination of the parts in the form of the tree: leaf i is a Kernel or a function according to forms[i]. Returns the
    combination and all intermediate Kernel objects with their sequences."""
    made = []
    pos = [0]

    def go(t):
        if t == 0:
            i = pos[0]
            pos[0] += 1
            f = kernels[seq[i]]
            if forms[i] == 'k':
                k = ps.Kernel(f)
                made.append((seq[i], k))
                return k, seq[i]
            return f, seq[i]
        (a, sa), (b, sb) = go(t[0]), go(t[1])
        k = a + b
        made.append((sa + sb, k))
        return k, sa + sb
    return go(tree)[0], made


def formsof(seq, tree, full):
    """Operand forms such that no '+' has two functions as operands."""
    n = len(seq)
    out = []

    def ok(t, forms):
        if t == 0:
            return forms.pop(0)
        a, b = ok(t[0], forms), ok(t[1], forms)
        if a == 'f' and b == 'f' or a is None or b is None:
            return None
        return 'k'
    for f in itertools.product('kf', repeat=n):
        if ok(tree, list(f)):
            out.append(''.join(f))
    return out if full else [out[sum(map(ord, seq)) % len(out)]]


FUNCS = {}


def funcs():
    if not FUNCS:
        for p in PARTS:
            FUNCS[p] = func(source(p), 'part' + p)
    return FUNCS


def run_trees(unit, ctx):
    mode = unit['mode']
    F = funcs()
    for seq in seqs(ctx.tier):
        if not seq.startswith(unit['start']):
            continue
        ts = trees(len(seq))
        if mode == 'jit' and len(seq) > 3:
            ts = [ts[sum(map(ord, seq)) % len(ts)]]
        for ti, tree in enumerate(ts):
            for forms in formsof(seq, tree, mode == 'scipy' and len(set(seq)) == len(seq) and len(seq) < 4 and seq < 'C'):
                if not ctx.case({'unit': unit, 'seq': seq, 'tree': str(tree), 'forms': forms}):
                    continue
                behs = behaviours(seq) if ti == 0 and (mode == 'jit' or len(set(seq)) < 3 or forms[0] == 'f') else [{}] + [{p: c} for p in sorted(set(seq)) for c in (1, 2, 4, 5)]
                fs, P, make = fresh(mode, seq, behs)
                ps = make(fs)
                first = int(min(q.id for q in ps))
                k, made = build(ps, seq, tree, forms, F)
                ps.execute(k, runtime=3., dt=1., recovery={ErrorCode.ErrorOutOfBounds: recover, ErrorCode.Error: recover})
                check(ctx, mode, seq, tree, forms, 'combined', ps, behs, first, 3)
                ctx.trace()
                if len(set(seq)) > 1:
                    ctx.distinct((mode, seq, str(tree), forms))
                # the parts and intermediate combinations are as they were
                for s, kk in made[:-1] if mode == 'scipy' else made[ti % 2:-1:2]:
                    ps = make(fs)
                    first = int(min(q.id for q in ps))
                    ps.execute(kk, runtime=1., dt=1., recovery={ErrorCode.ErrorOutOfBounds: recover, ErrorCode.Error: recover})
                    check(ctx, mode, s, tree, forms, 'part of %s afterwards' % seq, ps, behs, first, 1)
        ctx.tick()
    ctx.sample({'sequence': unit['start'], 'mode': mode})


def run_many(unit, ctx):
    """One part kernel is combined into several combinations, built before any is executed, executed in any order on several sets."""
    mode = unit['mode']
    F = funcs()
    for perm in itertools.permutations('ABD', 3):
        for order in itertools.permutations(range(3)):
            if mode == 'jit' and (perm[0] != 'A') and order[0] != 0:
                continue
            if not ctx.case({'unit': unit, 'parts': perm, 'order': order}):
                continue
            p, q, r = perm
            behs = [{}] + [{s: c} for s in perm for c in (1, 2)]
            fs, P, make = fresh(mode, perm, behs)
            ps0 = make(fs)
            kp, kq, kr = (ps0.Kernel(F[s]) for s in perm)
            combos = [(p + q, kp + kq), (p + q + p, kp + kq + kp), (q + p + r, kq + (kp + kr))]
            for o in order:
                s, k = combos[o]
                ps = make(fs)
                first = int(min(x.id for x in ps))
                ps.execute(k, runtime=2., dt=1., recovery={ErrorCode.ErrorOutOfBounds: recover, ErrorCode.Error: recover})
                check(ctx, mode, s, 'many', str(order), s, ps, behs, first, 2)
            ctx.trace()
            ctx.distinct((mode, perm, order))
        ctx.tick()


def run_context(unit, ctx):
    """Names a part uses from its own module (SciPy) and the random and math modules keep their meaning when combined."""
    mode = unit['mode']
    fs = flat_fieldset()
    P = pclass(mode, [('x', np.float64, 0.), ('y', np.float64, 0.)], name='VP21c' + mode)
    bodies = {'math': ('    particle.x += math.sqrt(16.)\n', {}, lambda x, y: (x + 4, y)), 'fabs': ('    particle.x = 2 * math.fabs(-1 - particle.x)\n', {}, lambda x, y: (2 * (x + 1), y)),
              'rand': ('    particle.y = ParcelsRandom.uniform(2., 2.)\n', {}, lambda x, y: (x, 2.))}
    if mode == 'scipy':
        bodies['const'] = ('    particle.x += CONST\n', {'CONST': 7.}, lambda x, y: (x + 7, y))
        bodies['helper'] = ('    particle.y += helper(particle.x)\n', {'helper': lambda v: 2 * v}, lambda x, y: (x, y + 2 * x))
    import __main__
    before = {k: id(v) for k, v in vars(__main__).items()}
    for n in (2, 3):
        for names in itertools.permutations(sorted(bodies), n):
            if not ctx.case({'unit': unit, 'parts': names}):
                continue
            ps = ParticleSet(fs, pclass=P, lon=[.5], lat=[.5], lonlatdepth_dtype=np.float64)
            fl = [func('def %s(particle, fieldset, time):\n%s' % ('p' + nm, bodies[nm][0]), 'p' + nm, bodies[nm][1]) for nm in names]
            k = ps.Kernel(fl[0])
            for f in fl[1:]:
                k = k + f
            ps.execute(k, runtime=2., dt=1.)
            x, y = 0., 0.
            for s in range(2):
                for nm in names:
                    x, y = bodies[nm][2](x, y)
            ctx.step(2)
            ctx.trace()
            ctx.state((names, x, y))
            ctx.distinct((mode, names))
            ctx.outcome('context')
            ctx.expect((ps[0].x, ps[0].y) == (x, y), '%s context %s' % (mode, names), 'expected %s, got %s' % ((x, y), (ps[0].x, ps[0].y)))
        ctx.tick()
    after = {k: id(v) for k, v in vars(__main__).items()}
    ctx.expect(before == after, '%s context __main__' % mode, 'combining kernels changed the names %s of the main program' % sorted(k for k in after if before.get(k) != after[k]))


def run_cinc(unit, ctx):
    fs = flat_fieldset()
    P = pclass('jit', [('x', np.float64, 0.)], name='VP21i')
    inc = {c: 'static inline StatusCode func%s(double *x)\n{\n  %s\n  return SUCCESS;\n}\n' % (c, b) for c, b in (('a', '*x = *x + 3;'), ('b', '*x = 2 * *x;'), ('c', '*x = 1 - *x;'))}
    mod = {'a': lambda x: x + 3, 'b': lambda x: 2 * x, 'c': lambda x: 1 - x}
    import os
    for c in 'ab':
        with open(os.path.join(ctx.scratch, 'inc%s.h' % c), 'w') as fl:
            fl.write(inc[c])
    for form, names, group in [(fm, ''.join(nm), g) for n in (1, 2, 3, 4) for nm in itertools.product('abc', repeat=n) if n < 4 or nm[0] != nm[1] and len(set(nm)) == 2
                               for fm in ('text', 'file') for g in ((0, 1) if n == 4 else (0,))]:
        for once in (1,):
            if not ctx.case({'unit': unit, 'parts': names, 'form': form, 'grouping': group}):
                continue
            ps = ParticleSet(fs, pclass=P, lon=[.5], lat=[.5], lonlatdepth_dtype=np.float64)
            kk = []
            for nm in names:
                f = func("def k%s(particle, fieldset, time):\n    func%s('parcels_customed_Cfunc_pointer_args', particle.x)\n" % (nm, nm), 'k' + nm)
                kk.append(ps.Kernel(f, c_include=os.path.join(ctx.scratch, 'inc%s.h' % nm) if form == 'file' and nm != 'c' else inc[nm]))
            if group:
                k = (kk[0] + kk[1]) + (kk[2] + kk[3])
            else:
                k = kk[0]
                for k2 in kk[1:]:
                    k = k + k2
            ps.execute(k, runtime=2., dt=1.)
            x = 0.
            for s in range(2):
                for nm in names:
                    x = mod[nm](x)
            ctx.step(2)
            ctx.trace()
            ctx.state((names, x))
            ctx.distinct((names, form, group))
            ctx.outcome('c functions')
            ctx.expect(ps[0].x == x, 'jit cinc %s %s %d' % (names, form, group), 'expected %s, got %s' % (x, ps[0].x))
