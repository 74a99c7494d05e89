"""C13: summed fields are the sum, nested fields the first member that contains the position."""
import itertools

import numpy as np

from pk import MODES, ERRS, Field, FieldSet, ParticleSet, VectorField, func, pclass
from parcels import NestedField, SummedField
from parcels.tools.statuscodes import FieldOutOfBoundError, FieldOutOfBoundSurfaceError, TimeExtrapolationError

ID = 'C13'
LEVEL = 'model_checking'
RULE = ('every ordered list of two and three members (repetition allowed) of a pool of fields that differ in domain, depth and '
        'time range, grid and interpolation, as sum and as nesting, scalar and vector, every constructor form, sampled at every '
        'point of a position x time lattice in both modes and compared with the members sampled alone; every sequence of three '
        '"+" operations on fields and sums; every assignment of equal field names; non-trivial: at least one member contains the '
        'position; distinct by (kind, member list, point)')
BOUNDS = '5 scalar members, 5 vector members (2D, among them C-grid), 3 in 3D, lists of 2-3, 60 points, flat and spherical meshes'
ASSUMPTIONS = ['an error other than out-of-bounds of a nested member is final, as documented']

TOL = 1e-4
NT = 3


def grid1(x0, x1, n):
    return np.linspace(x0, x1, n).astype(np.float32)


DOM = {'A': dict(lon=grid1(0, 4, 5), lat=grid1(0, 4, 5)), 'B': dict(lon=grid1(1, 3, 5), lat=grid1(0, 4, 3)),
       'C': dict(lon=grid1(2, 6, 9), lat=grid1(0, 4, 5), depth=grid1(1, 2, 2)), 'D': dict(lon=grid1(-1, 7, 9), lat=grid1(-1, 6, 8), time=np.array([0., 2.])),
       'E': dict(lon=grid1(-1, 6, 8), lat=grid1(0, 4, 9), depth=grid1(0, 4, 5))}
COEF = {'A': (1., 2., 0., 0., 10.), 'B': (-1., 1., 0., 0., 3.), 'C': (.5, -1., 2., 0., 1.), 'D': (1., 1., 0., 3., -2.), 'E': (2., 0., -1., 0., 4.)}


def data(m, f=1.):
    d = DOM[m]
    a = COEF[m]
    t, z = d.get('time', np.zeros(1)), d.get('depth', np.zeros(1))
    T, Z, Y, X = np.meshgrid(t, z, d['lat'], d['lon'], indexing='ij')
    return (f * (a[0] * X + a[1] * Y + a[2] * Z + a[3] * T + a[4])).astype(np.float32)


def value(m, p, f=1.):
    t, z, y, x = p
    a = COEF[m]
    d = DOM[m]
    return f * (a[0] * x + a[1] * y + (a[2] * z if 'depth' in d else 0) + (a[3] * t if 'time' in d else 0) + a[4])


def field(m, name=None, f=1., mesh='flat'):
    return Field(name or 'F' + m, data(m, f), mesh=mesh, allow_time_extrapolation='time' not in DOM[m], **DOM[m])


POINTS = [(t, z, y, x) for t in (0.5, 2.5) for z in (0.5, 1.25, 3.5, 5.) for y, x in ((1.5, 0.5), (1.5, 1.5), (2.75, 2.5), (0.5, 3.25), (2.25, 5.5), (1., 6.5), (4.5, 2.5))]


def lists(pool):
    return [list(c) for n in (2, 3) for c in itertools.product(pool, repeat=n)]


def units(tier):
    u = [{'kind': 'scalar', 'op': op, 'mode': m, 'first': f, 'mesh': mesh} for op in ('sum', 'nest') for m in MODES for f in DOM for mesh in ('flat', 'spherical')]
    u += [{'kind': 'vector', 'op': op, 'mode': m, 'dim': d, 'mesh': mesh} for op in ('sum', 'nest') for m in MODES for d in (2, 3) for mesh in ('flat', 'spherical')]
    u += [{'kind': 'velocity', 'op': op, 'mode': m, 'dim': d, 'mesh': mesh} for op in ('sum', 'nest') for m in MODES for d in (2, 3) for mesh in ('flat', 'spherical')]
    u += [{'kind': 'plus'}] + [{'kind': 'names', 'mode': m, 'first': f} for m in MODES for f in ('F', 'F1', 'F2', 'U', 'U1')] + [{'kind': 'members', 'mode': m} for m in MODES]
    return u


def run(unit, ctx):
    globals()['run_' + unit['kind']](unit, ctx)


def execute(mode, fs, exprs, pts, nout, dtype=np.float64):
    """Samples every expression at every point (t, z, y, x) by one kernel. -> {(i, j): values or error name}"""
    src = 'def K(particle, fieldset, time):\n'
    for g in range(0, len(exprs), 12):
        src += '    if particle.grp == %d:\n' % (g // 12)
        for i, e in enumerate(exprs[g:g + 12]):
            src += '        if particle.sel == %d:\n' % i
            src += ''.join('            %s\n' % ln for ln in e)
    vs = [('k', np.int32, 0), ('sel', np.int32, 0), ('grp', np.int32, 0), ('ts', np.float64, 0.)] + [('o%d' % i, np.float64, 0.) for i in range(nout)]
    P = pclass(mode, vs, name='VP13' + mode)
    n = len(exprs) * len(pts)
    al = [(i, j) for i in range(len(exprs)) for j in range(len(pts))]
    res = [None] * n

    def handler(name):
        def f(particle, fieldset, time):
            res[int(particle.k)] = name
            particle.delete()
        return f
    ps = ParticleSet(fs, pclass=P, lon=[pts[j][3] for i, j in al], lat=[pts[j][2] for i, j in al], depth=[pts[j][1] for i, j in al], time=[0.5] * n, lonlatdepth_dtype=dtype,
                     k=list(range(n)), sel=[i % 12 for i, j in al], grp=[i // 12 for i, j in al], ts=[pts[j][0] for i, j in al])
    ps.execute(func(src, 'K'), runtime=1., dt=1., recovery={c: handler(nm) for nm, c in ERRS.items()})
    for p in ps:
        res[int(p.k)] = tuple(float(getattr(p, 'o%d' % i)) for i in range(nout))
    return {a: r for a, r in zip(al, res)}


def combine(op, outs):
    if op == 'sum':
        for o in outs:
            if isinstance(o, str):
                return o
        return tuple(sum(v) for v in zip(*outs))
    for o in outs:
        if o != 'oob':
            return o
    return 'oob'


def same(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    return len(a) == len(b) and all(abs(p - q) <= TOL * (1 + abs(p) + abs(q)) for p, q in zip(a, b))


ARG = 'particle.ts, particle.depth, particle.lat, particle.lon'


def report(ctx, unit, combos, exprs_of, single, got, pts, form):
    for i, c in enumerate(combos):
        for j, p in enumerate(pts):
            ctx.evaluations += 1
            ctx.step()
            want = combine(unit['op'], [single[m][j] for m in c])
            ctx.state((form, unit['op'], c, p, want))
            ctx.outcome(want if isinstance(want, str) else 'value')
            if any(not isinstance(single[m][j], str) for m in c):
                ctx.distinct((unit['kind'], unit['op'], form, c, p))
            if not same(want, got[i, j]):
                ctx.violate('%s %s %s %s %s %s' % (unit['mode'], unit['op'], unit['mesh'], form, c, p), 'members alone give %s, expected %s, got %s' % ([single[m][j] for m in c], want, got[i, j]))
    ctx.trace(len(combos))


def run_scalar(unit, ctx):
    pool = list(DOM)
    combos = [c for c in lists(pool) if c[0] == unit['first']]
    lon = grid1(-5, 15, 3)
    z = np.zeros((3, 3), dtype=np.float32)
    F = {m: field(m, mesh=unit['mesh']) for m in pool}
    fs = FieldSet(Field('U', z, lon=lon, lat=lon, mesh=unit['mesh']), Field('V', z, lon=lon, lat=lon, mesh=unit['mesh']), fields=dict(F_ for F_ in (('F' + m, F[m]) for m in pool)))
    exprs, forms = [], []
    for i, c in enumerate(combos):
        if unit['op'] == 'nest':
            X = NestedField('X%d' % i, [F[m] for m in c])
        elif i % 2 == 0:
            X = SummedField('X%d' % i, [F[m] for m in c])
        else:
            X = F[c[0]] + F[c[1]]
            for m in c[2:]:
                X = X + F[m]
        fs.add_field(X, 'X%d' % i)
    ex1 = [['particle.o0 = fieldset.F%s[%s]' % (m, ARG)] for m in pool]
    ex = [['particle.o0 = fieldset.X%d[%s]' % (i, ARG)] for i in range(len(combos))]
    if not ctx.case({'unit': unit}):
        return
    r1 = execute(unit['mode'], fs, ex1, POINTS, 1)
    single = {}
    for i, m in enumerate(pool):
        single[m] = [r1[i, j] for j in range(len(POINTS))]
        for j, p in enumerate(POINTS):
            v = single[m][j]
            if not isinstance(v, str):
                ctx.expect(same(v, (value(m, p),)), 'member %s %s %s' % (unit['mode'], m, p), 'member alone gives %s, defined %s' % (v, value(m, p)))
    got = execute(unit['mode'], fs, ex, POINTS, 1)
    report(ctx, unit, combos, ex, single, got, POINTS, 'value')
    ctx.tick()
    # the particle itself as argument, and inside an expression (positions at the time of the particle only)
    pts = [p for p in POINTS if p[0] == 0.5]
    s2 = {m: [v for v, p in zip(single[m], POINTS) if p[0] == 0.5] for m in pool}
    got = execute(unit['mode'], fs, [['particle.o0 = fieldset.X%d[particle]' % i] for i in range(len(combos))], pts, 1)
    report(ctx, unit, combos, None, s2, got, pts, 'particle')
    ctx.tick()
    got = execute(unit['mode'], fs, [['a = 3', 'a -= fieldset.X%d[%s]' % (i, ARG), 'particle.o0 = 3 - 2 * fieldset.X%d[%s] + fieldset.X%d[%s] - 2 * a + 3' % (i, ARG, i, ARG)]
                                     for i in range(len(combos))], pts, 1)
    # 3 - 2X + X - 2(3 - X) + 3 = X
    report(ctx, unit, combos, None, s2, got, pts, 'expression')
    ctx.sample({'members': combos[0], 'point': POINTS[0], 'alone': [single[m][0] for m in combos[0]]})


def cgrid(name, x0, mesh, f):
    lon, lat = np.meshgrid(grid1(x0, x0 + 4, 5), grid1(0, 4, 5))
    return [Field(name + c, np.full((5, 5), f * (i + 1), dtype=np.float32) + lon * .1 * (c == 'U') + lat * .1 * (c == 'V'), lon=lon, lat=lat, mesh=mesh, interp_method='cgrid_velocity')
            for i, c in enumerate('UV')]


def cgrid3(name, x0, mesh, f):
    lon, lat, dep = grid1(x0, x0 + 4, 5), grid1(0, 4, 5), grid1(0, 4, 5)
    return [Field(name + c, np.full((5, 5, 5), f * (i + 1), dtype=np.float32), lon=lon, lat=lat, depth=dep, mesh=mesh, interp_method='cgrid_velocity') for i, c in enumerate('UVW')]


def vmembers(dim, mesh):
    out = {}
    for m in 'ABD' + ('C' if dim == 3 else ''):
        out[m] = [field(m, 'v%s%s' % (m, c), f, mesh) for c, f in zip('UVW'[:dim], (1., -2., .5))]
    if dim == 2:
        out['G'] = cgrid('cg', 1., mesh, 3.)
        out['H'] = cgrid('ch', 3., mesh, -1.)
    else:
        out['G'] = cgrid3('cg', 1., mesh, 3.)
    return out


def run_vector(unit, ctx):
    dim, mesh = unit['dim'], unit['mesh']
    V = vmembers(dim, mesh)
    lon = grid1(-5, 15, 3)
    z = np.zeros((3, 3), dtype=np.float32)
    fs = FieldSet(Field('U', z, lon=lon, lat=lon, mesh=mesh), Field('V', z, lon=lon, lat=lon, mesh=mesh), fields={f.name: f for m in V for f in V[m]})
    VF = {m: VectorField('vf' + m, *V[m]) for m in V}
    for m in V:
        fs.add_vector_field(VF[m])
    combos = lists(V)
    cls = SummedField if unit['op'] == 'sum' else NestedField
    for i, c in enumerate(combos):
        X = cls('Y%d' % i, [VF[m] for m in c]) if i % 2 else cls('Y%d' % i, *[[V[m][k] for m in c] for k in range(dim)])
        fs.add_vector_field(X)
    if not ctx.case({'unit': unit}):
        return
    tg = ', '.join(['particle.o%d' % k for k in range(dim)])
    r1 = execute(unit['mode'], fs, [['(%s) = fieldset.vf%s[%s]' % (tg, m, ARG)] for m in V], POINTS, dim)
    single = {m: [r1[i, j] for j in range(len(POINTS))] for i, m in enumerate(V)}
    for lo in range(0, len(combos), 50):
        ctx.tick()
        got = execute(unit['mode'], fs, [['(%s) = fieldset.Y%d[%s]' % (tg, i, ARG)] for i in range(lo, min(lo + 50, len(combos)))], POINTS, dim)
        report(ctx, unit, combos[lo:lo + 50], None, single, got, POINTS, 'vector%d' % dim)
        pts = [p for p in POINTS if p[0] == 0.5]
        s2 = {m: [v for v, p in zip(single[m], POINTS) if p[0] == 0.5] for m in V}
        got = execute(unit['mode'], fs, [['(%s) = fieldset.Y%d[particle]' % (tg, i)] for i in range(lo, min(lo + 50, len(combos)))], pts, dim)
        report(ctx, unit, combos[lo:lo + 50], None, s2, got, pts, 'vector%d particle' % dim)


def run_velocity(unit, ctx):
    """The velocity of a field set made of several field sets whose fields have the same names."""
    dim, mesh = unit['dim'], unit['mesh']
    for c in lists('ABD' if dim == 2 else 'ACD'):
        if not ctx.case({'unit': unit, 'members': c}):
            continue
        comps = [[field(m, 'UVW'[k], (1., -2., .5)[k], mesh) for m in c] for k in range(dim)]
        if unit['op'] == 'sum':
            fl = []
            for k in range(dim):
                X = comps[k][0] + comps[k][1]
                for f in comps[k][2:]:
                    X = X + f
                fl.append(X)
        else:
            fl = [NestedField('UVW'[k], comps[k]) for k in range(dim)]
        fs = FieldSet(fl[0], fl[1], fields={'W': fl[2]} if dim == 3 else None)
        tg = ', '.join(['particle.o%d' % k for k in range(dim)])
        exprs = [['(%s) = fieldset.%s[%s]' % (tg, 'UVW'[:dim], ARG)], ['particle.o%d = fieldset.%s[%s]' % (k, 'UVW'[k], ARG) for k in range(dim)]]
        got = execute(unit['mode'], fs, exprs, POINTS, dim)
        ctx.trace()
        for j, p in enumerate(POINTS):
            ctx.evaluations += 1
            ctx.step()
            outs = []
            for m in c:
                d = DOM[m]
                t, z, y, x = p
                if not (d['lon'][0] <= x <= d['lon'][-1] and d['lat'][0] <= y <= d['lat'][-1]):
                    o = 'oob'
                elif 'depth' in d and z < d['depth'][0]:
                    o = 'surface'
                elif 'depth' in d and z > d['depth'][-1]:
                    o = 'oob'
                elif 'time' in d and t > 2:
                    o = 'time'
                else:
                    k = 1. / (1852 * 60) if mesh == 'spherical' else 1.
                    o = (value(m, p) * (k / np.cos(np.radians(y)) if mesh == 'spherical' else 1.), -2. * value(m, p) * k, .5 * value(m, p))[:dim]
                outs.append(o)
            if any(o == 'time' for o in outs):
                outs = ['time' if 'time' in DOM[m] and p[0] > 2 else o for m, o in zip(c, outs)]
            want = combine(unit['op'], outs)
            ctx.state((unit['op'], dim, mesh, c, p))
            ctx.outcome(want if isinstance(want, str) else 'value')
            if not isinstance(want, str):
                ctx.distinct(('velocity', unit['op'], dim, mesh, c, p))
            sc = max([abs(v) for v in want] + [1e-9]) if not isinstance(want, str) else 1.
            for i in range(2):
                g = got[i, j]
                ok = (g == want) if isinstance(want, str) or isinstance(g, str) else all(abs(a - b) <= TOL * (sc + abs(b)) for a, b in zip(want, g))
                ctx.expect(ok, '%s %s %s velocity%d%s %s %s' % (unit['mode'], unit['op'], mesh, dim, ' components' if i else '', c, p), 'expected %s (members %s), got %s' % (want, outs, g))


def run_plus(unit, ctx):
    """All sequences of additions: values of everything that existed before stay the same."""
    base = [field(m) for m in 'ABD']
    p = (0.5, 0., 1.5, 2.)
    vals = [float(value(m, p)) for m in 'ABD']
    for f in base:
        f.fieldset = None
    for seq in itertools.product(range(9), range(16), range(25)):
        if not ctx.case({'seq': seq}):
            continue
        pool = list(base)
        expect = list(vals)
        for n, s in enumerate(seq):
            k = 3 + n
            a, b = s // k, s % k
            pool.append(pool[a] + pool[b])
            expect.append(expect[a] + expect[b])
            ctx.step()
        got = []
        for X in pool:
            got.append(float(X[p]))
        ctx.trace()
        ctx.state(tuple(expect))
        ctx.distinct(seq)
        ctx.outcome('plus')
        ctx.expect(np.allclose(got, expect), 'plus %s' % (seq,), 'fields A, B, D and the sums made in sequence have the values %s, expected %s' % (got, expect))


def run_names(unit, ctx):
    """Fields with equal or derived names stay apart."""
    names = ['F', 'F1', 'F2', 'U', 'U1']
    for trip in itertools.product([unit['first']], names, names):
        for extra in ([], ['F1'], ['U1', 'F2']):
            if not ctx.case({'names': trip, 'extra': extra}):
                continue
            ms = 'ABD'
            S = SummedField('S', [field(m, n) for m, n in zip(ms, trip)])
            z = grid1(-5, 15, 3)
            fs = FieldSet(field('A', 'U'), field('A', 'V'))
            fs.add_field(S, 'S')
            for i, nm in enumerate(extra):
                if not hasattr(fs, nm):
                    fs.add_field(field('E', nm, 2.))
            p = (0.5, 1.25, 1.5, 2.)
            fs.check_complete()
            fl = [f.ccode_name for f in fs.get_fields()]
            ctx.step()
            ctx.state((trip, tuple(extra)))
            ctx.distinct((unit['mode'], trip, extra))
            ctx.trace()
            if len(set(fl)) == len(fl) and ctx.tier != 'thorough' and sum(map(names.index, trip)) % 7:
                ctx.outcome('generated names differ')
                continue
            got = execute(unit['mode'], fs, [['particle.o0 = fieldset.S[%s]' % ARG, 'particle.o1 = fieldset.U[%s]' % ARG] + ['particle.o%d = fieldset.%s[%s]' % (2 + i, nm, ARG)
                                             for i, nm in enumerate(extra) if nm != 'U']], [p], 4)[0, 0]
            want = [sum(value(m, p) for m in ms), value('A', p)] + [value('E', p, 2.) for nm in extra] + [0., 0.]
            ctx.outcome('sampled')
            ctx.expect(not isinstance(got, str) and np.allclose(got, want[:4], rtol=1e-4), '%s names %s %s' % (unit['mode'], trip, extra), 'S, U, extra fields give %s, expected %s' % (got, want[:4]))


def run_members(unit, ctx):
    """Members keep working in their own field sets, whatever is created and executed in which order."""
    p = (0.5, 1.25, 1.5, 2.)
    want = {'a': value('A', p), 'b': value('B', p), 's': value('A', p) + value('B', p), 'n': value('B', p)}
    for order in itertools.permutations('absn'):
        for dup in (False, True):
            if not ctx.case({'order': order, 'twice': dup}):
                continue
            fa, fb = FieldSet(field('A', 'U'), field('A', 'V')), FieldSet(field('B', 'U'), field('B', 'V'))
            sets = {'a': fa, 'b': fb, 's': FieldSet(fa.U + fb.U, fa.V + fb.V), 'n': FieldSet(NestedField('U', [fb.U, fa.U]), NestedField('V', [fb.V, fa.V]))}
            P = pclass(unit['mode'], [('o', np.float64, 0.), ('v', np.float64, 0.)], name='VP13' + unit['mode'])
            f = func('def K(particle, fieldset, time):\n    particle.o = fieldset.U[time, particle.depth, particle.lat, particle.lon]\n    (a, b) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]\n    particle.v = a + b\n', 'K')
            psets = {}
            for k in order:
                psets[k] = ParticleSet(sets[k], pclass=P, lon=[p[3]], lat=[p[2]], depth=[p[1]])
            for k in (order * 2 if dup else order[::-1]):
                psets[k].execute(f, runtime=1., dt=1.)
                q = psets[k][0]
                ctx.step()
                ctx.expect(np.allclose([q.o, q.v], [want[k], 2 * want[k]], rtol=1e-4), '%s members %s %s' % (unit['mode'], ''.join(order), k), 'U and U+V of field set %s: %s, expected %s' % (k, (q.o, q.v), want[k]))
            ctx.trace()
            ctx.state((order, dup))
            ctx.distinct((unit['mode'], order, dup))
            ctx.outcome('members')
