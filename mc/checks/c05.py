"""C05: cutting, interrupting, reordering and splitting up a run does not change any particle."""
import itertools

import numpy as np

from pk import MODES, FieldSet, KernelCache, ParticleSet, func, pclass
from parcels import AdvectionEE, AdvectionRK4, AdvectionRK4_3D, AdvectionRK45

ID = 'C05'
LEVEL = 'model_checking'
RULE = ('for every mode x direction x mesh x kernel: every composition of the run (5 steps; thorough 7) into consecutive execute calls x '
        'output interval x callback interval, and every order and every subset of the particles; each result is compared bit for bit with '
        'the uncut run of each particle alone; non-trivial: more than one call, interruption or order different from the reference; '
        'distinct by (configuration, cut, intervals, order)')
BOUNDS = ('3 particles (one released later), |dt| 300 s, 5 (7) steps, intervals of 1, 2 and 3 steps, end given as end time or duration; '
          'kernels: RK4, 3D RK4, EE, RK45 (orders and subsets only), custom kernel with deletion and field write-back')
ASSUMPTIONS = ['all cuts lie on step boundaries']
DT = 300.
SRC = """
def custom(particle, fieldset, time):
    u = fieldset.U[time, particle.depth, particle.lat, particle.lon]
    particle.a = particle.a + u * math.cos(time / 1000.)
    particle.b += 1
    particle.lon += 0.01 * particle.a
    particle.lat += fieldset.V[time, particle.depth, particle.lat, particle.lon] * particle.dt
    if particle.b == particle.kd:
        particle.delete()
"""
VARS = [('a', np.float64, 0.), ('b', np.int32, 0), ('kd', np.int32, -1)]
KERNELS = {'RK4': AdvectionRK4, 'RK4_3D': AdvectionRK4_3D, 'EE': AdvectionEE, 'RK45': AdvectionRK45, 'custom': None}


def fieldset(mesh):
    n = 6
    x = np.linspace(0, 1, n).astype(np.float32)
    z = np.array([0., 10., 30.], dtype=np.float32)
    t = np.array([-4000., -1000., 0., 700., 5000.])
    T, Z, Y, X = np.meshgrid(t, z, x, x, indexing='ij')
    s = 1. if mesh == 'spherical' else 1e-5
    U = s * (.8 * np.sin(3 * X + T / 2000.) + .3 * Y + Z / 100)
    V = s * (.7 * np.cos(2 * Y - T / 1500.) - .2 * X)
    W = 1e-3 * np.sin(X + Y + T / 1000.)
    fs = FieldSet.from_data({'U': U.astype(np.float32), 'V': V.astype(np.float32), 'W': W.astype(np.float32)},
                            {'lon': x, 'lat': x, 'depth': z, 'time': t}, mesh=mesh)
    fs.add_constant('RK45_tol', 1e-7)
    return fs


LON, LAT, DEP, REL, KD = [.3, .55, .42], [.4, .35, .62], [5., 12., 7.], [0., 2 * DT, 0.], [-1, -1, 3]


def units(tier):
    return [{'mode': m, 'sgn': s, 'mesh': g, 'kernel': k} for m in MODES for s in (1, -1) for g in ('spherical', 'flat') for k in KERNELS]


def compositions(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        out, last = [], 0
        for i, c in enumerate(cuts):
            if c:
                out.append(i + 1 - last)
                last = i + 1
        yield tuple(out + [n - last])


class Out(object):
    def __init__(self, outputdt):
        self.outputdt = outputdt

    def write(self, pset, time, deleted_only=False):
        pass


def run(unit, ctx):
    fs = fieldset(unit['mesh'])
    kern = KERNELS[unit['kernel']] or func(SRC, 'custom')
    cache = KernelCache()
    P = pclass(unit['mode'], VARS)
    sgn = unit['sgn']
    N = 7 if ctx.tier == 'thorough' else 5

    def go(order, cut, odt, cdt, how):
        ps = ParticleSet(fs, pclass=P, lon=[LON[i] for i in order], lat=[LAT[i] for i in order], depth=[DEP[i] for i in order],
                         time=[sgn * REL[i] for i in order], kd=[KD[i] for i in order])
        ids = {int(p.id): order[j] for j, p in enumerate(ps)}
        kw = {}
        if odt:
            kw['output_file'] = Out(odt * DT)
        if cdt:
            kw['callbackdt'] = cdt * DT
            kw['postIterationCallbacks'] = [lambda: None]
        t = 0
        for c in cut:
            if len(ps) == 0:
                break
            t += c
            first = min(sgn * float(p.time) for p in ps)
            if how == 'runtime':
                cache.execute('k', ps, kern, runtime=t * DT - first, dt=sgn * DT, **kw)
            else:
                cache.execute('k', ps, kern, endtime=sgn * t * DT, dt=sgn * DT, **kw)
        return {ids[int(p.id)]: tuple(np.asarray(getattr(p, v)).tobytes() for v in ('lon', 'lat', 'depth', 'time', 'a', 'b')) for p in ps}, \
               {ids[int(p.id)]: (float(p.lon), float(p.lat), float(p.depth), float(p.time)) for p in ps}

    ctx.case(dict(unit, ref=True))
    ref, rv = {}, {}
    for i in range(3):
        r, v = go([i], (N,), None, None, 'endtime')
        ref.update(r)
        rv.update(v)
    ctx.expect(set(ref) == ({0, 1} if unit['kernel'] == 'custom' else {0, 1, 2}), 'ref %s' % unit, 'reference run lost particles: %s' % sorted(ref))

    def check(case, order, got, gv):
        want = {i: ref[i] for i in order if i in ref}
        ctx.trace()
        ctx.step(len(case['cut']))
        ctx.state((unit['kernel'], case['cut'], case['odt'], case['cdt']))
        ctx.distinct(case)
        ctx.outcome(unit['kernel'])
        ctx.sample({'case': case, 'final': gv})
        ctx.expect(got == want, ' '.join('%s=%s' % kv for kv in sorted(case.items())),
                   lambda: 'final (lon, lat, depth, time) %s, uncut run of each particle alone %s' % (gv, {i: rv[i] for i in want}))

    for order in [o for r in (1, 2, 3) for o in itertools.permutations(range(3), r)]:
        case = dict(unit, cut=(N,), odt=None, cdt=None, how='endtime', order=order)
        if ctx.case(case):
            check(case, order, *go(order, (N,), None, None, 'endtime'))
    if unit['kernel'] == 'RK45':
        return
    for cut, odt, cdt, how in itertools.product(compositions(N), (None, 1, 2, 3), (None, 1, 2), ('endtime', 'runtime')):
        if how == 'runtime' and (odt == 3 or cdt == 1):
            continue
        order = (0, 1, 2)
        case = dict(unit, cut=cut, odt=odt, cdt=cdt, how=how, order=order)
        if ctx.case(case):
            check(case, order, *go(order, cut, odt, cdt, how))
