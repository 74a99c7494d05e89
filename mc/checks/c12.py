"""C12: repeated release."""
import itertools

import numpy as np

from pk import MODES, FieldSet, KernelCache, ParticleSet, func, pclass
from datetime import timedelta

ID = 'C12'
LEVEL = 'model_checking'
RULE = ('all combinations of mode x direction x repeat interval x step x cut of the run into calls x deletion age x output interval x '
        'start time given or taken from the fields x coordinate precision x seconds or time difference; the particles at the end of every '
        'call are compared with the groups a release model predicts; non-trivial: at least one repeated group; distinct by case')
BOUNDS = ('2 particles per group, repeat interval in {.5,1,1.5,2,3,10}, |dt| in {1,.5}, total length 4-5 in 1-3 calls (also of length zero); multiples of .1, .7 and 86400/7 s, total length 4-11 in 1-5 calls; deletion after 1 or 2 '
          'steps or never')
ASSUMPTIONS = []
SRC = """
def move(particle, fieldset, time):
    particle.x += particle.dt
    particle.n += 1
    particle.lon += 0.0625 * particle.dt
    particle.lat += 0.03125 * particle.dt
    particle.depth += 0.125
    particle.k += 100
    particle.w += 1.
    if particle.n == particle.kd:
        particle.delete()
"""
VARS = [('x', np.float64, 0.), ('n', np.int32, 0), ('k', np.int32, 5), ('w', np.float32, 2.5), ('kd', np.int32, -1)]
CUTS = [(4.,), (5.,), (2., 2.), (1., 3.), (1.5, 2.5), (1., 1., 2.), (.5, 4.)]
ZCUTS = [(0., 4.), (2., 0., 2.), (0., 0., 1., 0., 3.)]    # runs of length zero evaluate the kernel once and release nothing
FCUTS = CUTS + [(3., 3., 3.), (4., 0., 3.), (1., 1., 1., 1., 1.), (6., 5.)]


def units(tier):
    return [{'mode': m, 'sgn': s, 'rep': r} for m in MODES for s in (1, -1) for r in (.5, 1., 1.5, 2., 3., 10.)] + \
        [{'mode': m, 'sgn': s, 'scale': c} for m in MODES for s in (1, -1) for c in (.1, .7, 86400 / 7.)]


def model(case):
    sgn, rep, dt, odt, c = case['sgn'], case['rep'], case['dt'], case['odt'], case.get('scale', 1.)
    t0 = case['t0']
    parts = [dict(g=0, i=i, r=0., t=0., n=0) for i in range(2)]
    now, g = 0., 0
    snaps = []
    for L in case['cut']:
        if not parts:
            return snaps
        end = now + L
        ev = {end}
        if L == 0:
            for p in parts:
                p['n'] += 1
            parts = [p for p in parts if p['n'] != case['kd'][p['i']]]
        if odt:
            k = 1
            while now + k * odt <= end:
                ev.add(now + k * odt)
                k += 1
        k = 1
        while rep * k <= end:
            if rep * k > now:
                ev.add(rep * k)
            k += 1
        # callbacks happen at the smaller of output and repeat interval, counted from the start of the call
        cb = min(rep, odt or np.inf)
        k = 1
        while now + k * cb <= end:
            ev.add(now + k * cb)
            k += 1
        for e in sorted(ev):
            keep = []
            for p in parts:
                dead = False
                while p['t'] < e and not dead:
                    p['t'] += min(dt, e - p['t'])
                    p['n'] += 1
                    dead = p['n'] == case['kd'][p['i']]
                if not dead:
                    keep.append(p)
            parts = keep
            if e > now and (e / rep) == int(e / rep):
                g += 1
                parts += [dict(g=g, i=i, r=e, t=e, n=0) for i in range(2)]
        now = end
        out = []
        for p in parts:
            el = sgn * c * (p['t'] - p['r'])
            i = p['i']
            out.append((t0 + sgn * c * p['t'], el, p['n'], .5 + .125 * i + .0625 * el, 1. + .25 * i + .03125 * el, 2. + i + .125 * p['n'],
                        (7 + i if case['kw'] else 5) + 100 * p['n'], 2.5 + p['n']))
        snaps.append(out)
    return snaps


def run(unit, ctx):
    step = func(SRC, 'move')
    T = np.array([-64., 0., 64.])
    g = np.arange(4, dtype=np.float32)
    d = np.zeros((3, 4, 4), dtype=np.float32)
    fs = FieldSet.from_data({'U': d, 'V': d.copy()}, {'lon': g, 'lat': g, 'time': T}, mesh='flat')
    cache = KernelCache()
    sgn = unit['sgn']
    thorough = ctx.tier == 'thorough'
    cases = itertools.product((1., .5), CUTS + ZCUTS, ((-1, -1), (1, -1), (-1, 2), (2, 2), (1, 1)), (None, 1., 1.5), ('given', 'default', 'late'), (True, False),
                              (np.float32, np.float64), (False, True))
    if 'scale' in unit:
        # times that are not representable: every instant carries rounding errors, near zero and far from it
        cases = itertools.product((1., .5), FCUTS, ((-1, -1), (1, -1), (-1, 2)), (None, 1., 1.5), ('given', 'late', 'far'), (True,), (np.float32, np.float64), (False,))
        cases = [a + (r,) for a in cases for r in (1., 1.5, 2., 3.)]
    else:
        cases = [a + (unit['rep'],) for a in cases]
    for dt, cut, kd, odt, start, kw, dtype, delta, rep0 in cases:
        if not thorough:
            if 'scale' in unit and (start == 'late' or (odt == 1.5 and kd != (-1, -1))):
                continue
            if (dtype is np.float64) != (start in ('late', 'far')) or (delta and start != 'given') or (start == 'default' and not kw):
                continue
        case = dict(unit, dt=dt, cut=cut, kd=kd, odt=odt, start=start, kw=kw, dtype=np.dtype(dtype).name, delta=delta, rep=rep0)
        c = case.get('scale', 1.)
        if not ctx.case(case):
            continue
        t0 = {'given': 0., 'default': -64. if sgn > 0 else 64., 'late': 8. * c, 'far': 1e6 + c / 3}[start]
        case['t0'] = t0
        P = pclass(unit['mode'], VARS)
        ka = {'k': [7, 8]} if kw else {}
        if start != 'default':
            ka['time'] = [t0, t0]
        rep = timedelta(seconds=rep0) if delta else rep0 * c
        ps = ParticleSet(fs, pclass=P, lon=[.5, .625], lat=[1., 1.25], depth=[2., 3.], kd=list(kd), repeatdt=rep, lonlatdepth_dtype=dtype, **ka)
        id0 = int(ps[0].id)
        want = model(case)
        nm = ' '.join('%s=%s' % kv for kv in sorted(case.items()))
        ever = set()
        for j, L in enumerate(cut):
            if j >= len(want):
                break
            ek = {}
            if odt:
                ek['output_file'] = Out(odt * c)
            cache.execute((np.dtype(dtype).name), ps, step, runtime=L * c, dt=sgn * dt * c, **ek)
            got = [(float(p.time), float(p.x), int(p.n), float(p.lon), float(p.lat), float(p.depth), int(p.k), float(p.w)) for p in ps]
            same = got == want[j] if c == 1 else near(got, want[j], c)
            ok = ctx.expect(same, nm, lambda: 'after call %d the set holds (time, x, n, lon, lat, depth, k, w) %s, expected %s' % (j, got, want[j]))
            ids = [int(p.id) for p in ps]
            ctx.expect(len(set(ids)) == len(ids), nm, 'identifiers %s are not unique' % ids)
            ctx.step()
            if not ok or not len(ps):
                break
        ctx.trace()
        ctx.state((rep0, dt, cut, kd, odt, want))
        if want and any(len(w) > 2 for w in want):
            ctx.distinct(case)
            ctx.outcome('released')
        else:
            ctx.outcome('none')
        ctx.sample({'case': case, 'sizes': [len(w) for w in want]})


def near(got, want, c):
    if len(got) != len(want):
        return False
    for a, b in zip(got, want):
        if a[2] != b[2] or a[6] != b[6] or a[7] != b[7]:      # counters of steps
            return False
        if abs(a[0] - b[0]) > 1e-6 * c or abs(a[1] - b[1]) > 1e-6 * c:
            return False
        if any(abs(u - v) > 1e-4 * max(1, abs(v)) for u, v in zip(a[3:6], b[3:6])):
            return False
    return True


class Out(object):
    def __init__(self, outputdt):
        self.outputdt = outputdt

    def write(self, pset, time, deleted_only=False):
        pass
