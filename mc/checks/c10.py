"""C10: loading time slices on demand gives the same as having everything in memory."""
import itertools
import os

import numpy as np
import xarray as xr

from pk import MODES, Field, FieldSet, ParticleSet, Variable, func, pclass
from parcels import SummedField
from parcels.tools.statuscodes import OutOfTimeError, TimeExtrapolationError

ID = 'C10'
LEVEL = 'model_checking'
RULE = ('every ordered pair (thorough: triple) of runs from the set of runs, one after the other on one field set whose data are '
        'loaded on demand, for every file layout x treatment of times outside the data x mode; each run is compared with the same '
        'run on the same data in memory, interrupted at the times at which slices change; non-trivial: run that needs more than '
        'two slices; further runs with slice, start and step times that are not binary fractions; distinct by (layout, treatment, mode, run, preceding run)')
BOUNDS = '19 runs (starts, directions, steps, splits, delayed starts, reversal, single execution, initial sampling), 6 slices, 13 layouts'
ASSUMPTIONS = ['steps that do not end at a slice time are cut there, so the run in memory is cut there too; kernels look at most one step ahead']

NT = 6
LON = np.linspace(0, 5, 6).astype(np.float32)
LAT = np.linspace(0, 4, 5).astype(np.float32)
DEP = np.array([0., 1., 3.], dtype=np.float32)
EVEN = [0., 2., 4., 6., 8., 10.]
UNEVEN = [0., 1., 4., 5., 9., 10.]

# layout: how U, V, F, G are stored
LAYOUTS = {
    'one': dict(),
    'each': dict(split=[1] * 6),
    'ragged': dict(split=[2, 1, 3]),
    'stamps': dict(split=[2, 2, 2], stamps=True),
    'stamps1': dict(split=[6], stamps=True),
    'days': dict(split=[3, 3], unit=86400.),
    'uneven': dict(times=UNEVEN, split=[3, 3]),
    'depth': dict(depth=True, split=[2, 4]),
    'mixed': dict(mixed=True, split=[3, 3]),
    'sum': dict(summed=True, split=[1] * 6),
    'halo': dict(halo=True),
    'scaled': dict(scale=True, split=[4, 2]),
    'subset': dict(depth=True, indices={'lon': range(1, 5), 'lat': range(0, 4), 'depth': [1, 2]}),
}
TREAT = ('strict', 'periodic', 'extrapolate', 'period+')

# runs: (name, list of (start times or None to go on, runtime, dt))
RUNS = {
    'f10': [([0.], 10., 1.)], 'f3': [([3.], 4., .5)], 'b10': [([10.], 10., -1.)], 'b7': [([7.5], 6., -.5)],
    'delay': [([0., 5., 8.], 9., 1.)], 'once': [([5.], 0., 0.)], 'split': [([1.], 2., 1.), (None, 3., 1.), (None, 1., 1.)],
    'turn': [([2.], 4., 1.), (None, 4., -1.)], 'init': [([9., 1., 5.], 1., .5)], 'odd': [([.25], 8., .75)], 'bodd': [([9.5], 8., -.75)],
    'bdelay': [([10., 4., 7.], 9., -1.)], 'back': [([9.], 3., -1.), (None, 4., 1.)], 'long': [([0.5], 8., 4.)], 'late': [([8.], 4., 1.)],
    'far': [([-13.], 30., 1.)], 'bfar': [([23.], 41., -1.)], 'off': [([24.5], 7., .5)], 'early': [([-3.], 16., .5)]}


def names(treat):
    return list(RUNS)


def values(name, n, shape):
    """Distinct small multiples of 1/64: exact in single precision."""
    k = {'U': 1, 'V': 2, 'F': 3, 'G': 5}[name]
    i = np.arange(int(np.prod((n,) + shape)), dtype=np.int64).reshape((n,) + shape)
    d = ((i * 37 + k * 11 + (i // int(np.prod(shape))) ** 2 * 7) % 61) / 64.
    return (d * (.25 if name in 'UV' else 1.)).astype(np.float32)


def write(path, name, data, times, lay, dep):
    ds = {}
    dims = ('time', 'depth', 'lat', 'lon') if dep is not None else ('time', 'lat', 'lon')
    if lay.get('stamps'):
        dims = ('t',) + dims[1:]
    coords = {'lon': LON, 'lat': LAT}
    if dep is not None:
        coords['depth'] = dep
    if not lay.get('stamps'):
        coords['time'] = ('time', np.asarray(times) / (lay.get('unit', 1.) / 86400. if lay.get('unit') else 1.), {'units': 'days since 2000-01-01' if lay.get('unit') else 'seconds since 2000-01-01'})
    ds[name] = (dims, data)
    xr.Dataset(ds, coords=coords).to_netcdf(path)


def files(layout, treat, scratch):
    lay = LAYOUTS[layout]
    dep = DEP if lay.get('depth') else None
    shape = ((3,) if dep is not None else ()) + (len(LAT), len(LON))
    out = {}
    for name in 'UVFG':
        times = lay.get('times', EVEN)
        if lay.get('mixed') and name == 'F':
            times = [0., 3., 7., 8., 10.]
        data = values(name, len(times), shape)
        if treat == 'periodic':
            data[-1] = data[0]
        split = lay.get('split', [NT]) if len(times) == NT else [len(times)]
        fl, p = [], 0
        for i, n in enumerate(split):
            f = os.path.join(scratch, '%s_%s_%02d.nc' % (layout, name, i))
            write(f, name, data[p:p + n], times[p:p + n], lay, dep)
            fl.append(f)
            p += n
        out[name] = (fl, times, data, split)
    return out


SCALE = {'F': 2.5, 'U': .5}


def make(layout, treat, deferred, fl):
    lay = LAYOUTS[layout]
    unit = lay.get('unit', 1.)
    dep = bool(lay.get('depth'))
    kw = {'strict': dict(allow_time_extrapolation=False), 'extrapolate': dict(allow_time_extrapolation=True), 'periodic': dict(time_periodic=10. * unit),
          'period+': dict(time_periodic=12. * unit)}[treat]
    sets = {}
    for name, (paths, times, data, split) in fl.items():
        if lay.get('mixed') and name == 'G':
            # in memory in both field sets
            sets[name] = Field('G', data[:1], lon=LON, lat=LAT, mesh='flat', allow_time_extrapolation=True)
            continue
        if deferred:
            dims = {'lon': 'lon', 'lat': 'lat'}
            if not lay.get('stamps'):
                dims['time'] = 'time'
            if dep:
                dims['depth'] = 'depth'
            k2 = dict(kw)
            if lay.get('stamps'):
                st, p = [], 0
                for n in split:
                    st.append(np.array([np.datetime64('2000-01-01') + np.timedelta64(int(t), 's') for t in times[p:p + n]]))
                    p += n
                k2['timestamps'] = st
            sets[name] = Field.from_netcdf(paths, (name, name), dims, mesh='flat', indices=lay.get('indices'), **k2)
        else:
            ind = lay.get('indices')
            lon, lat, depth, d = LON, LAT, DEP, data
            if ind:
                lon, lat, depth = LON[list(ind['lon'])], LAT[list(ind['lat'])], DEP[ind['depth']]
                d = data[:, ind['depth']][:, :, list(ind['lat'])][:, :, :, list(ind['lon'])]
            sets[name] = Field(name, d, lon=lon, lat=lat, depth=depth if dep else None, time=np.array(times) * unit, mesh='flat', **kw)
    fields = {'F': sets['F'], 'G': sets['G']}
    fs = FieldSet(sets['U'], sets['V'], fields=fields)
    if lay.get('summed'):
        fs.add_field(SummedField('S', [sets['F'], sets['G']]), 'S')
    if lay.get('scale'):
        for n, s in SCALE.items():
            getattr(fs, n).set_scaling_factor(s)
    if lay.get('halo'):
        fs.add_periodic_halo(zonal=True, meridional=True, halosize=2)
    return fs


KERNEL = """
def K(particle, fieldset, time):
    (u, v) = fieldset.UV[time + 0.5 * particle.dt, particle.depth, particle.lat, particle.lon]
    particle.lon += 0.0625 * u
    particle.lat += 0.0625 * v
    particle.a = 0.5 * particle.a + fieldset.F[time, particle.depth, particle.lat, particle.lon]
    particle.b = 0.5 * particle.b + fieldset.%s[time + particle.dt, particle.depth, particle.lat, particle.lon]
    particle.n += 1
"""


def cuts(fs, layout, treat, unit, lo, hi, sign):
    """Times between lo and hi at which the loaded slices change."""
    lay = LAYOUTS[layout]
    out = set()
    for name in 'UVFG':
        t = list(lay.get('times', EVEN))
        if lay.get('mixed'):
            if name == 'G':
                continue
            if name == 'F':
                t = [0., 3., 7., 8., 10.]
        if treat == 'period+':
            t = t + [12.]
        per = t[-1] - t[0]
        for k in range(-6, 7) if treat in ('periodic', 'period+') else (0,):
            tt = t if k or treat in ('periodic', 'period+') else t[1:-1]
            out |= {(x + k * per) * unit for x in tt}
    return sorted((c for c in out if lo < c < hi), reverse=sign < 0)


class Runner(object):
    def __init__(self, layout, treat, mode, deferred, fl):
        self.layout, self.treat, self.mode, self.deferred = layout, treat, mode, deferred
        self.unit = LAYOUTS[layout].get('unit', 1.)
        self.fs = make(layout, treat, deferred, fl)
        self.kernel = None
        vs = [('a', np.float64, 0.), ('b', np.float64, 0.), ('n', np.int32, 0)]
        self.P = pclass(mode, vs, name='VP10' + mode)
        self.PI = None
        self.f = func(KERNEL % ('S' if LAYOUTS[layout].get('summed') else 'G'), 'K')

    def pset(self, starts, initial):
        P = self.P
        if initial:
            if self.PI is None:
                self.PI = type('VP10i' + self.mode, (self.P,), {'s': Variable('s', initial=self.fs.F, dtype=np.float32)})
            P = self.PI
        n = len(starts)
        return ParticleSet(self.fs, pclass=P, lon=[1.3 + .9 * i for i in range(n)], lat=[1.7 + .4 * i for i in range(n)], depth=[1.5] * n,
                           time=[s * self.unit for s in starts], lonlatdepth_dtype=np.float64)

    def execute(self, ps, **kw):
        if self.kernel is not None and ps.collection.ptype.name == self.kernel.ptype.name:
            ps.kernel = self.kernel
            ps.execute(self.kernel, **kw)
        else:
            ps.execute(self.f, **kw)
            if ps.collection.ptype.name == 'VP10' + self.mode:
                self.kernel = ps.kernel

    def run(self, name):
        legs = []
        try:
            ps = None
            for starts, runtime, dt in RUNS[name]:
                if starts is not None:
                    ps = self.pset(starts, name == 'init')
                u = self.unit
                if dt == 0:
                    self.execute(ps, runtime=0., dt=0.)
                else:
                    sign = 1 if dt > 0 else -1
                    ts = [q.time for q in ps]
                    t0 = min(ts) if sign > 0 else max(ts)
                    t1 = t0 + sign * runtime * u
                    stops = ([] if self.deferred else cuts(self.fs, self.layout, self.treat, u, min(t0, t1), max(t0, t1), sign)) + [t1]
                    for s in stops:
                        self.execute(ps, endtime=s, dt=dt * u)
                legs.append(sorted([(q.lon, q.lat, q.a, q.b, int(q.n), q.time / u) + ((q.s,) if name == 'init' else ()) for q in ps]))
        except (TimeExtrapolationError, OutOfTimeError):
            legs.append('time error')
        return legs


def debruijn(k, n):
    a, out = [0] * (k * n), []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out


def runs(treat):
    inside = [r for r in RUNS if r not in ('far', 'bfar', 'off', 'early')]
    if treat == 'strict':
        return inside
    core = ['f3', 'b7', 'delay', 'once', 'turn', 'init', 'bodd', 'late', 'far', 'bfar', 'off', 'early']
    return core


PIECE = 48


def units(tier):
    u = [{'factor': i, 'offset': j, 'mode': mode} for i in range(3) for j in range(3) for mode in MODES]
    for lay in LAYOUTS:
        for tr in TREAT:
            for mode in MODES:
                full = lay == 'one' or tier == 'thorough' or (lay == 'each' and mode == 'scipy' and tr in ('strict', 'periodic'))
                if not full and mode == 'jit' and (sum(map(ord, lay + tr)) % 2):
                    continue
                n = len(runs(tr))
                seq = debruijn(n, 2 if tier == 'quick' or mode == 'jit' else 3) if full or tier == 'thorough' else None
                if seq is None:
                    # every run after its neighbours, and every run first of a set once through the treatments
                    u.append({'layout': lay, 'treat': tr, 'mode': mode, 'lo': 0, 'full': False})
                else:
                    u += [{'layout': lay, 'treat': tr, 'mode': mode, 'lo': i, 'full': True} for i in range(0, len(seq), PIECE)]
    return u


FACTORS = (.1, .7, 86400. / 7)
OFFSETS = (0., 1e6 + .1, -1e5 / 3)


def KS(particle, fieldset, time):
    u = fieldset.U[time, particle.depth, particle.lat, particle.lon]
    particle.s = particle.s + u
    particle.n = particle.n + 1.
    particle.lon = particle.lon + 0.001 * u


def run_scale(unit, ctx):
    """Slice, start and step times that are not binary fractions: particle times and slice times differ by rounding."""
    c, t0, mode = FACTORS[unit['factor']], OFFSETS[unit['offset']], unit['mode']
    nt = 11
    times = t0 + c * np.arange(nt)
    g = np.arange(4.)
    d = (np.arange(nt)[:, None, None] * np.ones((nt, 4, 4))).astype(np.float32)
    path = os.path.join(ctx.scratch, 'scale_%s_%d_%d.nc' % (mode, unit['factor'], unit['offset']))
    xr.Dataset({n: (('time', 'lat', 'lon'), d) for n in 'UV'}, coords={'time': times, 'lat': g, 'lon': g}).to_netcdf(path)
    pc = pclass(mode, [('s', np.float64, 0.), ('n', np.float32, 0.)])
    sets = {}
    hows = ('memory', 'demand', 'chunks') if ctx.tier == 'thorough' or unit['factor'] == unit['offset'] else ('memory', 'demand')
    for how in hows:
        fs = FieldSet.from_netcdf(path, {'U': 'U', 'V': 'V'}, {'lon': 'lon', 'lat': 'lat', 'time': 'time'}, mesh='flat', deferred_load=how != 'memory',
                                  chunksize={'lat': ('lat', 2), 'lon': ('lon', 2)} if how == 'chunks' else None)
        sets[how] = fs
    kernels = {}
    for sgn, dt, a, cut, rels in itertools.product((1, -1), (1., .5, .25), (0., 1., .5), ((8,), (3, 5), (1, 2, 1, 3)), ((0, 0), (0, 1), (.5, 0))):
        if ctx.tier == 'quick' and (dt == .25 or rels == (0, 0) and a == 0.):
            continue
        # all steps end at the times of the slices
        if dt == 1. and (a == .5 or .5 in rels):
            continue
        L = [x - (a == 1. and i == len(cut) - 1) for i, x in enumerate(cut)]  # end before the end of the data
        case = {'unit': unit, 'dir': sgn, 'dt': dt, 'start': a, 'runs': L, 'delay': list(rels)}
        if not ctx.case(case):
            continue
        out = {}
        for how, fs in sets.items():
            s0 = c * (a if sgn > 0 else nt - 2 - a)  # relative to the first slice
            ps = ParticleSet(fs, pclass=pc, lon=[.5, 1.5], lat=[.5, 1.5], time=[s0 + sgn * c * r for r in rels], lonlatdepth_dtype=np.float64)
            if how not in kernels:
                kernels[how] = ps.Kernel(KS)
            try:
                for x in L:
                    ps.execute(kernels[how], runtime=x * c, dt=sgn * dt * c, verbose_progress=False)
                out[how] = [(float(p.s), float(p.n), float(p.lon)) for p in ps]
            except (OutOfTimeError, TimeExtrapolationError):
                out[how] = 'time error'
            ctx.tick()
        ctx.step(sum(L))
        ctx.trace()
        ctx.outcome('scaled')
        ctx.distinct((mode, c, t0, sgn, dt, a, tuple(L), rels))
        want = out['memory']
        for how in hows[1:]:
            got = out[how]
            ok = False if isinstance(got, str) or isinstance(want, str) else np.allclose(got, want, rtol=1e-5, atol=1e-5)
            ctx.expect(ok, '%s times in multiples of %r from %r: %s' % (mode, c, t0, {k: v for k, v in case.items() if k != 'unit'}),
                       'in memory %s, %s %s' % (want, how, got))


def run(unit, ctx):
    if 'factor' in unit:
        return run_scale(unit, ctx)
    lay, tr, mode = unit['layout'], unit['treat'], unit['mode']
    rs = runs(tr)
    if unit['full']:
        seq = debruijn(len(rs), 2 if ctx.tier == 'quick' or mode == 'jit' else 3)
        seq = (seq + seq[:2])[unit['lo']:unit['lo'] + PIECE + 1 + (ctx.tier != 'quick' and mode != 'jit')]
    else:
        n = len(rs)
        seq = list(range(n)) + [(i * 5) % n for i in range(n)] if n % 5 else list(range(n)) + [(i * 7) % n for i in range(n)]
    fl = files(lay, tr, ctx.scratch)
    D, M = Runner(lay, tr, mode, True, fl), Runner(lay, tr, mode, False, fl)
    ref = {}
    prev = 'first'
    for i in seq:
        r = rs[i]
        if not ctx.case({'unit': unit, 'after': prev, 'run': r}):
            prev = r
            continue
        if r not in ref:
            ref[r] = M.run(r)
        got = D.run(r)
        ctx.tick()
        ctx.step(len(RUNS[r]))
        ctx.trace()
        want = ref[r]
        ctx.outcome('time error' if 'time error' in want else 'run')
        ctx.state((lay, tr, mode, tuple((f.grid.ti, f.grid.periods.value if hasattr(f.grid.periods, 'value') else f.grid.periods) for f in (D.fs.U, D.fs.F))))
        if r != 'once':
            ctx.distinct((lay, tr, mode, r, prev))
        ok = len(got) == len(want)
        if ok:
            for g, w in zip(got, want):
                if isinstance(g, str) or isinstance(w, str):
                    ok = ok and g == w
                else:
                    ok = ok and np.allclose(np.array(g), np.array(w), rtol=1e-6, atol=1e-6)
        ctx.expect(ok, '%s %s %s: %s after %s' % (mode, lay, tr, r, prev), 'in memory %s, on demand %s' % (want, got))
        prev = r
    ctx.sample({'layout': lay, 'treat': tr, 'runs': [rs[i] for i in seq[:3]]})
