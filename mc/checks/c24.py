"""C24: adjustments of field data (scaling, limits, computed data, depths from fields) apply once, however the data are loaded."""
import os

import numpy as np
import xarray as xr

from pk import MODES, FieldSet, KernelCache, ParticleSet, func, pclass

ID = 'C24'
LEVEL = 'model_checking'
RULE = ('every adjustment (factor, limits, missing values, function applied to loaded data, and combinations) x moment of setting the factor x way of loading x halo '
        'before or after x mode; on each field set every ordered pair (thorough: triple) of runs out of seven, one after the other; each particle accumulates samples at '
        'every step and is compared with the adjusted data interpolated in numpy; plus depth levels taken from a field; non-trivial: data are loaded more than once or more than one '
        'adjustment applies; distinct by (configuration, run, preceding run)')
BOUNDS = 'grids of 6 x 4 (x 3) nodes, 5 slices, 17 adjustments, 8 ways of loading, 7 runs'
ASSUMPTIONS = ['limits refer to the data as given, before scaling', 'the function set with compute_on_defer adjusts the slices in loaded_time_indices, as in the documentation']

NT = 5
TIM = np.array([0., 2., 4., 6., 8.])
LON = np.arange(6, dtype=np.float32)
LAT = np.arange(4, dtype=np.float32)
SHAPE = (NT, 4, 6)

# name: (limits of P, missing values, factors, function)
ADJ = {
    'none': {}, 'double': dict(f={'P': 2.}), 'negative': dict(f={'P': -.5}), 'zero': dict(f={'P': 0.}), 'both': dict(f={'P': 2., 'Q': -1.5}),
    'min': dict(lim=(-1.5, None)), 'max': dict(lim=(None, 2.)), 'limits': dict(lim=(-1.5, 2.)), 'min0': dict(lim=(0., None)), 'max0': dict(lim=(None, 0.)),
    'limits+f': dict(lim=(-1.5, 2.), f={'P': 2.}), 'missing': dict(nan=True), 'missing+f': dict(nan=True, f={'P': 3., 'Q': .5}),
    'function': dict(g='P'), 'functionQ': dict(g='Q'), 'function+f': dict(g='P', f={'P': 2.}), 'all': dict(lim=(-1.5, 2.), nan=True, f={'P': .5, 'Q': 2.}, g='P'),
}
LOAD = ('data', 'data64', 'shared', 'xarray', 'now', 'nowchunks', 'demand', 'chunks')
AT = ('built', 'loaded', 'run')
HALO = ('none', 'before', 'after')

RUNS = {
    'fwd': [(0., 8., 1.)], 'back': [(8., 8., -1.)], 'split': [(0., 3., 1.), (None, 5., 1.)], 'turn': [(1., 4., 1.), (None, 4., -1.)],
    'late': [(5., 3., .5)], 'once': [(3., 0., 0.)], 'early': [(1., 2., .5), (None, 0., 0.), (None, 1., 1.)]}


def raw(name, nan):
    k = np.arange(int(np.prod(SHAPE)), dtype=np.int64)
    d = ((((k + (7 if name == 'Q' else 0)) * 2654435761 >> 5) % 65 - 32) / 8.).reshape(SHAPE).astype(np.float32)
    if nan:
        d = np.where((k % 7 == 3).reshape(SHAPE), np.nan, d).astype(np.float32)
    return d


def adjusted(adj, scaled):
    """Adjusted data of P and Q; scaled: whether the factors have been set already."""
    A = ADJ[adj]
    out = {}
    for n in 'PQ':
        d = raw(n, A.get('nan')).astype(np.float64)
        d = np.where(np.isnan(d), 0., d)
        if n == 'P' and A.get('lim'):
            lo, hi = A['lim']
            if lo is not None:
                d = np.where(d < lo, 0., d)
            if hi is not None:
                d = np.where(d > hi, 0., d)
        if scaled:
            d = d * A.get('f', {}).get(n, 1.)
        out[n] = d
    if A.get('g') == 'P':
        out['P'] = 2 * out['P'] + 1
    if A.get('g') == 'Q':
        out['Q'] = out['Q'] - 3 * out['P']
    return out


def function(which):
    def compute(fieldset):
        f = fieldset.P if which == 'P' else fieldset.Q
        for i in f.loaded_time_indices:
            if which == 'P':
                d = 2 * f.data[i] + 1
            else:
                d = f.data[i] - 3 * fieldset.P.data[i]
            f.data = f.data_concatenate(f.data, d[None], i)
    return compute


def interp(d, t, y, x, halo):
    """Multilinear interpolation; with a halo the field wraps around after one period of six."""
    i = int(np.floor(x))
    if halo:
        i0, i1 = i % 6, (i + 1) % 6
    else:
        i = min(i, 4)
        i0, i1 = i, i + 1
    fx = x - i
    j = min(int(y), 2)
    fy = y - j
    k = min(int(t // 2), NT - 2)
    ft = (t - TIM[k]) / 2.
    s = [(1 - fx) * (1 - fy) * d[q, j, i0] + fx * (1 - fy) * d[q, j, i1] + (1 - fx) * fy * d[q, j + 1, i0] + fx * fy * d[q, j + 1, i1] for q in (k, k + 1)]
    return float((1 - ft) * s[0] + ft * s[1])


def files(adj, scratch):
    nan = bool(ADJ[adj].get('nan'))
    p = os.path.join(scratch, 'd_%d' % nan)
    out = []
    for i, (a, b) in enumerate(((0, 2), (2, 5))):
        fn = '%s_%d.nc' % (p, i)
        if not os.path.exists(fn):
            v = {n: (('time', 'lat', 'lon'), raw(n, nan)[a:b]) for n in 'PQ'}
            xr.Dataset(v, {'time': ('time', TIM[a:b], {'units': 'seconds since 2000-01-01'}), 'lat': LAT, 'lon': LON}).to_netcdf(fn)
        out.append(fn)
    return out


def still():
    """No motion, on a coarse grid of its own. The origin of time is that of the files."""
    z = np.zeros((1, 2, 2), np.float32)
    return FieldSet.from_data({'U': z, 'V': z.copy()}, {'lon': LON[[0, -1]], 'lat': LAT[[0, -1]], 'time': np.array([np.datetime64('2000-01-01')])}, mesh='flat')


def build(adj, load, fl):
    A = ADJ[adj]
    kw = {}
    given = {}
    if load in ('data', 'data64', 'shared'):
        dt = np.float64 if load == 'data64' else np.float32
        given = {n: raw(n, A.get('nan')).astype(dt) for n in 'PQ'}
        if load == 'shared':
            given['Q'] = given['P']
        fs = still()
        lim = A.get('lim') or (None, None)
        for n in 'PQ':
            k = dict(vmin=lim[0], vmax=lim[1]) if n == 'P' else {}
            f = FieldSet.from_data({n: given[n]}, {'lon': LON, 'lat': LAT, 'time': np.datetime64('2000-01-01') + TIM.astype('timedelta64[s]')}, mesh='flat', **k)
            fs.add_field(getattr(f, n))
    elif load == 'xarray':
        ds = xr.open_mfdataset(fl, decode_times=True, combine='by_coords').load()
        dims = {'lon': 'lon', 'lat': 'lat', 'time': 'time'}
        fs = still()
        lim = A.get('lim') or (None, None)
        for n in 'PQ':
            k = dict(vmin=lim[0], vmax=lim[1]) if n == 'P' else {}
            fs.add_field(getattr(FieldSet.from_xarray_dataset(ds[[n]], {n: n}, dims, mesh='flat', **k), n))
    else:
        dims = {'lon': 'lon', 'lat': 'lat', 'time': 'time'}
        kw = dict(mesh='flat', deferred_load=load in ('demand', 'chunks'))
        if load in ('nowchunks', 'chunks'):
            kw['chunksize'] = {'lat': ('lat', 3), 'lon': ('lon', 4)}
        fs = still()
        lim = A.get('lim') or (None, None)
        for n in 'PQ':
            k = dict(vmin=lim[0], vmax=lim[1]) if n == 'P' else {}
            fs.add_field(getattr(FieldSet.from_netcdf(fl, {n: n}, dims, **dict(kw, **k)), n))
    return fs, given


KERNEL = """
def K(particle, fieldset, time):
    particle.p = 0.5 * particle.p + fieldset.P[time, particle.depth, particle.lat, particle.lon]
    particle.q = 0.5 * particle.q + fieldset.Q[time, particle.depth, particle.lat, particle.lon]
"""
POS = [(1., 2.), (1.5, 3.25), (2.75, 4.5), (0.25, .125)]
POSH = [(1., 2.), (1.5, 3.25), (2.75, 5.5), (0.25, -.75)]


def expected(data, share, legs, pos, halo):
    out = []
    for y, x in pos:
        p = q = 0.
        t = None
        for s, rt, dt in legs:
            t = s if s is not None else t
            n = 1 if dt == 0 else int(round(rt / abs(dt)))
            for _ in range(n):
                p = .5 * p + interp(data['P'], t, y, x, halo)
                q = .5 * q + interp(data['Q'], t, y, x, halo)
                t += dt
        out.append((p, q))
    return out


FULL = ('double', 'limits+f', 'function', 'all')     # adjustments for which every ordered pair is run in the quick tier as well


def order(c, tier):
    """Sequence of runs in which every ordered pair (triple) occurs; where nothing is loaded in between, every run twice."""
    from checks.c10 import debruijn
    names = list(RUNS)
    if c['load'] not in ('demand', 'chunks') or tier == 'quick' and (c['halo'] != 'none' or c['at'] != 'built' or c.get('adj', 'all') not in FULL):
        return names + names[::-1]
    n = 3 if tier == 'thorough' else 2
    s = debruijn(len(names), n)
    return [names[i] for i in s + s[:n - 1]]


def configs(tier):
    out = []
    for adj, A in ADJ.items():
        for load in LOAD:
            deferred = load in ('demand', 'chunks')
            if A.get('g') and not deferred:
                continue
            if load == 'shared' and A.get('g'):
                continue
            for at in AT if A.get('f') and not (A.get('g') and A.get('f')) else ('built',):
                for halo in HALO:
                    if halo != 'none' and load == 'nowchunks':
                        continue
                    if tier == 'quick' and halo != 'none' and at != 'built':
                        continue
                    if tier == 'quick' and halo == 'after' and not A.get('f'):
                        continue
                    for mode in MODES:
                        out.append(dict(adj=adj, load=load, at=at, halo=halo, mode=mode))
    return out


def units(tier):
    c = configs(tier)
    return [{'kind': 'adjust', 'lo': i} for i in range(0, len(c), 6)] + [dict(kind='depth', **c) for c in depth_configs(tier)]


def run(unit, ctx):
    if unit['kind'] == 'depth':
        return run_depth(unit, ctx)
    for c in configs(ctx.tier)[unit['lo']:unit['lo'] + 6]:
        one(c, ctx)


def factors(fs, A):
    for n, v in A.get('f', {}).items():
        getattr(fs, n).set_scaling_factor(v)


def one(c, ctx):
    adj, load, mode = c['adj'], c['load'], c['mode']
    A = ADJ[adj]
    if not ctx.case(c):
        return
    tag = '%s %s %s %s %s' % (mode, adj, load, c['at'], c['halo'])
    halo = c['halo'] != 'none'
    fl = files(adj, ctx.scratch)
    fs, given = build(adj, load, fl)
    before = {n: a.copy() for n, a in given.items()}
    deferred = load in ('demand', 'chunks')
    if A.get('g'):
        fs.compute_on_defer = function(A['g'])
    if c['halo'] == 'before':
        fs.add_periodic_halo(zonal=True, meridional=False, halosize=2)
    if c['at'] == 'built':
        factors(fs, A)
    if c['halo'] == 'after':
        fs.add_periodic_halo(zonal=True, meridional=False, halosize=2)
    if c['at'] == 'loaded':
        fs.computeTimeChunk(0., 1.)
        factors(fs, A)
    cache = KernelCache()
    P = pclass(mode, [('p', np.float64, 0.), ('q', np.float64, 0.)], name='VP24' + mode)
    pos = POSH if halo else POS
    ref = {}
    prev = 'first'
    for k, name in enumerate(order(c, ctx.tier)):
        if k == 1 and c['at'] == 'run':
            factors(fs, A)
        scaled = c['at'] != 'run' or k > 0
        if (name, scaled) not in ref:
            d = adjusted(adj, scaled)
            if load == 'shared':
                A2 = ADJ[adj].get('f', {}).get('Q', 1.) if scaled else 1.
                q = raw('P', A.get('nan')).astype(np.float64)
                d['Q'] = np.where(np.isnan(q), 0., q) * A2
            ref[(name, scaled)] = expected(d, load == 'shared', RUNS[name], pos, halo)
        want = ref[(name, scaled)]
        got = None
        try:
            for s, rt, dt in RUNS[name]:
                if s is not None:
                    ps = ParticleSet(fs, pclass=P, lon=[p[1] for p in pos], lat=[p[0] for p in pos], time=[s] * len(pos), lonlatdepth_dtype=np.float64)
                cache.execute('k', ps, func(KERNEL, 'K'), runtime=rt, dt=dt)
            got = [(float(q.p), float(q.q)) for q in ps]
        except Exception as e:
            got = repr(e)[:300]
        ctx.tick()
        ctx.step(len(RUNS[name]))
        ctx.state((load, c['halo'], name, prev))
        if deferred or adj != 'none':
            ctx.distinct((tag, name, prev))
        ctx.outcome(load)
        ok = not isinstance(got, str) and np.allclose(got, want, rtol=1e-5, atol=1e-5)
        ctx.expect(ok, '%s: %s after %s' % (tag, name, prev), 'samples of P and Q are %s, expected %s' % (got, want))
        prev = name
        if isinstance(got, str):
            break
    for n, a in given.items():
        ctx.expect(np.array_equal(a, before[n], equal_nan=True), tag + ': array', 'the array given for %s was changed' % n)
    ctx.trace()
    ctx.sample(c)


# depth levels taken from a field ------------------------------------------------------------------

DN = 3
DCASES = ('plain', 'second', 'factor', 'late')


def depth_configs(tier):
    out = []
    for load in ('now', 'demand', 'chunks'):
        for split in ('one', 'two', 'apart'):
            for horiz in ('rect', 'curvi'):
                for what in DCASES:
                    if what == 'second' and split == 'one' and load == 'now' and horiz == 'curvi' and tier == 'quick':
                        continue
                    for mode in MODES:
                        if tier == 'quick' and (what in ('factor', 'late') and (split == 'two' or horiz == 'curvi') or horiz == 'curvi' and split == 'apart'):
                            continue
                        out.append(dict(load=load, split=split, horiz=horiz, what=what, mode=mode))
    return out


def depth_data():
    t, k, j, i = np.meshgrid(np.arange(NT), np.arange(DN), np.arange(4), np.arange(6), indexing='ij')
    D = (k * (1 + .125 * i) + .25 * t + .0625 * j * k).astype(np.float32)
    E = (.5 + k * (1.5 + .125 * j) - .125 * t).astype(np.float32)
    n = np.arange(t.size, dtype=np.int64)
    T = ((((n * 2654435761) >> 5) % 65 - 32) / 8.).reshape(t.shape).astype(np.float32)
    S = ((((n * 40503 + 11) >> 2) % 61 - 30) / 8.).reshape(t.shape).astype(np.float32)
    return dict(D=D, E=E, T=T, S=S)


def depth_files(horiz, split, scratch):
    data = depth_data()
    X, Y = np.meshgrid(LON, LAT)
    if horiz == 'curvi':
        co = {'lon': (('y', 'x'), (X + .25 * Y).astype(np.float32)), 'lat': (('y', 'x'), Y)}
    else:
        co = {'lon': ('x', LON), 'lat': ('y', LAT)}
    groups = [('all', 'DETS')] if split != 'apart' else [(n, n) for n in 'DETS']
    cuts = [(0, NT)] if split == 'one' else [(0, 2), (2, NT)]
    out = {n: [] for n in 'DETS'}
    for g, ns in groups:
        for q, (a, b) in enumerate(cuts):
            fn = os.path.join(scratch, 'z_%s_%s_%s_%d.nc' % (horiz, split, g, q))
            if not os.path.exists(fn):
                c = dict(co)
                c['time'] = ('time', TIM[a:b], {'units': 'seconds since 2000-01-01'})
                xr.Dataset({n: (('time', 'z', 'y', 'x'), data[n][a:b]) for n in ns}, c).to_netcdf(fn)
            for n in ns:
                out[n].append(fn)
    return out


KERNELZ = """
def K(particle, fieldset, time):
    particle.p = 0.5 * particle.p + fieldset.T[time, particle.depth, particle.lat, particle.lon]
    particle.q = 0.5 * particle.q + fieldset.S[time, particle.depth, particle.lat, particle.lon]
"""
POSZ = [(1., 1.25, 2.375), (1.5, 2.75, 1.5), (2.5, 3.5, 2.)]   # y, x (on the index grid), depth


def column(a, t, y, x):
    return [interp(a[:, k], t, y, x, False) for k in range(DN)]


def expected_depth(data, names, legs):
    out = []
    for y, x, z in POSZ:
        r = []
        for v, lev in names:
            acc, t = 0., None
            for s, rt, dt in legs:
                t = s if s is not None else t
                for _ in range(1 if dt == 0 else int(round(rt / abs(dt)))):
                    L = column(data[lev], t, y, x)
                    k = max(i for i in range(DN - 1) if L[i] <= z)
                    zeta = (z - L[k]) / (L[k + 1] - L[k])
                    assert 0 <= zeta <= 1, (L, z)
                    c = column(data[v], t, y, x)
                    acc = .5 * acc + (1 - zeta) * c[k] + zeta * c[k + 1]
                    t += dt
            r.append(acc)
        out.append(tuple(r))
    return out


def run_depth(unit, ctx):
    c = {k: v for k, v in unit.items() if k != 'kind'}
    if not ctx.case(unit):
        return
    load, what, mode = c['load'], c['what'], c['mode']
    tag = 'depth %s %s %s %s %s' % (mode, load, c['split'], c['horiz'], what)
    fl = depth_files(c['horiz'], c['split'], ctx.scratch)
    kw = dict(mesh='flat', deferred_load=load != 'now')
    if load == 'chunks':
        kw['chunksize'] = {'depth': ('z', 2), 'lat': ('y', 3), 'lon': ('x', 4)}
    names = 'DETS' if what == 'second' else 'DTS'
    dims = {n: {'lon': 'lon', 'lat': 'lat', 'depth': 'not_yet_set', 'time': 'time'} for n in names}
    fs = still()
    new = FieldSet.from_netcdf({n: fl[n] for n in names}, {n: n for n in names}, dims, allow_time_extrapolation=False, **kw)
    for n in names:
        fs.add_field(getattr(new, n))
    data = depth_data()
    fs.T.set_depth_from_field(fs.D)
    fs.S.set_depth_from_field(fs.E if what == 'second' else fs.D)
    if what == 'factor':
        fs.D.set_scaling_factor(.5)
        fs.T.set_scaling_factor(3.)
        data['D'], data['T'] = data['D'] * .5, data['T'] * 3.
        pos = [(y, x, z * .5) for y, x, z in POSZ]
    else:
        pos = POSZ
    P = pclass(mode, [('p', np.float64, 0.), ('q', np.float64, 0.)], name='VP24z' + mode)
    cache = KernelCache()
    prev, ref = 'first', {}
    seq = order({'load': load, 'halo': 'none', 'at': 'built'}, ctx.tier) if what in ('plain', 'second') and c['split'] == 'two' else list(RUNS) + list(RUNS)[::-1]
    if what == 'late':
        seq = ['late'] + seq
    for name in seq:
        if name not in ref:
            d = depth_data()
            want = expected_depth(d, [('T', 'D'), ('S', 'E' if what == 'second' else 'D')], RUNS[name])
            ref[name] = [(a * 3, b) for a, b in want] if what == 'factor' else want
        want = ref[name]
        try:
            for s, rt, dt in RUNS[name]:
                if s is not None:
                    ps = ParticleSet(fs, pclass=P, lon=[p[1] + (.25 * p[0] if c['horiz'] == 'curvi' else 0) for p in pos], lat=[p[0] for p in pos],
                                     depth=[p[2] for p in pos], time=[s] * len(pos), lonlatdepth_dtype=np.float64)
                cache.execute('k', ps, func(KERNELZ, 'K'), runtime=rt, dt=dt)
            got = [(float(q.p), float(q.q)) for q in ps]
        except Exception as e:
            got = repr(e)[:300]
        ctx.tick()
        ctx.step(len(RUNS[name]))
        ctx.state((tag, name))
        ctx.distinct((tag, name, prev))
        ctx.outcome('depth')
        ok = not isinstance(got, str) and np.allclose(got, want, rtol=1e-4, atol=1e-4)
        ctx.expect(ok, '%s: %s after %s' % (tag, name, prev), 'samples of T and S are %s, expected %s' % (got, want))
        prev = name
        if isinstance(got, str):
            break
    ctx.trace()
    ctx.sample(c)
