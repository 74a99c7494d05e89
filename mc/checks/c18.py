"""C18: fields, field sets, particle sets and classes do not interfere."""
import itertools
import os
import warnings

import numpy as np
import xarray as xr

from pk import ErrorCode, Field, FieldSet, JITParticle, ParticleFile, ParticleSet, ScipyParticle, Variable, func
from parcels.grid import Grid
from parcels.tools.converters import TimeConverter

ID = 'C18'
LEVEL = 'model_checking'
RULE = ('pairs: two fields on grids that are the same object, equal, nearly equal in one coordinate, or different in time treatment, mesh or shape, joined into one field set in either order by each listed '
        'constructor, sampled in both modes and compared with the interpolation of their own data; worlds: two particle sets, each created and executed twice, in every interleaving (quick: four) of these six operations, '
        'with field set, particle class or kernel function shared or not and differing in one or two of field data, grid, constant, kernel body, position type, '
        'variable type, initial value, written variables, loading and mode, compared with the model of each world alone; non-trivial: the worlds differ or share; distinct by configuration and interleaving')
BOUNDS = 'two fields or two particle sets with two executions of two steps each (thorough: also three particle sets with one execution each), two particles per set'
ASSUMPTIONS = ['an object is shared only as the configuration says; a kernel function is a plain Python function']

# ------------------------------------------------------------------ pairs of fields
NX, NY, NZ, NT = 4, 3, 3, 4


def vals(seed, shape):
    k = np.arange(int(np.prod(shape)), dtype=np.int64)
    return ((((k * 2654435761 + seed * 40503 + k * k * 97) >> 3) % 65 - 32) / 8.).astype(np.float32).reshape(shape)


BASES = {
    'small': dict(lon=np.arange(NX) * 1., lat=10. + np.arange(NY), depth=np.array([0., 1., 3.]), time=np.arange(NT) * 4.),
    'fine': dict(lon=300. + np.arange(NX) / 256., lat=60. + np.arange(NY) / 512., depth=4000. + np.arange(NZ) * .25, time=np.array([0., 3e7, 3e7 + 64., 3e7 + 128.])),
    'metres': dict(lon=5e5 + np.arange(NX) * 8., lat=5e6 + np.arange(NY) * 64., depth=np.array([0., 1., 3.]), time=np.arange(NT) * 4.),
}
HALF = {'small': dict(lon=.5, lat=.5, depth=.5, time=2.), 'fine': dict(lon=1 / 512., lat=1 / 1024., depth=.125, time=32.), 'metres': dict(lon=4., lat=32., depth=.5, time=2.)}


D0 = np.datetime64('2000-01-01T00:00:00', 'ns')
TS = {'small': (2.5, 6.5, 9.), 'fine': (3e7 + 40., 3e7 + 60., 3e7 + 100.), 'metres': (2.5, 6.5, 9.)}


def dated(t):
    return D0 + np.round(np.asarray(t) * 1e9).astype('m8[ns]')


def axes(base, tweak):
    a = {k: v.copy() for k, v in BASES[base].items()}
    if tweak in ('lon', 'lat', 'depth', 'time'):
        a[tweak] = a[tweak] + HALF[base][tweak]
    elif tweak == 'stretch':
        a['lon'][1:-1] += HALF[base]['lon'] / 2
    elif tweak == 'timestretch':
        a['time'][1:-1] += HALF[base]['time'] / 2
    elif tweak == 'longer':
        a['time'] = np.append(a['time'], a['time'][-1] + 2 * HALF[base]['time'])
    elif tweak == 'notime':
        a['time'] = a['time'][:1]
    elif tweak == 'nodepth':
        a['depth'] = a['depth'][:1]
    for k in ('lon', 'lat', 'depth'):
        a[k] = a[k].astype(np.float32)
    return a


def reference(ax, data, p):
    w = data.astype(np.float64)
    for k, c in zip(('time', 'depth', 'lat', 'lon'), p):
        x = ax[k].astype(np.float64)
        if w.shape[0] == 1:
            w = w[0]
            continue
        i = min(max(int(np.searchsorted(x, c, side='right')) - 1, 0), len(x) - 2)
        f = (c - x[i]) / (x[i + 1] - x[i])
        w = (1 - f) * w[i] + f * w[i + 1]
    return float(w)


def dataset(ax, name, data, parts='both'):
    ds = xr.Dataset()
    if parts != 'coords':
        ds[name] = (('t', 'z', 'y', 'x'), data)
        ds['time'] = (('t',), dated(ax['time']))
    if parts != 'data':
        for k, d in (('lon', 'x'), ('lat', 'y'), ('depth', 'z')):
            ds[k] = ((d,), ax[k])
    return ds


DIMS = {'lon': 'lon', 'lat': 'lat', 'depth': 'depth', 'time': 'time'}
TWEAKS = ('none', 'lon', 'lat', 'depth', 'time', 'stretch', 'timestretch', 'longer', 'notime', 'nodepth', 'flipped', 'split')
JOINS = ('memory', 'sameobject', 'xarray', 'files', 'filesnow', 'mesh', 'meshdims', 'meshsame', 'deferredmemory', 'memorydeferred', 'chunked')


def pairfs(base, tweak, join, order, scratch):
    """Field set with P (base axes) and Q (tweaked axes), created in the given order, and both references."""
    # times count from the first one of the earlier field, as Parcels does
    ax = {'P': axes(base, 'none'), 'Q': axes(base, tweak)}
    dat = {n: vals(i + 1, tuple(len(ax[n][k]) for k in ('time', 'depth', 'lat', 'lon'))) for i, n in enumerate('PQ')}
    names = ('P', 'Q') if order == 0 else ('Q', 'P')
    zero = {'U': np.zeros((2, 2, 2), np.float32), 'V': np.zeros((2, 2, 2), np.float32)}
    z = FieldSet.from_data(zero, {'time': dated([0., 1e9]), 'lon': [float(BASES[base]['lon'][0]) - 1, float(BASES[base]['lon'][-1]) + 99], 'lat': [float(BASES[base]['lat'][0]) - 1, float(BASES[base]['lat'][-1]) + 99]}, mesh='flat')

    def mem(n):
        f = FieldSet.from_data({n: dat[n]}, {k: (dated(ax[n][k]) if k == 'time' else ax[n][k]) for k in DIMS}, mesh='flat', allow_time_extrapolation=len(ax[n]['time']) == 1)
        return getattr(f, n)

    def path(n, parts='both'):
        tw = tweak if n == 'Q' else 'none'
        p = os.path.join(scratch, 'pair-%s-%s-%s-%s.nc' % (base, tw, n, parts))
        if tw == 'split' and parts != 'coords':
            ps = [p[:-3] + '%d.nc' % i for i in range(NT)]
            for i in range(NT):
                if not os.path.exists(ps[i]):
                    dataset(ax[n], n, dat[n], parts).isel(t=[i]).to_netcdf(ps[i])
            return ps
        if not os.path.exists(p):
            ds = dataset(ax[n], n, dat[n], parts)
            (ds.isel(y=slice(None, None, -1)) if tw == 'flipped' else ds).to_netcdf(p)
        return p

    def nc(n, **kw):
        return Field.from_netcdf(path(n) if isinstance(path(n), list) else [path(n)], (n, n), DIMS, mesh='flat', allow_time_extrapolation=len(ax[n]['time']) == 1, **kw)
    ch = {'time': ('t', 1), 'depth': ('z', 1), 'lat': ('y', 2), 'lon': ('x', 2)}
    if join == 'memory':
        fl = {n: mem(n) for n in names}
    elif join == 'sameobject':
        g = Grid.create_grid(ax['P']['lon'], ax['P']['lat'], ax['P']['depth'], ax['P']['time'], TimeConverter(D0), mesh='flat')
        fl = {n: Field(n, dat[n], grid=g) for n in names}
    elif join == 'xarray':
        fl = {n: Field.from_xarray(dataset(ax[n], n, dat[n]).set_coords(list(DIMS))[n], n, DIMS, mesh='flat', allow_time_extrapolation=len(ax[n]['time']) == 1) for n in names}
    elif join in ('files', 'filesnow', 'chunked', 'mesh', 'meshdims', 'meshsame'):
        if join in ('mesh', 'meshdims', 'meshsame'):
            fn = {n: {'lon': path(n, 'coords'), 'lat': path(n, 'coords'), 'depth': path(n, 'coords'), 'data': path(n, 'data')} for n in names}
        else:
            fn = {n: path(n) for n in names}
        if join == 'meshsame':
            for n in names:
                fn[n].update({k: path('P', 'coords') for k in ('lon', 'lat', 'depth')})
        kw = {'files': {}, 'filesnow': {'deferred_load': False}, 'chunked': {'chunksize': {n: ch for n in names}}}.get(join, {})
        dims = {n: dict(DIMS) for n in names} if join == 'meshdims' else DIMS
        fs = FieldSet.from_netcdf(fn, {n: n for n in names}, dims, mesh='flat', allow_time_extrapolation=True if tweak == 'notime' else None, **kw)
        fl = {n: getattr(fs, n) for n in names}
    else:
        first = {'deferredmemory': nc, 'memorydeferred': mem}[join]
        second = {'deferredmemory': mem, 'memorydeferred': nc}[join]
        fl = {names[0]: first(names[0])}
        fl[names[1]] = second(names[1])
    for n in names:
        z.add_field(fl[n])
    return z, ax, dat


PSRC = '''def K(particle, fieldset, time):
    if particle.done == 0:
        particle.o0 = fieldset.P[time, particle.depth, particle.lat, particle.lon]
        particle.o1 = fieldset.Q[time, particle.depth, particle.lat, particle.lon]
        particle.done = 1
'''


def sampler(mode):
    ft = np.float64 if mode == 'scipy' else np.float32
    return type('VPpair' + mode, ({'scipy': ScipyParticle, 'jit': JITParticle}[mode],),
                {'done': Variable('done', np.int32, 0), 'o0': Variable('o0', ft, -999.), 'o1': Variable('o1', ft, -999.)})


def pair(unit, ctx):
    base = unit['base']
    for tweak, join, order in itertools.product(TWEAKS, JOINS, (0, 1)):
        if (hash_((tweak, join, order)) % unit['of']) != unit['part']:
            continue
        if join == 'sameobject' and tweak != 'none' or join == 'meshsame' and tweak not in ('none', 'time', 'timestretch', 'longer', 'split') or \
                tweak in ('flipped', 'split') and join in ('memory', 'xarray'):
            continue
        for mode in ('scipy', 'jit'):
            if not ctx.case(dict(base=base, tweak=tweak, join=join, order=order, mode=mode)):
                continue
            sig = 'pair %s %s %s order%d %s' % (base, tweak, join, order, mode)
            try:
                fs, ax, dat = pairfs(base, tweak, join, order, ctx.scratch)
                common = {k: (max(ax['P'][k][0], ax['Q'][k][0]) if len(ax['Q'][k]) > 1 else ax['P'][k][0], min(ax['P'][k][-1], ax['Q'][k][-1]) if len(ax['Q'][k]) > 1 else ax['P'][k][-1]) for k in DIMS}
                pts = []
                for t, *w in itertools.product(TS[base], (.2, .7), (.3, .85), (.15, .45, .75, .95)):
                    pts.append((t,) + tuple(float(np.float32(common[k][0] + w[i] * (common[k][1] - common[k][0]))) for i, k in enumerate(('depth', 'lat', 'lon'))))
                pset = ParticleSet(fs, pclass=sampler(mode), lon=[p[3] for p in pts], lat=[p[2] for p in pts], depth=[p[1] for p in pts], lonlatdepth_dtype=np.float64,
                                   time=[p[0] for p in pts])
                ids = {int(i): k for k, i in enumerate(sorted(int(p.id) for p in pset))}
                dt = 2. if base == 'fine' else .5
                pset.execute(func(PSRC, 'K'), dt=dt, endtime=max(p[0] for p in pts) + dt)
                got = {ids[int(p.id)]: (p.o0, p.o1) for p in pset}
            except Exception as e:
                ctx.violate(sig, '%s: %s' % (type(e).__name__, str(e)[:300]))
                continue
            bad = []
            for k, p in enumerate(pts):
                want = (reference(ax['P'], dat['P'], p), reference(ax['Q'], dat['Q'], p))
                ctx.step()
                tol = 1e-3
                if max(abs(a - b) for a, b in zip(want, got[k])) > tol:
                    bad.append((p, got[k], want))
            ctx.outcome('pair ' + join)
            ctx.state(sig)
            ctx.distinct((sig,))
            ctx.expect(not bad, sig, '%d of %d points differ, first (t, z, y, x)=%s: (P, Q)=%s instead of %s' % ((len(bad), len(pts)) + bad[0] if bad else (0,) * 5))


def hash_(t):
    h = 0
    for c in repr(t):
        h = (h * 31 + ord(c)) % 1000003
    return h


# ------------------------------------------------------------------ time treatment of fields on one grid
def treat(unit, ctx):
    """Fields with equal coordinates but different treatment of times outside the data."""
    T = np.arange(NT) * 4.
    for (tp, tq), join, mode, when in itertools.product(itertools.product(('error', 'hold', 'periodic'), repeat=2), ('memory', 'deferred', 'mixed'), ('scipy', 'jit'), ('inside', 'after', 'before')):
        if not ctx.case(dict(P=tp, Q=tq, join=join, mode=mode, when=when)):
            continue
        sig = 'treatment P=%s Q=%s %s %s %s' % (tp, tq, join, when, mode)
        ax = axes('small', 'none')
        fl, dat = {}, {}
        for i, (n, tr) in enumerate((('P', tp), ('Q', tq))):
            dat[n] = vals(i + 1, (NT, NZ, NY, NX))
            kw = {'error': dict(allow_time_extrapolation=False), 'hold': dict(allow_time_extrapolation=True), 'periodic': dict(time_periodic=16.)}[tr]
            if join == 'memory' or join == 'mixed' and n == 'Q':
                fl[n] = getattr(FieldSet.from_data({n: dat[n]}, dict(lon=ax['lon'], lat=ax['lat'], depth=ax['depth'], time=dated(T)), mesh='flat', **kw), n)
            else:
                p = os.path.join(ctx.scratch, 'treat-%s.nc' % n)
                if not os.path.exists(p):
                    dataset(dict(ax, time=T), n, dat[n]).to_netcdf(p)
                fl[n] = Field.from_netcdf([p], (n, n), DIMS, mesh='flat', **kw)
        z = FieldSet.from_data({'U': np.zeros((2, 2, 2), np.float32), 'V': np.zeros((2, 2, 2), np.float32)}, {'time': dated([-100., 1000.]), 'lon': [-1., 99.], 'lat': [-1., 99.]}, mesh='flat')
        z.add_field(fl['P'])
        z.add_field(fl['Q'])
        t0 = {'inside': 5., 'after': 19., 'before': -3.}[when]

        def one(n, tr):
            t = t0
            if tr == 'periodic':
                t = t0 % 16.
                if t > 12.:
                    f = (t - 12.) / 4.
                    a = reference(dict(ax, time=T), dat[n], (12., .5, 10.4, .3))
                    b = reference(dict(ax, time=T), dat[n], (0., .5, 10.4, .3))
                    return (1 - f) * a + f * b
            elif tr == 'hold':
                t = min(max(t0, 0.), 12.)
            elif when != 'inside':
                return None
            return reference(dict(ax, time=T), dat[n], (t, .5, 10.4, .3))
        want = [one('P', tp), one('Q', tq)]
        try:
            pset = ParticleSet(z, pclass=sampler(mode), lon=[.3], lat=[10.4], depth=[.5], time=[100. + t0], lonlatdepth_dtype=np.float64)
            # each field in its own kernel call, so that an error of one does not hide the other
            got = []
            for k, n in enumerate('PQ'):
                if want[k] is None and join != 'memory':
                    continue
                res = []
                src = 'def K%s(particle, fieldset, time):\n    particle.o%d = fieldset.%s[time, particle.depth, particle.lat, particle.lon]\n' % (n, k, n)

                def rec(particle, fieldset, time):
                    res.append('error')
                    particle.delete()
                ps = ParticleSet(z, pclass=sampler(mode), lon=[.3], lat=[10.4], depth=[.5], time=[100. + t0], lonlatdepth_dtype=np.float64)
                if join != 'memory' and None in want:
                    continue   # data on demand cannot be provided at all outside the range of one of the fields
                ps.execute(func(src, 'K' + n), runtime=0.5, dt=0.5, recovery={ErrorCode.ErrorTimeExtrapolation: rec})
                g = None if res else getattr(ps[0], 'o%d' % k)
                ctx.step()
                ctx.expect((g is None) == (want[k] is None) and (g is None or abs(g - want[k]) < 1e-4), sig + ' ' + n, '%s sampled at %s: %s instead of %s' % (n, t0, g, want[k]))
        except Exception as e:
            ctx.violate(sig, '%s: %s' % (type(e).__name__, str(e)[:300]))
        ctx.outcome('treatment')
        ctx.state(sig)
        ctx.distinct((sig,))


# ------------------------------------------------------------------ worlds
BODY = {'a': '    move = [0.125, 0.5]\n    particle.lon += move[0]\n', 'b': '    move = 0.25\n    particle.lon += move\n'}
KSRC = ('def Move(particle, fieldset, time):\n    particle.p = particle.p + fieldset.P[time, particle.depth, particle.lat, particle.lon] * fieldset.K + fieldset.Q[time, particle.depth, particle.lat, particle.lon]\n'
        '%s    particle.n += 1\n')
DEFAULT = dict(data=0, grid='a', const=2., body='a', pos='f4', ptype='f4', init=0., write=True, load='now', mode='jit', start=0.)
DIFF = {'data': [1], 'grid': ['b'], 'const': [3.], 'body': ['b'], 'pos': ['f8'], 'ptype': ['f8'], 'init': [5.], 'write': [False], 'load': ['demand'], 'mode': ['scipy'], 'start': [4.]}
SHARES = ('nothing', 'fieldset', 'class', 'function', 'fieldset+class', 'fieldset+function', 'class+function', 'all', 'field', 'subclass', 'kernel')
OWNED = {'fieldset': ('data', 'grid', 'const', 'load'), 'class': ('ptype', 'init', 'mode'), 'function': ('body',), 'field': ('data', 'grid', 'load'), 'subclass': ('ptype', 'init', 'mode'),
         'kernel': ('body', 'ptype', 'init', 'mode', 'pos', 'data', 'grid', 'const', 'load')}
WT = np.array([0., 4., 8., 12., 16.])


def pvalue(w, t, lon):
    """P is linear in space and time; on grid b the longitudes are scaled, the values continue."""
    return 1. + w['data'] * 10. + .5 * lon + .25 * t


def fieldset(w, scratch):
    lon = np.arange(7.) if w['grid'] == 'a' else np.array([-1., 3., 8.])
    lat = np.array([0., 1.])
    T, X = WT[:, None, None], lon[None, None, :]
    data = (pvalue(w, T, X) + 0 * lat[None, :, None]).astype(np.float32)
    z = np.zeros((len(WT), 2, len(lon)), np.float32)
    q = (2. + .125 * T + 0 * data).astype(np.float32)
    if w['load'] == 'now':
        fs = FieldSet.from_data({'U': z, 'V': z, 'P': data, 'Q': q}, {'lon': lon, 'lat': lat, 'time': dated(WT)}, mesh='flat')
    else:
        p = os.path.join(scratch, 'w-%s-%s.nc' % (w['data'], w['grid']))
        if not os.path.exists(p):
            xr.Dataset({'U': (('time', 'lat', 'lon'), z), 'V': (('time', 'lat', 'lon'), z), 'P': (('time', 'lat', 'lon'), data), 'Q': (('time', 'lat', 'lon'), q)},
                       coords={'time': dated(WT), 'lat': lat, 'lon': lon}).to_netcdf(p)
        fs = FieldSet.from_netcdf([p], {n: n for n in 'UVPQ'}, {'lon': 'lon', 'lat': 'lat', 'time': 'time'}, mesh='flat',
                                   chunksize={n: {'time': ('time', 1), 'lat': ('lat', 1), 'lon': ('lon', 2)} for n in 'UVPQ'} if w['load'] == 'chunks' else None)
    fs.add_constant('K', w['const'])
    return fs


def particleclass(w, base=None):
    if base is not None:
        return type('VPworld', (base,), {'extra': Variable('extra', np.float32, 7.)})
    return type('VPworld', ({'scipy': ScipyParticle, 'jit': JITParticle}[w['mode']],),
                {'p': Variable('p', {'f4': np.float32, 'f8': np.float64}[w['ptype']], w['init']), 'n': Variable('n', np.int32, 0)})


class World(object):
    def __init__(self, w, k, scratch):
        self.w, self.k, self.scratch = w, k, scratch
        self.fs = self.cls = self.fn = self.pset = self.kernel = None
        self.out = None
        self.t = w['start']
        self.lon = [.3, 1.7]
        self.p, self.n = [w['init']] * 2, 0
        self.cast = {'f4': np.float32, 'f8': np.float64}[w['pos']]
        self.lon = [float(self.cast(x)) for x in self.lon]
        self.executed = 0

    def create(self, shared, fs=None, cls=None, fn=None, field=None):
        w = self.w
        self.fs = fs
        if self.fs is None:
            self.fs = fieldset(w, self.scratch) if field is None else None
            if field is not None:
                lon = [-1., 99.]
                z = np.zeros((2, 2, 2), np.float32)
                self.fs = FieldSet.from_data({'U': z, 'V': z, 'Q': z + np.array([2., 127.], np.float32)[:, None, None]}, {'lon': lon, 'lat': [0., 1.], 'time': dated([0., 1000.])}, mesh='flat')
                self.fs.add_field(field)
                self.fs.add_constant('K', w['const'])
        self.cls = cls or particleclass(w)
        self.fn = fn or func(KSRC % BODY[w['body']], 'Move')
        self.pset = ParticleSet(self.fs, pclass=self.cls, lon=self.lon, lat=[.5, .5], depth=[0., 0.], time=[self.t] * 2, lonlatdepth_dtype=self.cast)
        if not w['write']:
            self.pset.set_variable_write_status('n', False)

    def execute(self, last, kernel=None):
        w = self.w
        kw = {}
        if last:
            self.out = self.pset.ParticleFile(os.path.join(self.scratch, 'o%d_%d.nc' % (self.k, os.getpid())), outputdt=2.)
            kw = dict(output_file=self.out)
        if kernel is not None:
            self.pset.execute(kernel, runtime=4., dt=2., **kw)
        else:
            self.pset.execute(self.fn, runtime=4., dt=2., **kw)
        inc = {'a': .125, 'b': .25}[w['body']]
        for s in range(2):
            for i in range(2):
                self.p[i] += pvalue(w, self.t, self.lon[i]) * w['const'] + 2. + .125 * self.t
                self.lon[i] = float(self.cast(self.lon[i] + inc))
            self.t += 2.
            self.n += 1

    def check(self):
        """Differences between the particle set and the model."""
        bad = []
        for i, p in enumerate(self.pset):
            got = (float(p.lon), float(p.p), int(p.n), float(p.time))
            want = (self.lon[i], self.p[i], self.n, self.t)
            eps = 1e-12 if self.w['pos'] == 'f8' else 1e-6
            if abs(got[0] - want[0]) > eps or abs(got[1] - want[1]) > 1e-4 * (1 + abs(want[1])) or got[2:] != want[2:]:
                bad.append('particle %d has (lon, p, n, time) %s instead of %s' % (i, got, want))
        return bad

    def file(self):
        self.out.export()
        with xr.open_dataset(self.out.name, decode_times=False) as ds:
            names = set(ds.data_vars)
            vals_ = ds['p'].values
        self.out.close(delete_tempfiles=True)
        bad = []
        if ('n' in names) != self.w['write']:
            bad.append('variable n %s in the output file' % ('is' if 'n' in names else 'is not'))
        if vals_.shape != (2, 3) or max(abs(float(vals_[i, -1]) - self.p[i]) / (1 + abs(self.p[i])) for i in range(2)) > 1e-4:
            bad.append('output file has p %s, the last ones should be %s' % (vals_.tolist(), self.p))
        return bad


def interleavings(ops):
    """All merges of the given numbers of operations per world."""
    if not any(ops):
        yield ()
        return
    for k, n in enumerate(ops):
        if n:
            for rest in interleavings(ops[:k] + (n - 1,) + ops[k + 1:]):
                yield (k,) + rest


def worldcases(tier):
    """(shares, differences of the second world, differences of both)"""
    out = []
    names = list(DIFF)
    sets = [()] + [(n,) for n in names]
    if tier == 'thorough':
        sets += list(itertools.combinations(names, 2))
    else:
        sets += [('pos', 'mode'), ('pos', 'body'), ('load', 'start'), ('ptype', 'pos'), ('grid', 'data'), ('write', 'mode'), ('const', 'body'), ('load', 'grid')]
    for share in SHARES:
        owned = set()
        for s in share.replace('all', 'fieldset+class+function').split('+'):
            owned |= set(OWNED.get(s, ()))
        for diff in sets:
            if owned & set(diff):
                continue
            for both in ((), ('load',), ('chunks',), ('mode',), ('pos',)):
                if set(both) & set(diff) or both == ('chunks',) and 'load' in diff or tier == 'quick' and both and (both[0] in ('load', 'chunks') and 'fieldset' not in share and share != 'all' and share != 'field'
                                                                      or both == ('pos',) or len(diff) > 1):
                    continue
                if share == 'kernel' and both in (('load',), ('chunks',)):
                    continue
                out.append((share, diff, both))
    return out


def worlds(unit, ctx):
    warnings.filterwarnings('ignore')
    share, diff, both = unit['share'], unit['diff'], unit['both']
    first = dict(DEFAULT, **{b: DIFF[b][0] for b in both if b != 'chunks'})
    if 'chunks' in both:
        first['load'] = 'chunks'
    second = dict(first, **{d: DIFF[d][0] for d in diff})
    ils = list(interleavings((3, 3)))
    if ctx.tier == 'thorough' and share != 'kernel':
        ils += list(interleavings((2, 2, 2)))
    for order, il in itertools.product((0, 1), ils):
        if il[0] != 0 or (order == 1 and not diff and share not in ('subclass', 'field')):
            continue   # the mirror image is the other order
        if ctx.tier == 'quick' and il not in QUICKIL:
            continue
        if not ctx.case(dict(share=share, diff=diff, both=both, order=order, interleaving=il)):
            continue
        sig = 'worlds share=%s diff=%s both=%s order=%d %s' % (share, '+'.join(diff), '+'.join(both), order, ''.join(map(str, il)))
        ws = [World(first if order == 0 else second, 0, ctx.scratch), World(second if order == 0 else first, 1, ctx.scratch)]
        if 2 in il:
            ws.append(World(first, 2, ctx.scratch))
        shared = {}
        parts = share.replace('all', 'fieldset+class+function').split('+')
        try:
            for k in il:
                w = ws[k]
                if w.pset is None:
                    kw = {}
                    if 'fieldset' in parts or 'kernel' in parts:
                        kw['fs'] = shared.get('fs')
                    if 'class' in parts or 'kernel' in parts:
                        kw['cls'] = shared.get('cls')
                    if 'function' in parts or 'kernel' in parts:
                        kw['fn'] = shared.get('fn')
                    if 'field' in parts and shared.get('fs') is not None:
                        kw['field'] = shared['fs'].P
                    if 'subclass' in parts and shared.get('cls') is not None:
                        kw['cls'] = particleclass(w.w, shared['cls'])
                    w.create(shared, **kw)
                    for a in ('fs', 'cls', 'fn'):
                        shared.setdefault(a, getattr(w, a))
                else:
                    w.executed += 1
                    kernel = None
                    if 'kernel' in parts:
                        if 'kernel' not in shared:
                            shared['kernel'] = w.pset.Kernel(w.fn)
                        kernel = shared['kernel']
                    w.execute(w.executed == 2, kernel)
                for i, o in enumerate(ws):
                    if o.pset is not None:
                        ctx.step()
                        bad = o.check()
                        if not ctx.expect(not bad, sig, 'after operation of world %d: world %d: %s' % (k, i, '; '.join(bad[:2]))):
                            raise StopIteration
            for i, o in enumerate(ws):
                bad = o.file() if o.out is not None else []
                ctx.expect(not bad, sig, 'world %d: %s' % (i, '; '.join(bad)))
        except StopIteration:
            pass
        except Exception as e:
            ctx.violate(sig, '%s: %s' % (type(e).__name__, str(e)[:300]))
        ctx.outcome('worlds ' + share)
        ctx.state((share, diff, both, tuple(np.round(sum((o.p for o in ws), []), 3))))
        ctx.distinct((sig,))


QUICKIL = [il for il in interleavings((3, 3)) if il in ((0, 0, 1, 0, 1, 1), (0, 1, 0, 1, 0, 1), (0, 1, 1, 0, 1, 0), (0, 0, 1, 1, 0, 1))]


def units(tier):
    us = [{'kind': 'pair', 'base': b, 'part': i, 'of': 8} for b in BASES for i in range(8)]
    us.append({'kind': 'treat'})
    us += [{'kind': 'worlds', 'share': s, 'diff': list(d), 'both': list(b)} for s, d, b in worldcases(tier)]
    return us


def run(unit, ctx):
    warnings.filterwarnings('ignore')
    {'pair': pair, 'treat': treat, 'worlds': worlds}[unit['kind']](unit, ctx)
