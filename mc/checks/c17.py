"""C17: periodic halos extend the field by wrapping around."""
import itertools
import os

import numpy as np
import xarray as xr

from pk import MODES, Field, FieldSet, KernelCache, sample
from parcels import NestedField, RectilinearZGrid, SummedField  # noqa: F401
from parcels.grid import Grid

ID = 'C17'
LEVEL = 'model_checking'
RULE = ('every grid kind x constructor (arrays, xarray, netCDF in memory and on demand with different chunkings) x direction(s) x halo size x composition (plain, summed, nested), '
        'sampled in every cell of the extended domain, at several times forward and backward, in both modes; compared with a field built '
        'directly from explicitly wrapped arrays and with the sample one period away; non-trivial: a halo point is sampled; distinct by (configuration, time, mode)')
BOUNDS = 'grids of 6 x 5 x 3 nodes and 4 times, halos of 1 to 5 nodes'
ASSUMPTIONS = ['halo not larger than the grid, added once per direction, before the first execution']

NX, NY, NZ, NT = 6, 5, 3, 4
TT = np.array([0., 4., 8., 12.])
AXES = {'even': (np.arange(NX) * 1., 10. + np.arange(NY) * 1.), 'uneven': (np.array([0., 1., 2.5, 3., 4.5, 5.]), np.array([10., 10.5, 12., 13., 13.75]))}
DEP = np.array([0., 1., 3.])


def vals(shape, seed):
    n = int(np.prod(shape))
    k = np.arange(n, dtype=np.int64)
    return ((((k * 2654435761 + seed * 40503 + k * k * 97) >> 3) % 65 - 32) / 8.).astype(np.float32).reshape(shape)


def coords(kind, ax):
    """lon, lat, depth arrays of the original grid."""
    lon, lat = AXES[ax]
    y, x = np.arange(NY), np.arange(NX)
    if kind in ('cz', 'cz4', 'cs'):
        lo = lon[None, :] + np.array([0., .1, .2, .1, .05])[:, None]
        la = lat[:, None] + np.array([0., .1, -.1, .15, .1, .05])[None, :]
    else:
        lo, la = lon, lat
    if kind in ('rs', 'cs'):
        d = DEP[:, None, None] * (1 + .05 * y[None, :, None] + .03 * x[None, None, :])
    elif kind == 'rst':
        d = DEP[None, :, None, None] * (1 + .05 * y[None, None, :, None] + .03 * x[None, None, None, :]) * (1 + .1 * np.arange(NT))[:, None, None, None]
    elif kind in ('rz4', 'cz4'):
        d = DEP
    else:
        d = np.zeros(1)
    return lo.astype(np.float32), la.astype(np.float32), d.astype(np.float32)


def data(kind):
    sh = (NT, NY, NX) if kind in ('rz', 'cz') else (NT, NZ, NY, NX)
    return {n: vals(sh, i + 1) for i, n in enumerate('UVP')}


def wrap(a, h, axis):
    if not h:
        return a
    w = [(0, 0)] * a.ndim
    w[axis] = (h, h)
    return np.pad(a, w, mode='wrap')


def shifted(c, h, axis):
    """Coordinates continued with the period of the domain along the axis: its length plus one first spacing."""
    if not h:
        return c
    c = c.astype(np.float64)
    n = c.shape[axis]
    take = lambda i: np.take(c, i, axis=axis)  # noqa: E731
    per = np.expand_dims(take(n - 1) - take(0) + take(1) - take(0), axis)
    left = np.take(c, range(n - h, n), axis=axis) - per
    right = np.take(c, range(h), axis=axis) + per
    return np.concatenate((left, c, right), axis=axis).astype(np.float32)


def extended(kind, ax, hz, hm):
    lo, la, d = coords(kind, ax)
    if lo.ndim == 1:
        lo, la = shifted(lo, hz, 0), shifted(la, hm, 0)
    else:
        lo, la = shifted(lo, hz, 1), wrap(la, hz, 1)
        lo, la = wrap(lo, hm, 0), shifted(la, hm, 0)
    if d.ndim > 1:
        d = wrap(wrap(d, hz, d.ndim - 1), hm, d.ndim - 2)
    return lo, la, d, {n: wrap(wrap(v, hz, v.ndim - 1), hm, v.ndim - 2) for n, v in data(kind).items()}


def memory(lo, la, d, dat, mesh='flat'):
    g = Grid.create_grid(lo, la, d, TT, None, mesh=mesh)
    fields = {n: Field(n, v, grid=g, interp_method='nearest' if n == 'P' else 'linear') for n, v in dat.items()}
    return FieldSet(fields['U'], fields['V'], fields={'P': fields['P']})


def build(kind, ax, ctor, comp, scratch):
    lo, la, d = coords(kind, ax)
    dat = data(kind)
    if ctor == 'arrays':
        fs = memory(lo, la, d, dat)
    else:
        hd = ('y', 'x') if lo.ndim == 2 else ('x',)
        ld = ('y', 'x') if lo.ndim == 2 else ('y',)
        zd = () if kind in ('rz', 'cz') else ('z',)
        co = {'lon': (hd, lo), 'lat': (ld, la), 'time': ('t', TT)}
        if zd:
            co['depth'] = (('t', 'z', 'y', 'x')[4 - d.ndim:] if d.ndim > 1 else ('z',), d)
        ds = xr.Dataset({n: (('t',) + zd + ('y', 'x'), v) for n, v in dat.items()}, coords=co)
        dims = {'lon': 'lon', 'lat': 'lat', 'time': 'time'}
        if zd:
            dims['depth'] = 'depth'
        im = {'U': 'linear', 'V': 'linear', 'P': 'nearest'}
        if ctor == 'xarray':
            fs = FieldSet.from_xarray_dataset(ds, {n: n for n in dat}, dims, mesh='flat', interp_method=im)
        else:
            p = os.path.join(scratch, '%s_%s.nc' % (kind, ax))
            if not os.path.exists(p):
                ds.to_netcdf(p)
            ch = {'memory': dict(deferred_load=False), 'whole': dict(chunksize=False), 'auto': dict(chunksize='auto'),
                  'chunks': dict(chunksize={'time': ('t', 1), 'lat': ('y', 2), 'lon': ('x', 4), 'depth': ('z', 2)} if zd else {'time': ('t', 1), 'lat': ('y', 2), 'lon': ('x', 4)})}[ctor]
            fs = FieldSet.from_netcdf(p, {n: n for n in dat}, dims, mesh='flat', interp_method=im, **ch)
    return compose(fs, comp)


def compose(fs, comp):
    if comp == 'plain':
        return fs
    if comp == 'summed':
        return FieldSet(SummedField('U', [fs.U, fs.V]), SummedField('V', [fs.V, fs.U]), fields={'P': SummedField('P', [fs.P, fs.V])})
    return FieldSet(NestedField('U', [fs.U]), NestedField('V', [fs.V]), fields={'P': NestedField('P', [fs.P])})


def units(tier):
    u = []
    for k in ('rz', 'rz4', 'rs', 'rst', 'cz', 'cz4', 'cs'):
        for c in ('arrays', 'xarray', 'memory', 'whole', 'auto', 'chunks'):
            if k == 'rst' and c != 'arrays' or k in ('rs', 'cs') and c == 'xarray':
                continue
            u.append({'grid': k, 'ctor': c})
    return u


def shapes(tier):
    """(composition, axes, zonal halo, meridional halo, whether both are added by one call)"""
    s = []
    for ax in AXES:
        for h in ((1, 2, 5) if tier == 'quick' else (1, 2, 3, 4, 5)):
            s += [('plain', ax, h, 0, True), ('plain', ax, 0, h, True), ('plain', ax, h, h, True)]
        s += [('plain', ax, 2, 3, False), ('plain', ax, 3, 1, False)]
    s += [(c, 'even', 2, 2, True) for c in ('summed', 'nested')] + [(c, 'uneven', 0, 3, True) for c in ('summed', 'nested')]
    if tier == 'quick':
        s = [q for q in s if q[1] == 'uneven' or q[0] != 'plain' or q[2] in (0, 2) or not q[4]]
    return s


def run(unit, ctx):
    kind, ctor = unit['grid'], unit['ctor']
    cache = {}
    for comp, ax, hz, hm, once in shapes(ctx.tier):
        for mode in MODES:
            if ctx.tier == 'quick' and mode == 'jit' and ((ax == 'even' and comp == 'plain') or (hz, hm) in ((1, 0), (0, 1), (5, 5))):
                continue
            desc = dict(unit, comp=comp, axes=ax, zonal=hz, meridional=hm, once=once, mode=mode)
            if not ctx.case(desc):
                continue
            try:
                fs = build(kind, ax, ctor, comp, ctx.scratch)
                if once:
                    fs.add_periodic_halo(zonal=hz > 0, meridional=hm > 0, halosize=max(hz, hm))
                else:
                    fs.add_periodic_halo(zonal=True, halosize=hz)
                    fs.add_periodic_halo(meridional=True, halosize=hm)
                lo, la, d, dat = extended(kind, ax, hz, hm)
                ref = compose(memory(lo, la, d, dat), comp)
                pts = points(lo, la, d)
                g = next(f for f in fs.get_fields() if type(f) is Field).grid
                ctx.expect(g.lon.shape == lo.shape and np.allclose(g.lon, lo, atol=1e-5) and g.lat.shape == la.shape and np.allclose(g.lat, la, atol=1e-5), '%s: coordinates' % desc,
                           lambda: 'expected %s %s got %s %s' % (lo.tolist(), la.tolist(), g.lon.tolist(), g.lat.tolist()))
                body = ['(particle.o0, particle.o1) = fieldset.UV[particle.ts, particle.depth, particle.lat, particle.lon]', 'particle.o2 = fieldset.P[particle.ts, particle.depth, particle.lat, particle.lon]']
                if comp != 'plain':
                    body[0:1] = ['particle.o0 = fieldset.U[particle.ts, particle.depth, particle.lat, particle.lon]', 'particle.o1 = fieldset.V[particle.ts, particle.depth, particle.lat, particle.lon]']
                ca, cb = KernelCache(), KernelCache()
                for t in ((1., 9., 5.5, 0.) if ctx.tier == 'quick' else (0., 1., 4., 5.5, 8., 9., 11., 6., 3., 0.)):
                    p = [(t,) + q for q in pts]
                    want = sample(ref, mode, p, body, nout=3, cache=ca, ptime=t)
                    got = sample(fs, mode, p, body, nout=3, cache=cb, ptime=t)
                    bad = [(q, w, v) for q, w, v in zip(pts, want, got) if isinstance(w, str) or isinstance(v, str) or not np.allclose(w, v, atol=2e-4)]
                    ctx.expect(not bad, '%s: sampling' % desc, lambda: 'time %s: %d of %d points: %s' % (t, len(bad), len(pts), bad[:2]))
                    ctx.step(2 * len(pts))
                    ctx.trace()
                    ctx.distinct((tuple(desc.items()), t))
                    if kind in ('rz', 'rz4') and comp == 'plain':
                        period(ctx, desc, fs, mode, t, lo, la, hz, hm, ax, cb, body)
            except Exception as e:
                ctx.violate('%s: error' % desc, 'raised %r' % e)
            ctx.state((kind, ctor, comp, ax, hz, hm))
            ctx.outcome(comp)
    ctx.sample(unit)


def points(lo, la, d):
    """A point in every cell of the (extended) domain."""
    fx, fy, fz = .3, .6, .4
    if lo.ndim == 1:
        lo, la = np.meshgrid(lo, la)
    pts = []
    for j, i in itertools.product(range(lo.shape[0] - 1), range(lo.shape[1] - 1)):
        w = [(j, i, (1 - fx) * (1 - fy)), (j, i + 1, fx * (1 - fy)), (j + 1, i, (1 - fx) * fy), (j + 1, i + 1, fx * fy)]
        x, y = sum(lo[a, b] * c for a, b, c in w), sum(la[a, b] * c for a, b, c in w)
        pts.append((.7 if d.size > 1 else 0., float(y), float(x)))
    return pts


def period(ctx, desc, fs, mode, t, lo, la, hz, hm, ax, cache, body):
    """The sample in the halo is that one period away."""
    x, y = AXES[ax]
    px, py = x[-1] - 2 * x[0] + x[1], y[-1] - 2 * y[0] + y[1]
    a, b = [], []
    for z, q, r in points(lo, la, DEP if desc['grid'] == 'rz4' else np.zeros(1)):
        k = -px if r > x[-1] else px if r < x[0] else 0.
        m = -py if q > y[-1] else py if q < y[0] else 0.
        if (k or m) and lo[0] < r + k < lo[-1] and la[0] < q + m < la[-1]:
            a.append((t, z, q, r))
            b.append((t, z, q + m, r + k))
    if not a:
        return
    va, vb = sample(fs, mode, a, body, nout=3, cache=cache, ptime=t), sample(fs, mode, b, body, nout=3, cache=cache, ptime=t)
    bad = [(p, u, v) for p, u, v in zip(a, va, vb) if isinstance(u, str) or isinstance(v, str) or not np.allclose(u, v, atol=5e-4)]
    ctx.expect(not bad, '%s: period' % desc, lambda: 'time %s: %d of %d points: %s' % (t, len(bad), len(a), bad[:2]))
