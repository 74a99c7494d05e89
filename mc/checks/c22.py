"""C22: the same data in any layout, or written and read back, gives the same field."""
import itertools
import os
import warnings

import numpy as np
import xarray as xr

from pk import MODES, Field, FieldSet, ParticleSet, func, pclass
from parcels.grid import Grid

ID = 'C22'
LEVEL = 'model_checking'
RULE = ('one data set of three variables offered in every listed way: rank (with and without time and depth, with singleton dimensions) x constructor (arrays, transposed arrays, Field and Grid '
        'objects, xarray, netCDF at once, on demand, with chunks) x coordinates (1-D, 2-D rectilinear, 2-D oblique, with leading time and depth dimension) x '
        'latitude order x number type and packing x names x splitting over files x index ranges x written and read back; every cell sampled in both modes and compared with multilinear '
        'interpolation of the data; non-trivial: the configuration differs from plain arrays; distinct by configuration')
BOUNDS = 'grids of 6 x 5 x 3 nodes, 4 times, up to two of the variations combined on top of the full product rank x coordinates x latitude order x loading'
ASSUMPTIONS = ['oblique coordinates are right-handed (latitude ascending)', 'values are multiples of 1/8, coordinates exact in single precision',
               'chunked loading with, and oblique grids of, a single longitude or latitude are refused by Parcels and not offered']

ORIGIN = {'standard': '2000-01-31', 'noleap': '2001-02-28', '360_day': '2000-02-30', 'julian': '1900-02-29'}
COUNT = itertools.count()
NX, NY, NZ, NT = 6, 5, 3, 4
LON = np.array([0., 1., 2.5, 3., 4.5, 5.])
LAT = np.array([10., 10.5, 12., 13., 13.75])
DEP = np.array([0., 1., 3.])
TIM = np.array([0., 4., 8., 12.])
SH, SV = .25, .125   # lon = X + SH (Y-10), lat = Y + SV X
NAMES = ('U', 'V', 'P')
RANKS = {'tzyx': (1, 1), 'tyx': (1, 0), 'zyx': (0, 1), 'yx': (0, 0), 't1yx': (1, 2), '1zyx': (2, 1), '1yx': (2, 0), 'z1yx': (0, 2), '11yx': (2, 2)}
# 1: full length, 2: present with length one, 0: absent


def base():
    n = NT * NZ * NY * NX
    k = np.arange(n, dtype=np.int64)
    return {v: ((((k * 2654435761 + (i + 1) * 40503 + k * k * 97) >> 3) % 65 - 32) / 8.).reshape(NT, NZ, NY, NX) for i, v in enumerate(NAMES)}


def cut(a, rank):
    """The part of the base data that the rank offers, always four-dimensional."""
    t, z = RANKS[rank]
    return a[:NT if t == 1 else 1, :NZ if z == 1 else 1]


def reference(a, pts):
    """Multilinear interpolation of a 4-D array at points (t, z, Y, X); one-long axes are constant."""
    out = []
    for p in pts:
        w = a
        for ax, c in zip((TIM, DEP, LAT, LON), p):
            if w.shape[0] == 1:
                w = w[0]
                continue
            i = min(max(int(np.searchsorted(ax, c, side='right')) - 1, 0), len(ax) - 2)
            f = (c - ax[i]) / (ax[i + 1] - ax[i])
            w = (1 - f) * w[i] + f * w[i + 1]
        out.append(float(w))
    return out


def points(rank, inds):
    t, z = RANKS[rank]
    ts = (0., 3., 6., 8., 11.) if t == 1 else (0.,)
    xs = [LON[i] + .3 * (LON[i + 1] - LON[i]) for i in range(NX - 1) if i in inds['lon'] and i + 1 in inds['lon']]
    ys = [LAT[i] + .6 * (LAT[i + 1] - LAT[i]) for i in range(NY - 1) if i in inds['lat'] and i + 1 in inds['lat']]
    zs = [DEP[i] + .7 * (DEP[i + 1] - DEP[i]) for i in range(NZ - 1) if i in inds['depth'] and i + 1 in inds['depth']] if z == 1 else [0.]
    if z == 1 and len(inds['depth']) == 1:
        zs = [DEP[inds['depth'][0]]]
    if len(inds['lon']) == 1:
        xs = [LON[inds['lon'][0]]]
    if len(inds['lat']) == 1:
        ys = [LAT[inds['lat'][0]]]
    return [(a, b, c, d) for a in ts for b in zs for c in ys for d in xs]


def coords(ck, lat, one=''):
    """lon and lat arrays of the horizontal coordinate kind; one: axes with a single node."""
    lo, la = (LON[:1] if 'x' in one else LON), (LAT[:1] if 'y' in one else LAT)
    la = la if lat == 'up' else la[::-1]
    if ck == '1d':
        return lo.astype(np.float32), la.astype(np.float32)
    X, Y = np.meshgrid(lo, la)
    if ck.startswith('obl'):
        X, Y = X + SH * (Y - 10), Y + SV * X
    if '_far' in ck:
        X, Y = 300 + X / 512, 60 + (Y - 10) / 2048   # the rows differ by less than 1e-5 of the longitude
    X, Y = X.astype(np.float32), Y.astype(np.float32)
    if ck.endswith('t'):
        X, Y = X[None], Y[None]
    if ck.endswith('tz'):
        X, Y = X[None, None], Y[None, None]
    return X, Y


def values(rank, lat, fill=False, one=''):
    """Offered arrays per variable with the dimensions of the rank, and the reference data."""
    t, z = RANKS[rank]
    off, ref = {}, {}
    for v, a in base().items():
        a = cut(a, rank)[:, :, :1 if 'y' in one else NY, :1 if 'x' in one else NX].copy()
        if fill:
            m = (np.arange(a.size) % 7 == 3).reshape(a.shape)
            ref[v] = np.where(m, 0., a)
            a = np.where(m, np.nan, a)
        else:
            ref[v] = a
        if lat == 'down':
            a = a[:, :, ::-1]
        if not z:
            a = a[:, 0]
        if not t:
            a = a[0]
        off[v] = a
    return off, ref


def dimtuple(rank, names):
    t, z = RANKS[rank]
    return (('t',) if t else ()) + (('z',) if z else ()) + ('y', 'x') if names is None else \
        ((names['t'],) if t else ()) + ((names['z'],) if z else ()) + (names['y'], names['x'])


NAMESETS = {
    'plain': dict(t='t', z='z', y='y', x='x', lon='lon', lat='lat', depth='depth', time='time', var='%s'),
    'self': dict(t='time', z='depth', y='lat', x='lon', lon='lon', lat='lat', depth='depth', time='time', var='%s'),
    'nemo': dict(t='time_counter', z='deptht', y='y', x='x', lon='nav_lon', lat='nav_lat', depth='deptht', time='time_counter', var='vo%s'),
    'odd': dict(t='tau', z='sigma', y='northing', x='easting', lon='ll', lat='bb', depth='dd', time='uhr', var='%s_value'),
    'swap': dict(t='z', z='t', y='x', x='y', lon='lat', lat='lon', depth='time', time='depth', var='%s'),
    'case': dict(t='T', z='Z', y='YC', x='XC', lon='XC', lat='YC', depth='Z', time='T', var='%s'),
}


def dataset(rank, ck, lat, nm='plain', dt='f4', dates=False, scalar_time=False, only=None, tsl=None, parts=('coords', 'data'), one=''):
    """xarray dataset (and encoding) of the configuration; tsl: slice of times."""
    t, z = RANKS[rank]
    N = NAMESETS[nm]
    lo, la = coords(ck, lat, one)
    fill = dt.endswith('fill')
    off, ref = values(rank, lat, fill, one)
    dims = dimtuple(rank, N)
    ds = xr.Dataset()
    enc = {}
    tim = TIM[:1] if t == 2 else TIM
    if 'data' in parts:
        for v in (only or NAMES):
            a = off[v]
            if t and tsl is not None:
                a = a[tsl]
            dd = dims
            if t and scalar_time:
                a, dd = a[0], dims[1:]
            kind = dt.replace('fill', '')
            name = N['var'] % v
            if kind == 'i2':
                enc[name] = {'dtype': 'i2', 'scale_factor': .125, 'add_offset': 1., '_FillValue': -9999}
                a = a.astype(np.float64)
            else:
                a = a.astype({'f4': np.float32, 'f8': np.float64, 'be': '>f4'}[kind])
                if fill:
                    enc[name] = {'_FillValue': np.float32(1e20) if kind != 'f8' else 1e20}
            ds[name] = (dd, a)
    hn = {'1d': None, '2d': (N['y'], N['x']), 'obl': (N['y'], N['x'])}.get(ck.split('_')[0])
    tn, zn = (N['t'] if t else 'one'), (N['z'] if z else 'lev')
    if ck.endswith('_t'):
        hn = ('one',) + hn
    if ck.endswith('_tz'):
        hn = ('one', 'lev') + hn
    if 'coords' in parts:
        if ck == '1d':
            ds[N['lon']] = ((N['x'],), lo)
            ds[N['lat']] = ((N['y'],), la)
        else:
            ds[N['lon']] = (hn, lo)
            ds[N['lat']] = (hn, la)
        if z:
            ds[N['depth']] = ((N['z'],), (DEP if z == 1 else DEP[:1]).astype(np.float32))
    if t:
        tv = tim if tsl is None else tim[tsl]
        at = {}
        if dates == 'timedelta':
            tv = (tv * 1e9).astype('m8[ns]') + np.timedelta64(86400, 's')
        elif dates:
            at = {'units': 'seconds since %s 00:00:00' % ORIGIN[dates], 'calendar': dates}
        ds[N['time']] = ((), tv[0], at) if scalar_time else ((N['t'],), tv, at)
    return ds, enc, ref


def dimensions(rank, nm='plain'):
    t, z = RANKS[rank]
    N = NAMESETS[nm]
    d = {'lon': N['lon'], 'lat': N['lat']}
    if z:
        d['depth'] = N['depth']
    if t:
        d['time'] = N['time']
    return d


def store(ds, enc, path):
    if not os.path.exists(path):
        tmp = path + '.tmp%d' % os.getpid()
        ds.to_netcdf(tmp, encoding=enc)
        os.replace(tmp, path)
    return path


def loading(load, rank, nm):
    t, z = RANKS[rank]
    N = NAMESETS[nm]
    if load == 'now':
        return {'deferred_load': False}
    if load == 'demand':
        return {}
    if load == 'auto':
        return {'chunksize': 'auto'}
    ch = {'lat': (N['y'], 2), 'lon': (N['x'], 4)}
    if t:
        ch['time'] = (N['t'], 1)
    if z:
        ch['depth'] = (N['z'], 2 if z == 1 else 1)
    return {'chunksize': ch, **({'deferred_load': False} if load == 'chunksnow' else {})}


def from_arrays(cfg):
    how, rank, ck, lat, dt = cfg['how'], cfg['rank'], cfg['ck'], cfg['lat'], cfg.get('dt', 'f4')
    t, z = RANKS[rank]
    one = cfg.get('one', '')
    off, ref = values(rank, lat, dt.endswith('fill'), one)
    kind = {'f4': np.float32, 'f8': np.float64, 'be': '>f4', 'i4': np.int32, 'i2': np.int16}[dt.replace('fill', '')]
    if dt in ('i4', 'i2'):
        off = {v: a * 8 for v, a in off.items()}
        ref = {v: a * 8 for v, a in ref.items()}
    off = {v: a.astype(kind) for v, a in off.items()}
    lo, la = coords(ck, lat, one)
    dim = {'lon': lo, 'lat': la}
    if z:
        dim['depth'] = (DEP if z == 1 else DEP[:1]).astype(np.float32)
    if t:
        dim['time'] = TIM if t == 1 else TIM[:1]
    if dt.startswith('f8'):
        dim = {k: np.asarray(a, dtype=np.float64) for k, a in dim.items()}
    if cfg.get('form') == 'lists':
        dim = {k: a.tolist() for k, a in dim.items()}
    if cfg.get('form') == 'fortran':
        off = {v: np.asfortranarray(a) for v, a in off.items()}
    if cfg.get('form') == 'strided':
        off = {v: np.repeat(a, 2, axis=-1)[..., ::2] for v, a in off.items()}
    if how == 'data':
        fs = FieldSet.from_data(off, dim, mesh='flat')
    elif how == 'dataT':
        fs = FieldSet.from_data({v: np.transpose(a) for v, a in off.items()}, dim, mesh='flat', transpose=True)
    elif how == 'perdims':
        fs = FieldSet.from_data(off, {v: dim for v in off}, mesh='flat')
    else:
        kw = {'fieldtype': None}
        if how == 'field':
            fl = {v: Field(v, a, mesh='flat', **dim) for v, a in off.items()}
        elif how == 'fieldT':
            fl = {v: Field(v, np.transpose(a), mesh='flat', transpose=True, **dim) for v, a in off.items()}
        else:
            grid = Grid.create_grid(lo, la, dim.get('depth'), dim.get('time'), None, mesh='flat')
            fl = {v: Field(v, a, grid=grid, **kw) for v, a in off.items()}
        fs = FieldSet(fl['U'], fl['V'], fields={'P': fl['P']})
    return fs, ref


def from_dataset(cfg):
    rank, nm = cfg['rank'], cfg.get('nm', 'plain')
    ds, _, ref = dataset(rank, cfg['ck'], cfg['lat'], nm, cfg.get('dt', 'f4'), cfg.get('dates', False), one=cfg.get('one', ''))
    if cfg.get('dates'):
        ds = xr.decode_cf(ds)
    ds = ds.set_coords([n for n in dimensions(rank, nm).values()])
    var = {v: NAMESETS[nm]['var'] % v for v in NAMES}
    if cfg['how'] == 'xarray':
        fs = FieldSet.from_xarray_dataset(ds, var, dimensions(rank, nm), mesh='flat')
    elif cfg['how'] == 'xarrayP':
        fs = FieldSet.from_xarray_dataset(ds, var, {v: dimensions(rank, nm) for v in NAMES}, mesh='flat')
    else:
        fl = {v: Field.from_xarray(ds[var[v]], v, dimensions(rank, nm), mesh='flat') for v in NAMES}
        fs = FieldSet(fl['U'], fl['V'], fields={'P': fl['P']})
    return fs, ref


def from_files(cfg, scratch):
    rank, ck, lat, nm = cfg['rank'], cfg['ck'], cfg['lat'], cfg.get('nm', 'plain')
    dt, dates, split = cfg.get('dt', 'f4'), cfg.get('dates', False), cfg.get('split', 'one')
    t, z = RANKS[rank]
    one = cfg.get('one', '')
    tag = '_'.join((rank, ck, lat, nm, dt, str(dates), one))
    var = {v: NAMESETS[nm]['var'] % v for v in NAMES}
    dims = dimensions(rank, nm)
    arg = (rank, ck, lat, nm, dt, dates)
    ref = values(rank, lat, dt.endswith('fill'), one)[1]
    p = lambda s: os.path.join(scratch, tag + '-' + s + '.nc')  # noqa: E731
    put = lambda s, **kw: store(*dataset(*arg, one=one, **kw)[:2], p(s))  # noqa: E731
    if split == 'one':
        fn = put('one')
    elif split == 'times':
        fn = [put('t%d' % i, tsl=slice(i, i + 1)) for i in range(NT)]
    elif split == 'wildcard':
        for i in range(NT):
            put('w%d' % i, tsl=slice(i, i + 1))
        fn = p('w*')
    elif split == 'uneven':
        fn = [put('u%d' % i, tsl=s) for i, s in enumerate((slice(0, 1), slice(1, 4)))]
    elif split == 'scalar':
        fn = [put('s%d' % i, tsl=slice(i, i + 1), scalar_time=True) for i in range(NT)]
    elif split == 'vars':
        fn = {v: put('v' + v, only=(v,)) for v in NAMES}
    elif split == 'varstimes':
        fn = {v: [put('v%s%d' % (v, i), only=(v,), tsl=slice(i, i + 1)) for i in range(NT)] for v in NAMES}
    elif split in ('mesh', 'meshall', 'meshtimes', 'meshvars'):
        mesh = put('mesh', parts=('coords',))
        d = {'lon': mesh, 'lat': mesh}
        if z:
            d['depth'] = mesh
        if split == 'mesh':
            fn = {v: dict(d, data=put('data', parts=('data',))) for v in NAMES}
        elif split == 'meshall':
            fn = dict(d, data=put('data', parts=('data',)))
        elif split == 'meshvars':
            fn = {v: dict(d, data=put('d' + v, parts=('data',), only=(v,))) for v in NAMES}
        else:
            fn = {v: dict(d, data=[put('d%d' % i, parts=('data',), tsl=slice(i, i + 1)) for i in range(NT)]) for v in NAMES}
    if cfg.get('perdims'):
        dims = {v: dict(dims) for v in NAMES}
    inds = cfg.get('inds')
    kw = loading(cfg['load'], rank, nm)
    if cfg.get('perinds'):
        inds = {v: dict(inds) for v in NAMES}
    if cfg['how'] == 'ncfield':
        fnv = {v: (fn[v] if isinstance(fn, dict) and v in fn else fn) for v in NAMES}
        fl = {v: Field.from_netcdf(fnv[v], (v, var[v]), dims if not cfg.get('perdims') else dims[v], indices=inds, mesh='flat', **kw) for v in NAMES}
        fs = FieldSet(fl['U'], fl['V'], fields={'P': fl['P']})
    else:
        fs = FieldSet.from_netcdf(fn, var, dims, indices=inds, mesh='flat', **kw)
    return fs, ref


def written(cfg, scratch):
    """Built in one way, written with FieldSet.write and read with from_parcels."""
    src = dict(cfg, **cfg['src'])
    src['inds'] = None
    fs, ref = build(src, scratch)
    stem = os.path.join(scratch, 'back%d_' % next(COUNT))
    fs.write(stem)
    kw = loading(cfg['load'], 'tzyx', 'plain')
    if 'chunksize' in kw and kw['chunksize'] != 'auto':
        kw['chunksize'] = {v: {'time': ('time_counter', 1), 'depth': ('depth%s' % v.lower(), 1), 'lat': ('y', 2), 'lon': ('x', 4)} for v in NAMES}
    if not RANKS[cfg['rank']][0]:
        kw['allow_time_extrapolation'] = True
    return FieldSet.from_parcels(stem, extra_fields={'P': 'P'}, indices=cfg.get('inds'), **kw), ref


def build(cfg, scratch):
    how = cfg['how']
    if how in ('data', 'dataT', 'perdims', 'field', 'fieldT', 'grid'):
        return from_arrays(cfg)
    if how in ('xarray', 'xarrayP', 'xarrayF'):
        return from_dataset(cfg)
    if how == 'written':
        return written(cfg, scratch)
    return from_files(cfg, scratch)


SRC = '''def K(particle, fieldset, time):
    if particle.done == 0:
        (u, v) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]
        particle.o0 = u
        particle.o1 = v
        particle.o2 = fieldset.P[time, particle.depth, particle.lat, particle.lon]
        particle.done = 1
'''


def measure(fs, mode, pts, oblique, far):
    ft = np.float64 if mode == 'scipy' else np.float32
    P = pclass(mode, [('done', np.int32, 0)] + [('o%d' % i, ft, -999.) for i in range(3)], name='VPlayout' + mode)
    xy = [(p[3] + SH * (p[2] - 10), p[2] + SV * p[3]) if oblique else (p[3], p[2]) for p in pts]
    if far:
        xy = [(300 + x / 512, 60 + (y - 10) / 2048) for x, y in xy]
    pset = ParticleSet(fs, pclass=P, lon=[c[0] for c in xy], lat=[c[1] for c in xy], depth=[p[1] for p in pts], time=[p[0] for p in pts], lonlatdepth_dtype=np.float64)
    order = {int(i): k for k, i in enumerate(sorted(int(p.id) for p in pset))}
    pset.execute(func(SRC, 'K'), dt=1., endtime=max(p[0] for p in pts) + 1.)
    res = {order[int(p.id)]: (p.o0, p.o1, p.o2) for p in pset}
    return [res.get(k) for k in range(len(pts))]


def full(rank, one=''):
    z = RANKS[rank][1]
    return {'lon': [0] if 'x' in one else list(range(NX)), 'lat': [0] if 'y' in one else list(range(NY)), 'depth': list(range(NZ)) if z == 1 else [0]}


def ok(cfg):
    """Combinations that exist."""
    rank, ck, lat = cfg['rank'], cfg['ck'], cfg['lat']
    t, z = RANKS[rank]
    how = cfg['how']
    if lat == 'down' and ck != '1d' and (ck.startswith('obl') or how not in ('nc', 'ncfield')):
        return False   # a left-handed curvilinear grid
    if ck.endswith(('_t', '_tz')) and how not in ('nc', 'ncfield'):
        return False
    if cfg.get('split') in ('times', 'wildcard', 'uneven', 'scalar', 'varstimes', 'meshtimes') and t != 1:
        return False
    if cfg.get('nm') == 'self' and ck != '1d' or cfg.get('nm') == 'case' and ck != '1d':
        return False
    if cfg.get('load') in ('chunks', 'chunksnow', 'auto') and cfg.get('nm') in ('odd', 'swap') and cfg['load'] == 'auto':
        return False   # automatic chunking needs known names
    if cfg.get('load') in ('chunks', 'chunksnow', 'auto') and single(cfg.get('inds') or {}):
        return False
    if ck.startswith('obl') and single(cfg.get('inds') or {}):
        return False   # a single row of an oblique grid is no grid
    return True


ALLCK = ('1d', '2d', 'obl', '2d_t', '2d_tz', 'obl_t', 'obl_tz', '2d_far', 'obl_far', 'obl_far_t')
INDS = [{'lon': [1, 2, 3, 4]}, {'lat': [0, 1, 2]}, {'lat': [2, 3, 4], 'lon': [2, 3, 4, 5]}, {'depth': [0, 1]}, {'depth': [1, 2], 'lat': [1, 2, 3]},
        {'depth': [1]}, {'depth': [2], 'lon': [0, 1, 2]}, {'depth': [0]}, {'lon': range(1, 5), 'lat': range(1, 4)}, {'lon': [2]}, {'lat': [1], 'lon': [3]}, {'lat': [3], 'depth': [1]}]


def configs(tier):
    out = []
    q = tier == 'quick'

    def add(**kw):
        if ok(kw) and kw not in out:
            out.append(kw)
    # arrays
    for rank, how, ck, lat in itertools.product(RANKS, ('data', 'dataT', 'field', 'fieldT', 'grid', 'perdims'), ('1d', '2d', 'obl'), ('up', 'down')):
        if q and how in ('fieldT', 'perdims') and ck != '1d':
            continue
        add(how=how, rank=rank, ck=ck, lat=lat)
    for dt, form, rank, lat in itertools.product(('f4', 'f8', 'be', 'i4', 'f4fill', 'f8fill'), ('plain', 'lists', 'fortran', 'strided'), ('tzyx', 'tyx', 'zyx', 'yx'), ('up', 'down')):
        if q and rank in ('tyx', 'zyx') and dt != 'f8':
            continue
        add(how='data', rank=rank, ck='1d', lat=lat, dt=dt, form=form)
    # xarray
    for rank, how, ck, lat in itertools.product(RANKS, ('xarray', 'xarrayF', 'xarrayP'), ('1d', '2d', 'obl'), ('up', 'down')):
        if q and how == 'xarrayP' and rank != 'tzyx':
            continue
        add(how=how, rank=rank, ck=ck, lat=lat)
    for nm, dates, dt in itertools.product(NAMESETS, (False, 'standard', 'noleap', '360_day', 'timedelta'), ('f4', 'f8', 'be', 'f4fill')):
        if q and (dt in ('f8', 'be') and nm != 'plain' or dates in ('noleap', '360_day', 'timedelta') and (nm != 'plain' or dt != 'f4')):
            continue
        add(how='xarray', rank='tzyx', ck='1d', lat='down', nm=nm, dates=dates, dt=dt)
    # files
    loads = ('now', 'demand', 'auto', 'chunks', 'chunksnow')
    for rank, ck, lat, load in itertools.product(RANKS, ALLCK, ('up', 'down'), loads):
        if q and (ck.endswith(('_t', '_tz', '_far')) and load in ('auto', 'chunksnow') or load == 'chunksnow' and ck != '1d'):
            continue
        if q and RANKS[rank][0] != 1 and load in ('demand', 'chunksnow'):
            continue   # up to two times are always loaded at once
        add(how='nc', rank=rank, ck=ck, lat=lat, load=load)
    for inds, rank, load, lat, ck in itertools.product(INDS, ('tzyx', 'tyx', 'zyx', 'yx', '1zyx', 't1yx'), loads, ('up', 'down'), ('1d', '2d', 'obl')):
        if 'depth' in inds and RANKS[rank][1] != 1:
            continue
        if q and (load == 'chunksnow' or ck != '1d' and load != 'demand' or ck != '1d' and rank in ('1zyx', 't1yx', 'yx') or load == 'auto' and rank != 'tzyx'):
            continue
        if q and RANKS[rank][0] != 1 and load == 'demand' and ck == '1d':
            continue
        add(how='nc', rank=rank, ck=ck, lat=lat, load=load, inds=inds)
        if ck == '1d' and load == 'demand' and rank == 'tzyx':
            add(how='nc', rank=rank, ck=ck, lat=lat, load=load, inds=inds, perinds=True, perdims=True)
            add(how='ncfield', rank=rank, ck=ck, lat=lat, load=load, inds=inds)
    for split, rank, load, lat in itertools.product(('times', 'wildcard', 'uneven', 'scalar', 'vars', 'varstimes', 'mesh', 'meshall', 'meshtimes', 'meshvars'), RANKS, loads, ('up', 'down')):
        if q and (load == 'chunksnow' or rank in ('1yx', 'z1yx', '11yx') or lat == 'up' and split in ('wildcard', 'varstimes', 'meshvars') or load == 'auto' and rank != 'tzyx'):
            continue
        add(how='nc', rank=rank, ck='1d', lat=lat, load=load, split=split)
        if lat == 'up' and load == 'demand':
            add(how='nc', rank=rank, ck='obl', lat=lat, load=load, split=split, perdims=True)
            if not split.startswith(('var', 'mesh')):
                add(how='ncfield', rank=rank, ck='2d', lat=lat, load=load, split=split)
    for split, inds, load in itertools.product(('times', 'uneven', 'scalar', 'mesh', 'vars'), INDS, ('now', 'demand', 'chunks')):
        if q and load == 'chunks':
            continue
        add(how='nc', rank='tzyx', ck='1d', lat='down', load=load, split=split, inds=inds)
    for dt, rank, lat, load in itertools.product(('f8', 'be', 'i2', 'f4fill', 'i2fill', 'f8fill'), ('tzyx', 'tyx', 'yx'), ('up', 'down'), loads):
        if q and (load in ('auto', 'chunksnow') or rank != 'tzyx' and lat == 'up'):
            continue
        add(how='nc', rank=rank, ck='1d', lat=lat, load=load, dt=dt)
    for nm, rank, ck, load, dates in itertools.product(NAMESETS, ('tzyx', 'tyx', 'zyx'), ('1d', '2d', 'obl'), loads, (False, 'standard', 'noleap', 'julian')):
        if q and (load == 'chunksnow' or ck == '2d' or dates and rank != 'tzyx' or dates and load == 'chunks' or dates not in (False, 'standard') and nm != 'plain'):
            continue
        add(how='nc', rank=rank, ck=ck, lat='up', load=load, nm=nm, dates=dates)
    # written and read back
    srcs = [dict(how='data'), dict(how='xarray'), dict(how='xarray', dates='standard'), dict(how='nc', load='now'), dict(how='nc', load='now', dates='standard'), dict(how='xarray', dates='noleap'),
            dict(how='xarray', dates='360_day'), dict(how='xarray', dates='timedelta'), dict(how='data', dt='f8')]
    for src, rank, ck, lat, load in itertools.product(srcs, RANKS, ('1d', '2d', 'obl'), ('up', 'down'), ('now', 'demand', 'chunks')):
        if lat == 'down' and ck != '1d' and src['how'] != 'nc' or lat == 'down' and ck.startswith('obl'):
            continue
        if q and (load == 'chunks' and src != srcs[0] or ck == '2d' and src['how'] != 'nc' or (src.get('dt') or src.get('dates') in ('noleap', '360_day', 'timedelta')) and (ck != '1d' or rank not in ('tzyx', 'tyx', '1yx')) or rank in ('z1yx', '1yx') or load == 'now' and lat == 'up'):
            continue
        if src.get('dates') and not RANKS[rank][0]:
            continue
        out.append(dict(how='written', rank=rank, ck=ck, lat=lat, load=load, src=src))
    # a single longitude or latitude
    for one, rank, how, lat in itertools.product(('x', 'y', 'xy'), RANKS, ('data', 'dataT', 'field', 'grid', 'xarray', 'xarrayF', 'nc', 'written'), ('up', 'down')):
        kw = dict(how=how, rank=rank, ck='1d', lat=lat, one=one)
        if 'y' in one and lat == 'down' or q and (how in ('field', 'grid', 'xarrayF') and rank != 'tzyx' or lat == 'down' and how != 'nc'):
            continue
        if how in ('nc', 'written'):
            for load in ('now', 'demand'):
                add(load=load, **kw, **({'src': srcs[0]} if how == 'written' else {}))
        else:
            add(**kw)
    for inds, load in itertools.product(INDS, ('now', 'demand', 'chunks')):
        if load == 'chunks' and single(inds):
            continue
        out.append(dict(how='written', rank='tzyx', ck='1d', lat='up', load=load, src=srcs[0], inds=inds))
    return out


def single(inds):
    return any(len(inds.get(a, 'xx')) == 1 for a in ('lon', 'lat'))


def units(tier):
    cs = configs(tier)
    per = 12
    step = (len(cs) + per - 1) // per
    return [{'first': i, 'step': step} for i in range(step)]


def describe(cfg):
    return {k: (v if not isinstance(v, dict) else {a: (list(b) if isinstance(b, range) else b) for a, b in v.items()}) for k, v in cfg.items()}


def run(unit, ctx):
    warnings.filterwarnings('ignore')
    cs = configs(ctx.tier)
    for cfg in cs[unit['first']::unit['step']]:
        inds = full(cfg['rank'], cfg.get('one', ''))
        inds.update(cfg.get('inds') or {})
        if cfg['lat'] == 'down' and cfg['how'] != 'written' and 'y' not in cfg.get('one', ''):   # indices count in the order of the file
            inds['lat'] = [NY - 1 - i for i in inds['lat']]
        pts = points(cfg['rank'], inds)
        for mode in MODES:
            if not ctx.case(dict(describe(cfg), mode=mode)):
                continue
            sig = ' '.join('%s=%s' % (k, list(v) if isinstance(v, range) else v) for k, v in sorted(describe(cfg).items())) + ' ' + mode
            try:
                fs, ref = build(cfg, ctx.scratch)
            except Exception as e:
                ctx.violate(sig, 'field set could not be built: %s: %s' % (type(e).__name__, str(e)[:300]))
                break
            dates = cfg.get('dates') or cfg.get('src', {}).get('dates')
            if dates in ORIGIN and RANKS[cfg['rank']][0]:
                ctx.expect(str(fs.time_origin.time_origin)[:10] == ORIGIN[dates], sig, 'time origin %s instead of %s' % (fs.time_origin.time_origin, ORIGIN[dates]))
            try:
                got = measure(fs, mode, pts, cfg['ck'].startswith('obl'), '_far' in cfg['ck'])
            except Exception as e:
                ctx.violate(sig, 'sampling failed: %s: %s' % (type(e).__name__, str(e)[:300]))
                continue
            want = list(zip(*[reference(ref[v], pts) for v in NAMES]))
            [ctx.step() for _ in pts]; ctx.tick()
            bad = [(p, g, w) for p, g, w in zip(pts, got, want) if g is None or max(abs(a - b) for a, b in zip(g, w)) > 2e-4]
            ctx.outcome(cfg['how'] + '/' + cfg.get('load', ''))
            ctx.state(tuple(np.round(sum(want, ()), 3)[:40]))
            ctx.distinct((sig,))
            ctx.expect(not bad, sig, '%d of %d points differ, first (t, z, Y, X)=%s: got %s, data give %s' % ((len(bad), len(pts)) + bad[0] if bad else (0, 0, 0, 0, 0)))
