"""C16: units are converted exactly once, in both modes and every access form."""
import itertools
import math
import os

import numpy as np
import xarray as xr

from pk import MODES, ERRS, Field, FieldSet, ParticleSet, VectorField, func, pclass
from parcels import NestedField, SummedField
from parcels.tools import converters as cv

ID = 'C16'
LEVEL = 'model_checking'
RULE = ('every constructor x mesh x grid kind, per field set every access form (particle, coordinates, .eval with and without conversion, '
        'direct, inside expressions and tests, vector fields of two and three components, sums and nestings of fields with different '
        'units) of every field at every latitude x longitude in both modes; every converter x latitude there and back; non-trivial: '
        'a factor other than one; distinct by (constructor, mesh, kind, form, field, position)')
BOUNDS = '7 latitudes up to 89, 2 longitudes, 9 constructors, 6 grid kinds, fields constant in space'
ASSUMPTIONS = ['C-grid velocities on the sphere: within 1 per cent of the definition on cells of a degree or less (faces are straight)']

M = 1852. * 60.
VAL = {'U': 3., 'V': 5., 'W': 7., 'P': 11., 'Kh_zonal': 130., 'Kh_meridional': 170.}
LATS = (-89., -60., -33.3, 0., .7, 45., 80.)
LONS = (10.3, 21.7)


def factor(ft, mesh, lat):
    """Sampled value per unit of the data."""
    c = math.cos(lat * math.pi / 180)
    if mesh == 'flat':
        return 1.
    return {'U': 1 / (M * c), 'V': 1 / M, 'Kh_zonal': 1 / (M * c) ** 2, 'Kh_meridional': 1 / M ** 2}.get(ft, 1.)


KINDS = ('A', 'nearest', 'curv', 'b', 'c', 's')
CTORS = ('Field', 'fieldtype', 'data', 'xarray', 'netcdf', 'netcdf-fieldtype', 'constant', 'mixed', 'units')


def axes(kind):
    if kind in ('c',):
        lat = np.arange(-90., 90.1, 1.).astype(np.float32)
        lat[0], lat[-1] = -89.9, 89.9
        lon = np.arange(8., 25., 1.).astype(np.float32)
    else:
        lat, lon = np.linspace(-89.9, 89.9, 9).astype(np.float32), np.linspace(0, 40, 5).astype(np.float32)
    return lon, lat


def method(kind, n):
    if kind == 'nearest':
        return 'nearest'
    if kind == 'b':
        return {'U': 'bgrid_velocity', 'V': 'bgrid_velocity', 'W': 'bgrid_w_velocity'}.get(n, 'bgrid_tracer')
    if kind == 'c':
        return 'cgrid_velocity' if n in 'UVW' else 'cgrid_tracer'
    return 'linear'


def world(ctor, mesh, kind, scratch):
    """-> field set, {attribute name: (fieldtype, mesh, value)}"""
    lon, lat = axes(kind)
    dep = np.array([0., 10., 20.], dtype=np.float32)
    shape = (3, len(lat), len(lon))
    if kind in ('curv', 'c'):
        lon, lat = [a.astype(np.float32) for a in np.meshgrid(lon, lat)]
    depth = dep
    if kind == 's':
        depth = np.tile(dep[:, None, None], (1,) + shape[1:]).astype(np.float32)
    data = {n: np.full(shape, v, dtype=np.float32) for n, v in VAL.items()}
    if kind == 'b':
        data['U'], data['V'] = data['U'].copy(), data['V'].copy()
    what = {n: (n, mesh, v) for n, v in VAL.items()}
    names = list(VAL)
    if ctor == 'Field' or ctor == 'mixed' or ctor == 'units':
        F = {}
        for n in names:
            m = mesh
            if ctor == 'mixed' and n in ('V', 'Kh_zonal', 'P'):
                m = 'flat' if mesh == 'spherical' else 'spherical'
            F[n] = Field(n, data[n], lon=lon, lat=lat, depth=depth, mesh=m, interp_method=method(kind, n))
            what[n] = (n, m, VAL[n])
        if ctor == 'units':
            F['P'].units = cv.GeographicPolar()
            F['U'].units = cv.UnitConverter()
            F['V'].units = cv.GeographicPolarSquare()
            F['Kh_zonal'].units = cv.Geographic()
            F['W'].units = cv.GeographicSquare()
            what.update({'P': ('U', 'spherical', 11.), 'U': ('P', 'flat', 3.), 'V': ('Kh_zonal', 'spherical', 5.), 'Kh_zonal': ('V', 'spherical', 130.), 'W': ('Kh_meridional', 'spherical', 7.)})
        fs = FieldSet(F['U'], F['V'], fields={n: F[n] for n in names if n not in 'UV'})
    elif ctor == 'constant':
        F = [Field(n, data[n], lon=lon, lat=lat, depth=depth, mesh=mesh, interp_method=method(kind, n)) for n in 'UV']
        fs = FieldSet(*F)
        for n in names[2:]:
            fs.add_constant_field(n, VAL[n], mesh=mesh)
    elif ctor == 'fieldtype':
        ren = {'U': 'uo', 'V': 'vo', 'W': 'U2', 'P': 'Kh_zonalx', 'Kh_zonal': 'kx', 'Kh_meridional': 'U3'}
        F = {n: Field(ren[n], data[n], lon=lon, lat=lat, depth=depth, mesh=mesh, fieldtype=n, interp_method=method(kind, n)) for n in names}
        # swapped on purpose: what counts is the field type
        fs = FieldSet(Field('U', data['V'], lon=lon, lat=lat, depth=depth, mesh=mesh, fieldtype='V', interp_method=method(kind, 'V')),
                      Field('V', data['U'], lon=lon, lat=lat, depth=depth, mesh=mesh, fieldtype='U', interp_method=method(kind, 'U')), fields={ren[n]: F[n] for n in names if n not in 'UV'})
        what = {ren[n]: w for n, w in what.items() if n not in 'UV'}
        what.update({'U': ('V', mesh, 5.), 'V': ('U', mesh, 3.)})
    elif ctor == 'data':
        dims = {'lon': lon, 'lat': lat, 'depth': depth}
        fs = FieldSet.from_data(data, dims, mesh=mesh, interp_method={n: method(kind, n) for n in names})
    else:
        hd = ('y', 'x')
        co = {'lon': (hd, lon) if lon.ndim == 2 else ('x', lon), 'lat': (hd, lat) if lat.ndim == 2 else ('y', lat), 'depth': (('z',) + hd, depth) if depth.ndim == 3 else ('z', depth)}
        ds = xr.Dataset({'d' + n: (('z',) + hd, data[n]) for n in names}, coords=co)
        dims = {'lon': 'lon', 'lat': 'lat', 'depth': 'depth'}
        if ctor == 'xarray':
            fs = FieldSet.from_xarray_dataset(ds, {n: 'd' + n for n in names}, dims, mesh=mesh, interp_method={n: method(kind, n) for n in names})
        else:
            p = os.path.join(scratch, 'w.nc')
            ds.to_netcdf(p)
            if ctor == 'netcdf':
                fs = FieldSet.from_netcdf(p, {n: 'd' + n for n in names}, dims, mesh=mesh, interp_method={n: method(kind, n) for n in names}, timestamps=None)
            else:
                ren = {'Kh_zonal': 'kx', 'P': 'Ptracer', 'Kh_meridional': 'ky', 'W': 'W', 'V': 'V', 'U': 'U'}
                ft = {'kx': 'Kh_zonal', 'ky': 'Kh_meridional', 'U': 'U', 'V': 'V'}
                fs = FieldSet.from_netcdf(p, {ren[n]: 'd' + n for n in names}, dims, mesh=mesh, fieldtype=ft, interp_method={ren[n]: method(kind, n) for n in names})
                what = {ren[n]: w for n, w in what.items()}
    return fs, what


def units(tier):
    u = [{'what': 'access', 'ctor': c, 'mesh': m, 'kind': k} for c in CTORS for m in ('spherical', 'flat') for k in KINDS
         if not (k in ('c', 'b') and c in ('units', 'mixed', 'fieldtype')) and not (k == 'c' and c == 'constant') and not (k == 's' and c in ('netcdf', 'xarray', 'netcdf-fieldtype', 'data'))]
    u += [{'what': 'combined', 'mesh': m, 'op': op} for m in ('spherical', 'flat') for op in ('sum', 'nest')]
    u += [{'what': 'vectors', 'mesh': m, 'op': op, 'first': k} for m in ('spherical', 'flat') for op in ('sum', 'nest') for k in VKINDS]
    return u + [{'what': 'converters'}]


def run(unit, ctx):
    globals()['run_' + unit['what']](unit, ctx)


def close(a, b, tol):
    if isinstance(a, str) or isinstance(b, str) or a is None:
        return a == b
    return len(a) == len(b) and all(abs(x - y) <= tol * abs(y) + 1e-14 for x, y in zip(a, b))


def execute(mode, fs, forms, pts, extra=''):
    """forms: list of statement lists setting oA, oB, oC -> {(form, point): values or error}"""
    src = 'def K(particle, fieldset, time):\n'
    for i, f in enumerate(forms):
        src += '    if particle.sel == %d:\n' % i + ''.join('        %s\n' % ln for ln in f)
    src += '    particle.done = 1\n'
    vs = [('k', np.int32, 0), ('sel', np.int32, 0), ('done', np.int32, 0)] + [(o, np.float64, 0.) for o in ('oA', 'oB', 'oC')]
    P = pclass(mode, vs, name='VP16' + mode)
    al = list(itertools.product(range(len(forms)), range(len(pts))))
    res = [None] * len(al)

    def handler(name):
        def f(particle, fieldset, time):
            res[int(particle.k)] = name
            particle.delete()
        return f
    ps = ParticleSet(fs, pclass=P, lon=[pts[j][1] for i, j in al], lat=[pts[j][0] for i, j in al], depth=[4.] * len(al), time=[0.] * len(al), lonlatdepth_dtype=np.float64,
                     k=list(range(len(al))), sel=[i for i, j in al])
    ps.execute(func(src, 'K'), runtime=1., dt=1., recovery={c: handler(n) for n, c in ERRS.items()})
    for p in ps:
        res[int(p.k)] = (float(p.oA), float(p.oB), float(p.oC))
    return dict(zip(al, res))


XY = 'time, particle.depth, particle.lat, particle.lon'
LL = 'time, particle.depth, -particle.lat + 0.5, particle.lon'
PTS = [(y, x) for y in LATS for x in LONS]


def run_access(unit, ctx):
    mesh, kind = unit['mesh'], unit['kind']
    if not ctx.case(dict(unit, step='build')):
        return
    try:
        fs, what = world(unit['ctor'], mesh, kind, ctx.scratch)
    except Exception as e:
        ctx.violate('%s: building the fields' % unit, 'raised %r' % e)
        return
    tol = 1e-2 if kind == 'c' and mesh == 'spherical' else 2e-5
    forms = []      # label, statements, expected(lat) -> tuple of 3
    dirs = []       # label, function(y, x) -> value(s), expected(lat)
    for n in what:
        ft, m, v = what[n]

        def one(y, ft=ft, m=m, v=v, k=1.):
            return (k * v * factor(ft, m, y), 0., 0.)
        F = 'fieldset.%s' % n
        scalar = kind != 'c' or n not in 'UV'
        if scalar:
            forms += [('%s[particle]' % n, ['particle.oA = %s[particle]' % F], one),
                      ('%s[...]' % n, ['particle.oA = %s[%s]' % (F, XY)], one),
                      ('%s[other latitude]' % n, ['particle.oA = %s[%s]' % (F, LL)], lambda y, one=one: one(-y + .5)),
                      ('%s.eval' % n, ['particle.oA = %s.eval(%s)' % (F, XY)], one),
                      ('%s.eval True' % n, ['particle.oA = %s.eval(%s, applyConversion=True)' % (F, XY)], one),
                      ('%s.eval False' % n, ['particle.oA = %s.eval(%s, applyConversion=False)' % (F, XY)], lambda y, v=v: (v, 0., 0.)),
                      ('%s in expression' % n, ['particle.oA = 2. * %s[%s] + %s[particle] * 3.' % (F, XY, F)], lambda y, one=one: one(y, k=5.)),
                      ('%s in test' % n, ['if %s[particle] > %r:' % (F, .999 * v * factor(ft, m, 0.)), '    particle.oA = %s[%s]' % (F, XY), 'else:', '    particle.oB = -1.'], one),
                      ('%s twice' % n, ['a = %s[particle]' % F, 'b = %s.eval(%s, applyConversion=False)' % (F, XY), 'particle.oA = a', 'particle.oB = b', 'particle.oC = %s[%s]' % (F, LL)],
                       lambda y, one=one, v=v: (one(y)[0], v, one(-y + .5)[0]))]
            fo = getattr(fs, n)
            dirs += [('%s direct' % n, lambda y, x, fo=fo: fo[0., 4., y, x], one), ('%s eval direct' % n, lambda y, x, fo=fo: fo.eval(0., 4., y, x), one),
                     ('%s eval raw' % n, lambda y, x, fo=fo: fo.eval(0., 4., y, x, applyConversion=False), lambda y, v=v: (v, 0., 0.))]

    def two(y):
        return tuple(what[n][2] * factor(what[n][0], what[n][1], y) for n in 'UV') + (0.,)

    def three(y):
        return two(y)[:2] + (what['W'][2] * factor(what['W'][0], what['W'][1], y),)
    forms += [('UV[particle]', ['(particle.oA, particle.oB) = fieldset.UV[particle]'], two), ('UV[...]', ['(particle.oA, particle.oB) = fieldset.UV[%s]' % XY], two),
              ('UV[other latitude]', ['(a, b) = fieldset.UV[%s]' % LL, 'particle.oA = a', 'particle.oB = b'], lambda y: two(-y + .5)),
              ('UV twice', ['(a, b) = fieldset.UV[particle]', '(c, d) = fieldset.UV[%s]' % LL, 'particle.oA = a + c', 'particle.oB = b + d'],
               lambda y: tuple(p + q for p, q in zip(two(y), two(-y + .5))))]
    dirs += [('UV direct', lambda y, x: fs.UV[0., 4., y, x], two), ('UV eval direct', lambda y, x: fs.UV.eval(0., 4., y, x), two)]
    if 'W' in what:
        forms += [('UVW[particle]', ['(particle.oA, particle.oB, particle.oC) = fieldset.UVW[particle]'], three),
                  ('UVW[...]', ['(particle.oA, particle.oB, particle.oC) = fieldset.UVW[%s]' % XY], three)]
        dirs += [('UVW direct', lambda y, x: fs.UVW[0., 4., y, x], three)]
    pts = [p for p in PTS if kind != 'c' or abs(p[0]) < 85]
    # latitudes of the other-latitude forms stay inside the grid
    for mode in MODES:
        if not ctx.case(dict(unit, step='kernel', mode=mode)):
            continue
        try:
            got = execute(mode, fs, [f[1] for f in forms], pts)
        except Exception as e:
            ctx.violate('%s %s: sampling' % (unit, mode), 'raised %r' % e)
            continue
        for i, (label, st, exp) in enumerate(forms):
            for j, (y, x) in enumerate(pts):
                w = exp(y)
                ctx.evaluations += 1
                ctx.step()
                ctx.distinct((tuple(unit.items()), label, y, x))
                ctx.expect(close(got[i, j], w, tol), '%s %s %s at latitude %s' % (unit, mode, label, y), lambda: 'expected %s, got %s' % (w, got[i, j]))
                ctx.outcome('converted' if w[0] < .1 else 'plain')
        ctx.trace(len(forms))
    if ctx.case(dict(unit, step='direct')):
        for label, f, exp in dirs:
            for y, x in pts:
                w = exp(y)
                try:
                    g = f(y, x)
                    g = tuple(float(q) for q in g) if isinstance(g, tuple) else (float(g),)
                except Exception as e:
                    g = repr(e)
                ctx.step()
                ctx.state((label, unit['ctor'], y))
                ctx.expect(close(g, w[:len(g)] if not isinstance(g, str) else w, tol), '%s %s at latitude %s' % (unit, label, y), lambda: 'expected %s, got %s' % (w, g))
    ctx.sample(dict(unit, forms=[f[0] for f in forms][:12]))


def run_combined(unit, ctx):
    """Sums and nestings of members with different units."""
    mesh, op = unit['mesh'], unit['op']
    other = 'flat' if mesh == 'spherical' else 'spherical'
    full = dict(lon=np.linspace(0, 40, 5).astype(np.float32), lat=np.linspace(-89.9, 89.9, 9).astype(np.float32))
    north = dict(lon=full['lon'], lat=np.linspace(.5, 89.9, 5).astype(np.float32))

    def fld(n, ft, v, m, dom):
        return Field(n, np.full((len(dom['lat']), len(dom['lon'])), v, dtype=np.float32), mesh=m, fieldtype=ft, **dom)
    pool = [('U', mesh), ('U', other), ('V', mesh), ('Kh_zonal', mesh), ('P', mesh), ('Kh_meridional', mesh)]
    pts = PTS
    for (a, b) in itertools.product(pool, repeat=2):
        if not ctx.case(dict(unit, members=(a, b))):
            continue
        da = north if op == 'nest' else full
        va, vb = 3., 50.
        S = (SummedField if op == 'sum' else NestedField)('S', [fld('A', a[0], va, a[1], da), fld('B', b[0], vb, b[1], full)])
        # vectors whose second components have the types the other way round
        U = (SummedField if op == 'sum' else NestedField)('U', [fld('U1', a[0], va, a[1], da), fld('U2', b[0], vb, b[1], full)])
        Vv = (SummedField if op == 'sum' else NestedField)('V', [fld('V1', b[0], va, b[1], da), fld('V2', a[0], vb, a[1], full)])
        fs = FieldSet(U, Vv)
        fs.add_field(S)
        fs.add_field(fld('Q', a[0], va, a[1], full))
        fs.add_field(fld('R', b[0], vb, b[1], full))

        def exp(y, vector=False):
            fa, fb = va * factor(a[0], a[1], y), vb * factor(b[0], b[1], y)
            ga, gb = va * factor(b[0], b[1], y), vb * factor(a[0], a[1], y)
            if op == 'sum':
                return (fa + fb, ga + gb) if vector else (fa + fb,)
            inside = y >= .5
            return ((fa, ga) if inside else (fb, gb)) if vector else ((fa,) if inside else (fb,))
        forms = [('S[particle]', ['particle.oA = fieldset.S[particle]'], lambda y: exp(y) + (0., 0.)), ('S[...]', ['particle.oA = fieldset.S[%s]' % XY], lambda y: exp(y) + (0., 0.)),
                 ('S in expression', ['particle.oA = 2. * fieldset.S[%s] - fieldset.S[particle]' % XY], lambda y: exp(y) + (0., 0.)),
                 ('S other latitude', ['particle.oA = fieldset.S[%s]' % LL], lambda y: exp(-y + .5) + (0., 0.)),
                 ('Q+R', ['particle.oA = fieldset.Q[particle] + fieldset.R[%s]' % XY], lambda y: (va * factor(a[0], a[1], y) + vb * factor(b[0], b[1], y), 0., 0.)),
                 ('UV[particle]', ['(particle.oA, particle.oB) = fieldset.UV[particle]'], lambda y: exp(y, True) + (0.,)),
                 ('UV[...]', ['(particle.oA, particle.oB) = fieldset.UV[%s]' % XY], lambda y: exp(y, True) + (0.,)),
                 ('UV other latitude', ['(particle.oA, particle.oB) = fieldset.UV[%s]' % LL], lambda y: exp(-y + .5, True) + (0.,))]
        for mode in MODES:
            try:
                got = execute(mode, fs, [f[1] for f in forms], pts)
            except Exception as e:
                ctx.violate('%s %s %s %s' % (unit, mode, a, b), 'raised %r' % e)
                continue
            for i, (label, st, ex) in enumerate(forms):
                for j, (y, x) in enumerate(pts):
                    w = ex(y)
                    if op == 'nest' and 'other' in label and abs(-y + .5 - .5) < 1e-6:
                        continue        # on the edge of the first member
                    ctx.evaluations += 1
                    ctx.step()
                    ctx.distinct((op, mesh, a, b, label, y, x))
                    ctx.expect(close(got[i, j], w, 2e-5), '%s %s %s %s %s at latitude %s' % (unit, mode, a, b, label, y), lambda: 'expected %s, got %s' % (w, got[i, j]))
            ctx.trace(len(forms))
        for y, x in pts:
            for label, f, w in (('S direct', lambda: fs.S[0., 0., y, x], exp(y)), ('UV direct', lambda: fs.UV[0., 0., y, x], exp(y, True))):
                try:
                    g = f()
                    g = tuple(float(q) for q in g) if isinstance(g, tuple) else (float(g),)
                except Exception as e:
                    g = repr(e)
                ctx.step()
                ctx.expect(close(g, w, 2e-5), '%s %s %s %s at latitude %s' % (unit, label, a, b, y), lambda: 'expected %s, got %s' % (w, g))
        ctx.outcome(op)
    ctx.sample(dict(unit, pool=pool))


VKINDS = ('A', 'b', 'c', 'curv')


def run_vectors(unit, ctx):
    """Sums and nestings of velocities whose members lie on grids of different kinds."""
    mesh, op = unit['mesh'], unit['op']
    val = {'U': (3., 50.), 'V': (5., 70.), 'W': (7., 90.)}

    def member(kind, n, k, dom):
        lon, lat = axes(kind)
        if dom == 'north':
            lat = np.linspace(.5, 89.9, 91 if kind == 'c' else 7).astype(np.float32)
        shape = (3, len(lat), len(lon))
        if kind in ('curv', 'c'):
            lon, lat = [a.astype(np.float32) for a in np.meshgrid(lon, lat)]
        return Field(n, np.full(shape, val[n][k], dtype=np.float32), lon=lon, lat=lat, depth=np.array([0., 10., 20.], dtype=np.float32), mesh=mesh, fieldtype=n, interp_method=method(kind, n))
    for second, three in itertools.product(VKINDS, (False, True)):
        kinds = (unit['first'], second)
        if not ctx.case(dict(unit, second=second, three=three)):
            continue
        C = SummedField if op == 'sum' else NestedField
        names = 'UVW' if three else 'UV'
        try:
            F = {n: C(n, [member(k, n, i, 'north' if op == 'nest' and i == 0 else 'full') for i, k in enumerate(kinds)]) for n in names}
            fs = FieldSet(F['U'], F['V'], fields={n: F[n] for n in names[2:]})
        except Exception as e:
            ctx.violate('%s and %s: building' % (unit, second), 'raised %r' % e)
            continue

        def exp(y):
            w = [[val[n][i] * factor(n, mesh, y) for n in 'UVW'[:2 + three]] for i in range(2)]
            return (tuple(p + q for p, q in zip(*w)) if op == 'sum' else tuple(w[0] if y >= .5 else w[1])) + (0.,) * (not three)
        vec = 'fieldset.UVW' if three else 'fieldset.UV'
        tgt = '(particle.oA, particle.oB, particle.oC)' if three else '(particle.oA, particle.oB)'
        var = '(a, b, c)' if three else '(a, b)'
        var2 = '(d, e, f)' if three else '(d, e)'
        forms = [('particle', ['%s = %s[particle]' % (tgt, vec)], exp), ('...', ['%s = %s[%s]' % (tgt, vec, XY)], exp),
                 ('other latitude', ['%s = %s[%s]' % (tgt, vec, LL)], lambda y: exp(-y + .5)),
                 ('twice', ['%s = %s[particle]' % (var, vec), '%s = %s[%s]' % (var2, vec, LL), 'particle.oA = a + d', 'particle.oB = b + e'], lambda y: tuple(p + q for p, q in zip(exp(y)[:2], exp(-y + .5)[:2])) + (0.,))]
        if three:
            forms.append(('UV besides UVW', ['(particle.oA, particle.oB) = fieldset.UV[%s]' % XY], lambda y: exp(y)[:2] + (0.,)))
        tol = 1e-2 if 'c' in kinds and mesh == 'spherical' else 2e-5
        pts = [p for p in PTS if ('c' not in kinds or abs(p[0]) < 85) and p[0] != 0.]
        for mode in MODES:
            try:
                got = execute(mode, fs, [f[1] for f in forms], pts)
            except Exception as e:
                ctx.violate('%s %s %s' % (unit, second, mode), 'raised %r' % e)
                continue
            for i, (label, st, ex) in enumerate(forms):
                for j, (y, x) in enumerate(pts):
                    w = ex(y)
                    ctx.evaluations += 1
                    ctx.step()
                    ctx.distinct((op, mesh, kinds, label, y, x))
                    ctx.expect(close(got[i, j], w, tol), '%s %s %s %s %s at latitude %s' % (unit, mode, second, three, label, y), lambda: 'expected %s, got %s' % (w, got[i, j]))
            ctx.trace(len(forms))
        for y, x in pts:
            try:
                g = tuple(float(q) for q in (fs.UVW if three else fs.UV)[0., 4., y, x])
            except Exception as e:
                g = repr(e)
            ctx.step()
            ctx.expect(close(g, exp(y)[:len(g)], tol), '%s %s %s direct at latitude %s' % (unit, second, three, y), lambda: 'expected %s, got %s' % (exp(y), g))
        ctx.outcome('%s of velocities' % op)
    ctx.sample(dict(unit, kinds=VKINDS))


def run_converters(unit, ctx):
    """Every converter there and back, in Python and in the C expressions."""
    ft = {'UnitConverter': None, 'Geographic': 'V', 'GeographicPolar': 'U', 'GeographicSquare': 'Kh_meridional', 'GeographicPolarSquare': 'Kh_zonal'}
    env = {'cos': math.cos, 'pow': pow, 'M_PI': math.pi}
    for name, t in ft.items():
        c = getattr(cv, name)()
        for y in LATS + (-12.25, 66., 89.5):
            if not ctx.case(dict(unit, converter=name, lat=y)):
                continue
            for v in (1., -3.5, 1e-9, 4e7):
                w = v * factor(t, 'spherical', y)
                to, back = c.to_target(v, 5., y, 1.), c.to_source(v * factor(t, 'spherical', y), 5., y, 1.)
                cto = v * eval(c.ccode_to_target('(5.0)', '(%r)' % y, '(1.)'), env)
                cback = w * eval(c.ccode_to_source('(5.0)', '(%r)' % y, '(1.)'), env)
                for label, g, x in (('to_target', to, w), ('to_source', back, v), ('C to_target', cto, w), ('C to_source', cback, v), ('round trip', c.to_source(c.to_target(v, 5., y, 1.), 5., y, 1.), v)):
                    ctx.step()
                    ctx.state((name, y))
                    if t:
                        ctx.distinct((name, y, v, label))
                    ctx.expect(abs(g - x) <= 1e-12 * abs(x), '%s %s of %s at latitude %s' % (name, label, v, y), lambda: 'expected %r, got %r' % (x, g))
        ctx.outcome('converter')
