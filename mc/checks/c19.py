"""C19: times outside the data are repeated, held or rejected as configured."""
import itertools
import math
import os
from datetime import timedelta

import numpy as np
import xarray as xr

from pk import MODES, ERRS, Field, FieldSet, ParticleSet, func, pclass
from parcels.grid import Grid
from parcels.tools.converters import TimeConverter
from parcels.tools.statuscodes import TimeExtrapolationError

ID = 'C19'
LEVEL = 'model_checking'
RULE = ('every time axis x constructor x grid kind x mode; per field set every ordered pair of (time treatment, time) of a lattice of '
        'times inside, at and far outside the range is sampled one after the other in one kernel call; single samples by every '
        'direct access form; every run (start, direction, step) across the ends of the range for every treatment; non-trivial: at '
        'least one of the times is outside the range; distinct by (axis, constructor, grid kind, pair)')
BOUNDS = '5 time axes of 1-4 slices, 5 treatments, 6 constructors, 4 grid kinds, up to 18 times, up to 1000 periods away'
ASSUMPTIONS = ['data of fields whose period is the length of the data are the same at both ends, as documented',
               'one treatment for all members of a C-grid vector field']

AXES = {'reg': [0., 1., 2., 3.], 'irr': [0., 1., 4.], 'late': [10., 10.5, 12.], 'two': [-4., 4.], 'one': [2.]}
V = {4: [1., 4., -2., 7.], 3: [2., 5., -1.], 2: [3., -2.], 1: [6.]}
TREAT = ('strict', 'hold', 'period', 'period+', 'default')
CTORS = ('Field', 'data', 'xarray', 'netcdf', 'shared', 'timedelta')
KINDS = ('A', 'curv', 's4d', 'c', 'c3', 'b')


def values(axis, treat):
    v = list(V[len(AXES[axis])])
    if treat == 'period':
        v[-1] = v[0]
    return v


def period(axis, treat):
    t = AXES[axis]
    return (t[-1] - t[0]) + (0. if treat == 'period' else 1.5)


def expected(axis, treat, t, shift=0.):
    """Value of the slices at time t (relative to `shift`), or 'time'."""
    ax = [a - shift for a in AXES[axis]]
    v = values(axis, treat)
    if treat in ('period', 'period+'):
        T = period(axis, treat)
        if treat == 'period+':
            ax, v = ax + [ax[0] + T], v + [v[0]]
        t = t - math.floor((t - ax[0]) / T) * T
    if t < ax[0] or t > ax[-1]:
        if treat in ('strict', 'default'):
            return 'time'
        t = min(max(t, ax[0]), ax[-1])
    for i in range(len(ax) - 1):
        if ax[i] <= t <= ax[i + 1]:
            f = (t - ax[i]) / (ax[i + 1] - ax[i])
            return v[i] * (1 - f) + v[i + 1] * f
    return v[0]


def lattice(axis, tier, shift=0.):
    ax = [a - shift for a in AXES[axis]]
    a, b = ax[0], ax[-1]
    T = (b - a) or 1.
    out = set(ax) | {a - 1e-3, b + 1e-3, a + .25 * T, b - .375 * T, a - .3 * T, b + .3 * T, a - 1., b + 1.5, a - T, b + T, a - 2.5 * T - .1, b + 3 * T + .7}
    if tier == 'thorough':
        out |= {(x + y) / 2 for x, y in zip(ax, ax[1:])} | {a - 1000.25 * T, b + 1000.25 * (T + 1.5), a - T - 1.5, b + 2 * T + 3., a - 1e-9, b + 1e-9}
    else:
        out |= {b + 1000.25 * (T + 1.5)}
    return sorted(round(x, 9) for x in out)


LON = np.array([0., 1., 2., 3.], dtype=np.float32)
LAT = np.array([0., 1., 2.], dtype=np.float32)
DEP = np.array([0., 1., 2.], dtype=np.float32)
METHOD = {'A': 'linear', 'curv': 'linear', 's4d': 'linear', 'c': 'cgrid_velocity', 'c3': 'cgrid_velocity', 'b': 'bgrid_velocity'}


def treatments(axis, kind, ctor):
    out = [t for t in TREAT if not (t == 'period' and axis == 'one')]
    if ctor == 'xarray' and axis == 'one':
        out.remove('default')
    if axis == 'one' and ctor in ('Field', 'shared', 'timedelta'):
        out.remove('default')          # a single slice is held by default there
    return out


def kwargs(axis, treat, td=False):
    if treat == 'strict':
        return {'allow_time_extrapolation': False}
    if treat == 'hold':
        return {'allow_time_extrapolation': True}
    if treat == 'default':
        return {}
    T = period(axis, treat)
    return {'time_periodic': timedelta(seconds=T) if td else T}


def world(axis, ctor, kind, scratch):
    """A field set with one field P<treatment> (vector UV<treatment> on C- and B-grids) per treatment -> fs, shift"""
    ax = np.array(AXES[axis])
    three = kind in ('s4d', 'c3', 'b')
    z = DEP if three else np.zeros(1, dtype=np.float32)
    shape = (len(ax), len(z), 3, 4)
    lon, lat, depth = LON, LAT, z
    if kind in ('curv', 'c', 'c3'):
        lon, lat = np.meshgrid(LON, LAT)
        lon, lat = lon.astype(np.float32), (lat + .1 * lon * (kind == 'curv')).astype(np.float32)
    if kind == 's4d':
        depth = np.tile(DEP[None, :, None, None], (len(ax), 1, 3, 4)).astype(np.float32)
        for i in range(len(ax)):
            depth[i] *= 1 + .125 * i
    shift = AXES[axis][0] if ctor in ('xarray', 'netcdf') else 0.
    org = TimeConverter(np.datetime64('2001-01-31T00:00:00') + np.timedelta64(int(AXES[axis][0] * 1000), 'ms')) if ctor in ('xarray', 'netcdf') else None
    big = dict(time=np.zeros(1), time_origin=org, lon=np.array([-100., 100.], dtype=np.float32), lat=np.array([-100., 100.], dtype=np.float32), mesh='flat', allow_time_extrapolation=True)
    zero = np.zeros((2, 2), dtype=np.float32)
    fs = FieldSet(Field('U', zero, **big), Field('V', zero.copy(), **big))
    shared = Grid.create_grid(lon, lat, depth, ax.copy(), time_origin=fs.U.grid.time_origin, mesh='flat') if ctor == 'shared' else None
    vec = kind in ('c', 'c3', 'b')
    for tr in treatments(axis, kind, ctor):
        kw = kwargs(axis, tr, ctor == 'timedelta')
        for comp, f in ((('X', 1.), ('Y', 2.)) if vec else (('P', 1.),)):
            nm = comp + tr.replace('+', 'p')
            d = np.zeros(shape, dtype=np.float32)
            d[:] = f * np.array(values(axis, tr), dtype=np.float32)[:, None, None, None]
            kw1 = dict(kw, interp_method=METHOD[kind])
            if vec:
                kw1['fieldtype'] = {'X': 'U', 'Y': 'V'}[comp]
            if ctor == 'shared':
                fld = Field(nm, d if three else d[:, 0], grid=shared, **kw1)
            elif ctor in ('Field', 'timedelta'):
                fld = Field(nm, d if three else d[:, 0], lon=lon, lat=lat, depth=depth, time=ax.copy(), mesh='flat', **kw1)
            elif ctor == 'data':
                fld = getattr(FieldSet.from_data({nm: d if three else d[:, 0]}, dict({'lon': lon, 'lat': lat, 'time': ax.copy()}, **({'depth': depth} if three else {})), mesh='flat', **kw1), nm)
            else:
                tt = np.datetime64('2001-01-31T00:00:00') + (ax * 1000).astype(int) * np.timedelta64(1, 'ms')
                dd = ('time', 'depth', 'y', 'x') if three else ('time', 'y', 'x')
                co = {'time': tt, 'lon': (('y', 'x'), lon) if lon.ndim == 2 else ('x', lon), 'lat': (('y', 'x'), lat) if lat.ndim == 2 else ('y', lat)}
                dim = {'lon': 'lon', 'lat': 'lat', 'time': 'time'}
                if three:
                    co['depth'] = ('depth', depth)
                    dim['depth'] = 'depth'
                ds = xr.Dataset({'data': (dd, d if three else d[:, 0])}, coords=co)
                if ctor == 'xarray':
                    fld = getattr(FieldSet.from_xarray_dataset(ds, {nm: 'data'}, dim, mesh='flat', **kw1), nm)
                else:
                    p = os.path.join(scratch, 'f%s%s.nc' % (nm, id(ds)))
                    ds.to_netcdf(p, encoding={'time': {'units': 'milliseconds since 2001-01-01'}})
                    ft = kw1.pop('fieldtype', None)
                    fld = getattr(FieldSet.from_netcdf(p, {nm: 'data'}, dim, mesh='flat', deferred_load=False, **(dict(kw1, fieldtype={nm: ft}) if ft else kw1)), nm)
            fs.add_field(fld)
        if vec:
            from parcels import VectorField
            fs.add_vector_field(VectorField('UV' + tr.replace('+', 'p'), getattr(fs, 'X' + tr.replace('+', 'p')), getattr(fs, 'Y' + tr.replace('+', 'p'))))
    return fs, shift


def units(tier):
    u = []
    for kind in KINDS:
        for ctor in CTORS:
            if kind == 's4d' and ctor in ('xarray', 'netcdf'):
                continue
            for ax in AXES:
                if tier == 'quick' and kind not in ('A', 's4d') and (ctor not in ('Field', 'netcdf') or ax in ('two', 'irr')):
                    continue
                if tier == 'quick' and kind == 's4d' and ctor not in ('Field', 'shared'):
                    continue
                u.append({'what': 'pairs', 'kind': kind, 'ctor': ctor, 'axis': ax})
    for m in MODES:
        for ax in AXES:
            u.append({'what': 'runs', 'mode': m, 'axis': ax})
    u.append({'what': 'defaults'})
    return u


def run(unit, ctx):
    globals()['run_' + unit['what']](unit, ctx)


def close(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return len(a) == len(b) and all(abs(x - y) <= 1e-3 for x, y in zip(a, b))


def pos(kind):
    return {'A': (1.25, .75, 0.), 'curv': (1.25, .75, 0.), 's4d': (1.25, .75, .75), 'c': (1.25, .75, 0.), 'c3': (1.25, .75, .5), 'b': (1.25, .75, .5)}[kind]


def run_pairs(unit, ctx):
    ax, kind, ctor = unit['axis'], unit['kind'], unit['ctor']
    vec = kind in ('c', 'c3', 'b')
    trs = treatments(ax, kind, ctor)
    if not ctx.case(dict(unit, step='build')):
        return
    try:
        fs, shift = world(ax, ctor, kind, ctx.scratch)
    except Exception as e:
        ctx.violate('%s: building the fields' % unit, 'raised %r' % e)
        return
    ts = lattice(ax, ctx.tier, shift)
    x, y, z = pos(kind)
    want = {(tr, t): expected(ax, tr, t, shift) for tr in trs for t in ts}
    want = {k: v if isinstance(v, str) else ((v, 2 * v) if vec else (v,)) for k, v in want.items()}
    rng = (AXES[ax][0] - shift, AXES[ax][-1] - shift)

    def outside(t):
        return t < rng[0] or t > rng[1]
    # ---- direct access
    for tr in trs:
        f = getattr(fs, ('UV' if vec else 'P') + tr.replace('+', 'p'))
        for t in ts:
            if not ctx.case(dict(unit, step='direct', treat=tr, t=t)):
                continue
            for form in ('eval', 'item'):
                try:
                    g = f.eval(t, z, y, x) if form == 'eval' else f[t, z, y, x]
                    g = tuple(float(q) for q in (g[:2] if vec else (g,)))
                except TimeExtrapolationError:
                    g = 'time'
                except Exception as e:
                    g = repr(e)
                ctx.expect(close(g, want[tr, t]), '%s direct %s %s t=%s' % (unit, form, tr, t), lambda: 'expected %s, got %s' % (want[tr, t], g))
                ctx.step()
    # ---- pairs in kernels
    n = 2 if vec else 1
    exprs = []
    for tr in trs:
        nm = tr.replace('+', 'p')
        exprs.append(['(particle.oA, particle.oB) = fieldset.UV%s[particle.TT, particle.depth, particle.lat, particle.lon]' % nm] if vec else
                     ['particle.oA = fieldset.P%s[particle.TT, particle.depth, particle.lat, particle.lon]' % nm])
    src = 'def K(particle, fieldset, time):\n'
    for slot, (a, b, tt, sel) in enumerate((('o0', 'o1', 'ta', 'sa'), ('o2', 'o3', 'tb', 'sb'))):
        for i, e in enumerate(exprs):
            src += '    if particle.%s == %d:\n' % (sel, i)
            src += ''.join('        %s\n' % ln.replace('oA', a).replace('oB', b).replace('TT', tt) for ln in e)
    src += '    particle.done = 1\n'
    full = ctx.tier == 'thorough' or kind == 'A'
    al = [(i, s, j, t) for (i, s), (j, t) in itertools.product(itertools.product(range(len(trs)), ts), repeat=2) if full or i == j or (outside(s) and outside(t) and (i + j) % 2)]
    for mode in MODES:
        if not ctx.case(dict(unit, step='pairs', mode=mode)):
            continue
        vs = [('k', np.int32, 0), ('sa', np.int32, 0), ('sb', np.int32, 0), ('ta', np.float64, 0.), ('tb', np.float64, 0.), ('done', np.int32, 0)] + [('o%d' % i, np.float64, 0.) for i in range(4)]
        P = pclass(mode, vs, name='VP19' + mode)
        res = [None] * len(al)

        def handler(name):
            def f(particle, fieldset, time):
                res[int(particle.k)] = name
                particle.delete()
            return f
        N = len(al)
        sub = al if mode == 'jit' or ctx.tier == 'thorough' else [c for i, c in enumerate(al) if c[0] == c[2] or outside(c[1]) and outside(c[3]) and i % 3 == 0]
        N = len(sub)
        try:
            ps = ParticleSet(fs, pclass=P, lon=[x] * N, lat=[y] * N, depth=[z] * N, time=[0.] * N, lonlatdepth_dtype=np.float64, k=list(range(N)),
                             sa=[c[0] for c in sub], ta=[c[1] for c in sub], sb=[c[2] for c in sub], tb=[c[3] for c in sub])
            ps.execute(func(src, 'K'), runtime=1., dt=1., recovery={c: handler(nm) for nm, c in ERRS.items()})
            for p in ps:
                res[int(p.k)] = tuple(float(getattr(p, q)) for q in (('o0', 'o1', 'o2', 'o3') if vec else ('o0', 'o2')))
        except Exception as e:
            ctx.violate('%s %s: sampling' % (unit, mode), 'raised %r' % e)
            continue
        for k, (i, s, j, t) in enumerate(sub):
            a, b = want[trs[i], s], want[trs[j], t]
            w = a if isinstance(a, str) else (b if isinstance(b, str) else a + b)
            g = res[k]
            ctx.evaluations += 1
            ctx.step()
            ctx.outcome(w if isinstance(w, str) else 'value')
            if outside(s) or outside(t):
                ctx.distinct((ax, ctor, kind, trs[i], s, trs[j], t))
            ctx.state((ax, kind, trs[i], s))
            ctx.expect(g is not None and close(g, w), '%s %s: %s at %s, then %s at %s' % (unit, mode, trs[i], s, trs[j], t), lambda: 'expected %s, got %s' % (w, g))
        ctx.trace(N)
    ctx.sample(dict(unit, times=ts, treatments=trs))


def run_runs(unit, ctx):
    """Runs that cross the ends of the data: the field is sampled at the time of the particle in every step."""
    ax, mode = unit['axis'], unit['mode']
    src = """
def K(particle, fieldset, time):
    particle.v = fieldset.%s[time, particle.depth, particle.lat, particle.lon]
    particle.acc = 0.75 * particle.acc + particle.v
    particle.n += 1
"""
    for ctor in ('Field', 'netcdf', 'shared'):
        fs, shift = world(ax, ctor, 'A', ctx.scratch)
        a, b = AXES[ax][0] - shift, AXES[ax][-1] - shift
        T = (b - a) or 1.
        starts = [a - 2 * T - .25, a - .5, a, a + .5 * T, b, b + .25, b + 7 * T]
        for tr in treatments(ax, 'A', ctor):
            f = func(src % ('P' + tr.replace('+', 'p')), 'K')
            for sgn, dt in itertools.product((1, -1), (.25, .5, .375)):
                if not ctx.case(dict(unit, ctor=ctor, treat=tr, sgn=sgn, dt=dt)):
                    continue
                if ctx.tier == 'quick' and dt == .375 and ctor != 'Field':
                    continue
                n = int(math.ceil((2.2 * T + 3.) / dt))
                P = pclass(mode, [('k', np.int32, 0), ('n', np.int32, 0), ('v', np.float64, 0.), ('acc', np.float64, 0.)], name='VP19r' + mode)
                res = {}

                def handler(particle, fieldset, time):
                    res[int(particle.k)] = (int(particle.n), float(particle.acc), 'time')
                    particle.delete()
                ps = None
                kern = None
                for k, s in enumerate(starts):          # one set per start: all times relative to it
                    ps = ParticleSet(fs, pclass=P, lon=[1.25], lat=[.75], time=[s], lonlatdepth_dtype=np.float64, k=[k])
                    if kern is not None:
                        ps.kernel = kern
                    ps.execute(kern if kern is not None else f, runtime=n * dt, dt=sgn * dt, recovery={ERRS['time']: handler})
                    kern = ps.kernel
                    for p in ps:
                        res[k] = (int(p.n), float(p.acc), 'end')
                    acc, m, st = 0., 0, 'end'
                    for i in range(n):
                        w = expected(ax, tr, s + sgn * i * dt, shift)
                        if isinstance(w, str):
                            st = w
                            break
                        acc, m = .75 * acc + w, i + 1
                    g = res.get(k)
                    ctx.evaluations += 1
                    ctx.step(n)
                    ctx.outcome('run to ' + st)
                    ctx.distinct((ax, ctor, tr, sgn, dt, s))
                    ctx.expect(g is not None and g[0] == m and abs(g[1] - acc) < 1e-3 and g[2] == st, '%s %s %s start=%s dt=%s' % (unit, ctor, tr, s, sgn * dt), lambda: 'expected %s, got %s' % ((m, acc, st), g))
                ctx.trace()


def run_defaults(unit, ctx):
    """Without any setting, fields with a time dimension reject times outside the data and fields without one hold everywhere,
    whatever other fields are given in the same call."""
    lon, lat = LON, LAT
    one, two = np.full((3, 4), 5., dtype=np.float32), np.stack([np.full((3, 4), v, dtype=np.float32) for v in (1., 3.)])
    t = np.array([0., 2.])
    for order in itertools.permutations((('S', False), ('M', True), ('N', True), ('R', False)), 3):
        for ctor in ('data', 'netcdf', 'xarray'):
            if not ctx.case(dict(unit, order=order, ctor=ctor)):
                continue
            if ctor == 'data':
                fs = FieldSet.from_data({n: (two if tm else one).copy() for n, tm in order}, {n: dict({'lon': lon, 'lat': lat}, **({'time': t} if tm else {})) for n, tm in order}, mesh='flat')
            else:
                tt = np.datetime64('2001-01-01') + (t * 1000).astype(int) * np.timedelta64(1, 'ms')
                ds = xr.Dataset({n: (('time', 'lat', 'lon'), two) if tm else (('lat', 'lon'), one) for n, tm in order}, coords={'lon': lon, 'lat': lat, 'time': tt})
                if ctor == 'xarray':
                    fs = FieldSet(None, None)
                    for n, tm in order:
                        fs.add_field(Field.from_xarray(ds[n], n, dict({'lon': 'lon', 'lat': 'lat'}, **({'time': 'time'} if tm else {})), mesh='flat'))
                else:
                    p = os.path.join(ctx.scratch, 'd%d.nc' % ctx.evaluations)
                    ds.to_netcdf(p)
                    fs = FieldSet.from_netcdf({n: p for n, tm in order}, {n: n for n, tm in order}, {n: dict({'lon': 'lon', 'lat': 'lat'}, **({'time': 'time'} if tm else {})) for n, tm in order}, mesh='flat', deferred_load=False)
            for n, tm in order:
                for q in (-1., 0., 1., 2., 3.):
                    try:
                        g = float(getattr(fs, n).eval(q, 0., 1., 1.))
                    except TimeExtrapolationError:
                        g = 'time'
                    w = 5. if not tm else ('time' if q < 0 or q > 2 else 1. + q)
                    ctx.step()
                    ctx.distinct((order, ctor, n, q))
                    ctx.expect(g == w, 'defaults %s %s: field %s at %s' % (ctor, order, n, q), lambda: 'expected %s, got %s' % (w, g))
