"""C15: dates and relative times convert consistently."""
import itertools
import os
from datetime import date, datetime, timedelta

import cftime
import netCDF4
import numpy as np
import xarray as xr

from pk import MODES, Field, FieldSet, KernelCache, ParticleSet, func, pclass
from parcels.tools.converters import TimeConverter

ID = 'C15'
LEVEL = 'model_checking'
RULE = ('every calendar x constructor x mode; per field set every combination of the forms of release time, end (date, seconds, duration, '
        'none), step, direction and offset; every form of output, repeat and callback interval; every written file decoded; fields '
        'with other origins than the velocity, held, periodic and on demand; every calendar x time difference there and back; '
        'non-trivial: a date or time difference is given; distinct by (calendar, constructor, forms)')
BOUNDS = '3 particles, runs of at most 10 s, steps of 0.5 and 1 s, 9 calendars'
ASSUMPTIONS = ['dates of another calendar than that of the fields are refused']

CAL = {'none': None, 'datetime64': None, 'timedelta64': None, 'standard': cftime.DatetimeGregorian, 'proleptic': cftime.DatetimeProlepticGregorian, 'noleap': cftime.DatetimeNoLeap,
       'allleap': cftime.DatetimeAllLeap, '360': cftime.Datetime360Day, 'julian': cftime.DatetimeJulian}
CTORS = {'none': ('data', 'Field', 'xarray', 'netcdf', 'deferred'), 'datetime64': ('data', 'Field', 'xarray', 'netcdf', 'deferred', 'timestamps'), 'timedelta64': ('xarray', 'netcdf')}
AX = {'U': [0., 2.5, 11., 20.], 'F': [0., 2.5, 11., 20.], 'G': [-3., 2., 12.5, 14.], 'H': [1.5, 5.5], 'K': [4.]}
VAL = {'U': [0.] * 4, 'V': [0.] * 4, 'F': [1., 3., -2., 8.], 'G': [2., 7., -1., 2.], 'H': [4., -4.], 'K': [5.]}
OPT = {'U': {}, 'V': {}, 'F': {}, 'G': {'time_periodic': 17.}, 'H': {'allow_time_extrapolation': True}, 'K': {'allow_time_extrapolation': True}}
LON, LAT = np.array([0., 1., 2.], dtype=np.float32), np.array([0., 1., 2.], dtype=np.float32)


def origin(cal, base):
    """Date of the first time slice of the velocities."""
    y = (2000, 2, 28, 23, 59, 55) if base == 'leap' else (2001, 12, 31, 0, 0, 0)
    if cal == 'none':
        return 0.
    if cal == 'datetime64':
        return np.datetime64(datetime(*y))
    if cal == 'timedelta64':
        return np.timedelta64(86400 * 1000 * 3, 'ms')
    return CAL[cal](*(y[:2] + (min(y[2], 30 if cal == '360' else 31),) + y[3:]))


def at(o, s):
    """The time s seconds after the origin o."""
    if isinstance(o, (np.datetime64, np.timedelta64)):
        return o + np.timedelta64(int(round(s * 1000)), 'ms')
    if isinstance(o, float):
        return o + s
    return o + timedelta(seconds=s)


def value(n, t):
    ax, v = AX['U' if n == 'V' else n], VAL[n]
    if n == 'G':
        t = ax[0] + (t - ax[0]) % 17.
    return float(np.interp(t, ax, v))


def world(cal, ctor, base, scratch):
    o = origin(cal, base)
    fields = {}
    for n in VAL:
        ax = [at(o, s) for s in AX['U' if n == 'V' else n]]
        d = np.zeros((len(ax), 3, 3), dtype=np.float32) + np.array(VAL[n], dtype=np.float32)[:, None, None]
        tt = np.array(ax)
        if isinstance(o, (np.datetime64, np.timedelta64)):
            tt = tt.astype('%s64[ms]' % ('datetime' if isinstance(o, np.datetime64) else 'timedelta'))
        kw = dict(OPT[n], mesh='flat')
        if ctor == 'data':
            fields[n] = getattr(FieldSet.from_data({n: d}, {'lon': LON, 'lat': LAT, 'time': tt}, **kw), n)
        elif ctor == 'Field':
            oo = at(o, AX['U' if n == 'V' else n][0])
            rel = np.array(AX['U' if n == 'V' else n])
            fields[n] = Field(n, d, lon=LON, lat=LAT, time=rel if cal == 'none' else rel - rel[0], time_origin=TimeConverter(0) if cal == 'none' else TimeConverter(oo), **kw)
        else:
            ds = xr.Dataset({'d' + n: (('time', 'lat', 'lon'), d)}, coords={'time': tt, 'lat': LAT, 'lon': LON})
            dims = {'lon': 'lon', 'lat': 'lat', 'time': 'time'}
            if ctor == 'xarray':
                fields[n] = getattr(FieldSet.from_xarray_dataset(ds, {n: 'd' + n}, dims, **kw), n)
                continue
            p = os.path.join(scratch, '%s%s%s%s.nc' % (cal, ctor, base, n))
            if os.path.exists(p):
                os.remove(p)
            if ctor == 'timestamps':
                files, stamps = [], []
                for i in range(len(ax)):
                    files.append(p + '%02d.nc' % i)
                    if os.path.exists(files[-1]):
                        os.remove(files[-1])
                    ds.isel(time=[i]).drop_vars('time').to_netcdf(files[-1])
                    stamps.append(tt[i:i + 1])
                del dims['time']
                fields[n] = getattr(FieldSet.from_netcdf(files, {n: 'd' + n}, dims, timestamps=stamps, **kw), n)
                continue
            enc = {} if cal == 'none' else {'time': {'units': 'seconds' if cal == 'timedelta64' else 'seconds since 1999-12-30 06:00:00', 'dtype': 'f8'}}
            ds.to_netcdf(p, encoding=enc)
            fields[n] = getattr(FieldSet.from_netcdf(p, {n: 'd' + n}, dims, deferred_load=ctor == 'deferred', **kw), n)
    u, v = fields.pop('U'), fields.pop('V')
    if ctor in ('netcdf', 'deferred', 'timestamps') and cal in ('standard', 'proleptic'):
        o = np.datetime64(o.isoformat())  # how such dates are read from a file
    return FieldSet(u, v, fields=fields), o


SRC = """
def step(particle, fieldset, time):
    if particle.n == 0:
        particle.first = time
    particle.last = time
    particle.acc = 0.75 * particle.acc + fieldset.F[time, particle.depth, particle.lat, particle.lon] + 2. * fieldset.G[time, particle.depth, particle.lat, particle.lon] + 4. * fieldset.H[time, particle.depth, particle.lat, particle.lon] + 8. * fieldset.K[time, particle.depth, particle.lat, particle.lon]
    particle.n += 1
"""
VARS = [('n', np.int32, 0), ('first', np.float64, 0.), ('last', np.float64, 0.), ('acc', np.float64, 0.)]


def predicted(s, e, dt):
    """Values of a particle stepped from s to e: (n, first, last, acc), as the kernel records them."""
    n = int(round(abs(e - s) / abs(dt)))
    acc, last = 0., 0.
    for k in range(n):
        last = s + k * dt
        acc = .75 * acc + value('F', last) + 2. * value('G', last) + 4. * value('H', last) + 8. * value('K', last)
    return (n, s if n else 0., last, acc)


def dateforms(cal, o):
    """Forms in which a time s seconds after the origin can be given (None: not this time)."""
    f = {'seconds': lambda s: s}
    if cal == 'none' or cal == 'timedelta64':
        return f
    if cal == 'datetime64':
        f['datetime64[ms]'] = lambda s: at(o, s).astype('datetime64[ms]')
        f['datetime64[ns]'] = lambda s: at(o, s).astype('datetime64[ns]')
        f['datetime64[s]'] = lambda s: at(o, s).astype('datetime64[s]') if s == int(s) else None
        f['datetime'] = lambda s: at(o, s).astype('datetime64[us]').item()
        return f
    f['cftime'] = lambda s: at(o, s)
    f['cftime base class'] = lambda s: cftime.datetime(*at(o, s).timetuple()[:6], at(o, s).microsecond, calendar=o.calendar)
    return f


def units(tier):
    u = []
    for c in CAL:
        for k in CTORS.get(c, ('xarray', 'netcdf')):
            for m in MODES:
                if tier == 'quick' and m == 'jit' and k not in ('data', 'netcdf', 'deferred'):
                    continue
                u.append({'what': 'runs', 'cal': c, 'ctor': k, 'mode': m})
        u.append({'what': 'output', 'cal': c})
    return u + [{'what': 'convert'}, {'what': 'refuse'}]


def run(unit, ctx):
    globals()['run_' + unit['what']](unit, ctx)


def numclose(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-4 for x, y in zip(a, b))


def run_runs(unit, ctx):
    cal, ctor, mode = unit['cal'], unit['ctor'], unit['mode']
    step = func(SRC, 'step')
    P = pclass(mode, VARS, name='VP15' + mode)
    for base in ('leap', 'year') if cal not in ('none', 'timedelta64') else ('leap',):
        if not ctx.case(dict(unit, base=base, step='build')):
            continue
        try:
            fs, o = world(cal, ctor, base, ctx.scratch)
        except Exception as e:
            ctx.violate('%s %s: building the fields' % (unit, base), 'raised %r' % e)
            continue
        forms = dateforms('datetime64' if isinstance(o, np.datetime64) else cal, o)
        cache = KernelCache()
        dts = {'float': lambda d: d, 'timedelta': lambda d: timedelta(seconds=d)}
        for sgn, pf, off in itertools.product((1, -1), list(forms) + ['default', 'array', 'scalar'], (0., .5)):
            starts = [5. + off, 6. + off, 5. + off] if pf not in ('default', 'scalar') else [5. + off] * 3
            ends = {}
            for f in forms:
                ends['end ' + f] = (forms[f], 9. + off if sgn > 0 else 2. + off)
            ends['run float'] = (lambda s: abs(s - starts[0 if sgn > 0 else 1]), 9.5 + off if sgn > 0 else 2. + off)
            ends['run timedelta'] = (lambda s: timedelta(seconds=abs(s - starts[0 if sgn > 0 else 1])), 9. + off if sgn > 0 else 1. + off)
            ends['default'] = (None, None)
            for en, (ef, e) in ends.items():
                for df, dt in itertools.product(dts, (.5, 1.)):
                    demand = ctor in ('deferred', 'timestamps')
                    if ctx.tier == 'quick' and not demand and (dt == .5) != (off == .5 or en == 'run float'):
                        continue
                    if dt == 1. and (en == 'run float' or demand):  # steps are cut where fields on demand have a slice
                        continue
                    desc = dict(unit, base=base, sgn=sgn, release=pf, off=off, end=en, step=df, dt=dt)
                    if not ctx.case(desc):
                        continue
                    if pf == 'default':
                        if en.startswith('run') or off:
                            continue
                        # without release times: the first time of all fields with several slices (the last when backward)
                        st = [1.5 if sgn > 0 else 5.5] * 3
                        tm = None
                    elif pf == 'array':
                        f = forms[list(forms)[-1]]
                        st, tm = starts, np.array([f(s) for s in starts])
                    elif pf == 'scalar':
                        st, tm = starts, forms[list(forms)[-1]](starts[0])
                    else:
                        st, tm = starts, [forms[pf](s) for s in starts]
                        if any(x is None for x in tm):
                            continue
                    kw = {'dt': dts[df](sgn * dt)}
                    if en == 'default':
                        if pf == 'default' or (st[0] > 5.5 if sgn > 0 else False):
                            continue
                        end = 5.5 if sgn > 0 else 1.5
                        if abs(end - st[0]) / dt % 1 or abs(end - st[1]) / dt % 1:
                            continue
                    else:
                        v = ef(e)
                        if v is None:
                            continue
                        kw['endtime' if en.startswith('end') else 'runtime'] = v
                        end = e
                    if abs(end - st[0]) / dt % 1 or abs(end - st[1]) / dt % 1 or (end - st[0]) * sgn <= 0:
                        continue
                    want = [predicted(s, end, sgn * dt) if (end - s) * sgn > 0 else (0, 0., 0., 0.) for s in st]
                    try:
                        ps = ParticleSet(fs, pclass=P, lon=[.5, 1., 1.5], lat=[1.] * 3, time=tm, lonlatdepth_dtype=np.float64)
                        cache.execute('k', ps, step, **kw)
                        got = [(int(p.n), float(p.first), float(p.last), float(p.acc)) for p in ps]
                        rel = [float(p.time) for p in ps]
                    except Exception as ex:
                        got, rel = repr(ex), []
                    ok = not isinstance(got, str) and len(got) == 3 and all(numclose(g, w) for g, w in zip(got, want)) and \
                        all(abs(r - (end if (end - s) * sgn > 0 else s)) < 1e-6 for r, s in zip(rel, st))
                    ctx.expect(ok, '%s' % desc, lambda: 'expected %s at %s, got %s at %s' % (want, end, got, rel))
                    ctx.step(sum(w[0] for w in want))
                    ctx.trace()
                    ctx.outcome('run')
                    ctx.state((cal, ctor, base, pf, en))
                    if pf not in ('seconds', 'default') or en not in ('end seconds', 'run float', 'default') or df != 'float' or cal != 'none':
                        ctx.distinct(tuple(desc.items()))
    ctx.sample(unit)


def decode(path):
    """Times of the file as dates, by the units and the calendar stated in the file."""
    with netCDF4.Dataset(path) as d:
        t = d.variables['time']
        raw = np.ma.filled(t[:], np.nan).astype(float)
        u, c = t.units, getattr(t, 'calendar', None)
    if ' since ' not in u:
        return raw, None, u, c
    ok = np.isfinite(raw)
    dates = np.full(raw.shape, None, dtype=object)
    dates[ok] = cftime.num2date(raw[ok], u, c or 'standard')
    return raw, dates, u, c


def run_output(unit, ctx):
    """Output, repeat and callback intervals in every form; the dates in the file."""
    cal = unit['cal']
    ctor = CTORS.get(cal, ('xarray',))[0]
    step = func(SRC, 'step')
    for base in ('leap', 'year') if cal not in ('none', 'timedelta64') else ('leap',):
        fs, o = world(cal, ctor, base, ctx.scratch)
        forms = dateforms(cal, o)
        iv = {'float': lambda d: d, 'timedelta': lambda d: timedelta(seconds=d)}
        for mode in MODES:
            P = pclass(mode, VARS, name='VP15o' + mode)
            cache = KernelCache()
            for sgn, pf, of, rf, cf, off in itertools.product((1, -1), forms, iv, list(iv) + ['no'], list(iv) + ['no'], (0., .5)):
                if ctx.tier == 'quick' and (cf == 'float' or (mode == 'jit' and rf == 'float')):
                    continue
                desc = dict(unit, base=base, mode=mode, sgn=sgn, release=pf, output=of, repeat=rf, callback=cf, off=off)
                if not ctx.case(desc):
                    continue
                s = 5. + off
                st = forms[pf](s)
                if st is None:
                    continue
                path = os.path.join(ctx.scratch, 'o.nc')
                calls = []
                try:
                    kw = {}
                    if rf != 'no':
                        kw['repeatdt'] = iv[rf](1.5)
                    ps = ParticleSet(fs, pclass=P, lon=[.5], lat=[1.], time=[st], lonlatdepth_dtype=np.float64, **kw)
                    if os.path.exists(path):
                        os.remove(path)
                    out = ps.ParticleFile(name=path, outputdt=iv[of](2.))
                    ek = {}
                    if cf != 'no':
                        ek = dict(postIterationCallbacks=[lambda: calls.append(round(float(ps[0].time), 6))], callbackdt=iv[cf](1.))
                    cache.execute('k', ps, step, runtime=iv[of](4.), dt=sgn * .5, output_file=out, **ek)
                    out.export()
                    out.close()
                    raw, dates, u, c = decode(path)
                    got = sorted(float(r) for r in raw.ravel() if np.isfinite(r))
                    err = None
                except Exception as ex:
                    got, err = [], repr(ex)
                groups = [s + sgn * k * 1.5 for k in range(0, 3 if rf != 'no' else 1)]
                want = sorted(s + sgn * k * 2. for g in groups for k in range(3) if (s + sgn * k * 2. - g) * sgn >= 0)
                ok = err is None and len(got) == len(want) and all(abs(a - b) < 1e-6 for a, b in zip(got, want))
                ctx.expect(ok, '%s' % desc, lambda: 'observations expected at %s, got %s %s' % (want, got, err))
                ctx.step(len(want))
                ctx.distinct(tuple(desc.items()))
                ctx.trace()
                if cf != 'no' and err is None:
                    cw = [s + sgn * k for k in range(1, 5)]
                    ctx.expect(all(any(abs(q - w) < 1e-6 for q in calls) for w in cw), '%s: callbacks' % desc, lambda: 'expected at %s, got %s' % (cw, calls))
                if err is None:
                    if cal in ('none', 'timedelta64'):
                        ctx.expect(' since ' not in u, '%s: units' % desc, lambda: 'units %r although the times have no origin' % u)
                    else:
                        good = dates is not None
                        if good:
                            for r, d in zip(raw.ravel(), dates.ravel()):
                                if not np.isfinite(r):
                                    continue
                                w = at(o, float(r))
                                if cal == 'datetime64':
                                    w = w.astype('datetime64[us]').item()
                                    good &= abs((datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond) - w).total_seconds()) < 1e-3
                                else:
                                    good &= abs((d - w).total_seconds()) < 1e-3 and d.calendar == w.calendar
                        ctx.expect(good, '%s: dates' % desc, lambda: 'units %r, calendar %r give %s' % (u, c, dates))
                ctx.outcome('written')
    ctx.sample(unit)


def run_convert(unit, ctx):
    """Differences of dates, there and back."""
    for cal in CAL:
        for base in ('leap', 'year'):
            o = origin(cal, base)
            tc = TimeConverter(o)
            for s in (0., 1., 86399., 86400., 5 * 86400. + 7., -1., -86400. * 60, 86400. * 366, 1e9, 3600. * 24 * 31):
                if not ctx.case(dict(unit, cal=cal, base=base, s=s)):
                    continue
                d = at(o, s)
                checks = {'reltime': (tc.reltime(d), s), 'reltime of a converter': (tc.reltime(TimeConverter(d)), s), 'array': (float(tc.reltime(np.array([d, o]))[0]), s),
                          'fulltime': (tc.fulltime(s) == d, True), 'round trip': (tc.reltime(tc.fulltime(s)), s)}
                d2 = TimeConverter(d)
                checks['order'] = ((tc < d2, tc == d2, tc > d2, tc <= d2, tc >= d2, tc != d2), (s > 0, s == 0, s < 0, s >= 0, s <= 0, s != 0))
                for k, (g, w) in checks.items():
                    ctx.step()
                    ctx.expect(bool(np.all(np.asarray(g) == np.asarray(w))), '%s %s %s of %s' % (cal, base, k, s), lambda: 'expected %r, got %r' % (w, g))
                ctx.distinct((cal, base, s))
                ctx.state((cal, base, s))
                ctx.outcome('converted')


def run_refuse(unit, ctx):
    """Dates for fields without dates, and dates of another calendar, are refused, never taken for something else."""
    step = func(SRC, 'step')
    P = pclass('scipy', VARS, name='VP15f')
    for cal in CAL:
        ctor = CTORS.get(cal, ('xarray',))[0]
        fs, o = world(cal, ctor, 'leap', ctx.scratch)
        for other in CAL:
            if other in ('none', cal) or (cal, other) in (('standard', 'standard'),):
                continue
            wrong = at(origin(other, 'leap'), 5.)
            cands = [wrong] + ([wrong.astype('datetime64[us]').item()] if other == 'datetime64' else [])
            for w in cands:
                for where in ('release', 'end'):
                    if other == 'timedelta64':
                        continue
                    if not ctx.case(dict(unit, cal=cal, other=other, where=where, form=type(w).__name__)):
                        continue
                    try:
                        ps = ParticleSet(fs, pclass=P, lon=[.5], lat=[1.], time=[w if where == 'release' else 2.])
                        ps.execute(step, dt=1., **({'endtime': w} if where == 'end' else {'runtime': 2.}))
                        got = 'accepted, released at %s, ended at %s' % (float(ps[0].first), float(ps[0].time))
                    except Exception as e:
                        got = type(e).__name__
                    ctx.step()
                    ctx.distinct((cal, other, where, type(w).__name__))
                    ctx.outcome('refused')
                    ctx.expect(not got.startswith('accepted'), 'fields %s, %s given as %s of %s' % (cal, where, type(w).__name__, other), lambda: got)
