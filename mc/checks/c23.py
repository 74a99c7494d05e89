"""C23: the built-in kernels compute the scheme or formula they are named after."""
import itertools
import math

import numpy as np

from pk import MODES, Field, FieldSet, KernelCache, ParcelsRandom, ParticleSet, Variable, pclass
from parcels import (AdvectionAnalytical, AdvectionDiffusionEM, AdvectionDiffusionM1, AdvectionEE, AdvectionRK4, AdvectionRK4_3D,
                     AdvectionRK45, DiffusionUniformKh)
from parcels.kernels.EOSseawaterproperties import AdiabticTemperatureGradient, PressureFromLatDepth, PtempFromTemp, TempFromPtemp, UNESCODensity
from parcels.kernels.TEOSseawaterdensity import PolyTEOS10_bsq

ID = 'C23'
LEVEL = 'model_checking'
RULE = ('every built-in kernel x field family (uniform, A-grid steady and unsteady, deep, s-levels, curvilinear, C-grid, nested, summed) x '
        'mesh x step x start time x precision x number of steps, every particle of a position lattice, compared with the scheme computed '
        'independently from the sampled velocities; the adaptive scheme step by step; analytical advection against the exact '
        'solution cell by cell; diffusion from the same random draws; sea water formulas over a lattice of inputs; '
        'non-trivial: the velocity varies in space or time; distinct by (kernel, field, mesh, mode, step, start)')
BOUNDS = '16-25 start positions, 1 to 3 steps, 6 steps sizes (adaptive: whole runs of up to 60 steps)'
ASSUMPTIONS = ['velocities sampled by FieldSet.UV.eval are those of the field (C03, C04, C08)']
D2M = 1852 * 60.


def vals(shape, seed, amp):
    """Fixed well mixed values in [-amp, amp], multiples of amp/16."""
    n = int(np.prod(shape))
    k = np.arange(n, dtype=np.int64)
    h = (k * 2654435761 + seed * 40503 + (k * k) * 97) >> 3
    return ((h % 33 - 16) / 16. * amp).astype(np.float32).reshape(shape)


TIMES0 = TIMES = np.array([0., 3., 5., 12., 30.])


def world(kind, mesh, extra=(), slow=False):
    """Velocity field with several cells, and start positions well inside."""
    m = 1. if mesh == 'flat' else D2M
    lon, lat = np.array([0., 1., 2.5, 3.5, 5., 6.], dtype=np.float32), np.array([40., 41., 42., 43.5, 45.], dtype=np.float32)
    dep = np.array([0., 1., 3., 4.], dtype=np.float32)
    amp = .05
    TIMES = TIMES0
    if slow:
        lat, amp, TIMES = lat - 40, .016, TIMES0 * 10
    kw = {}
    dims = {'lon': lon, 'lat': lat}
    if kind == 'uniform':
        d = {'U': np.full((5, 6), .0625 * m, np.float32), 'V': np.full((5, 6), -.03125 * m, np.float32)}
        if mesh == 'flat':
            d['W'] = np.full((5, 6), .125, np.float32)
    elif kind == 'steady':
        d = {n: vals((5, 6), i, amp * m) for i, n in enumerate('UV')}
    elif kind in ('unsteady', 'nested', 'summed', 'constV'):
        dims['time'] = TIMES
        d = {n: vals((5, 5, 6), i + 5, amp * m) for i, n in enumerate('UV')}
        if kind == 'constV':
            del d['V']
    elif kind == 'deep':
        dims.update(time=TIMES, depth=dep)
        d = {n: vals((5, 4, 5, 6), i + 9, (amp if n != 'W' else amp) * (m if n != 'W' else 1.)) for i, n in enumerate('UVW')}
    elif kind == 's':
        dims.update(depth=(dep[:, None, None] * np.linspace(1., 1.25, 30).reshape(5, 6)[None]).astype(np.float32))
        d = {n: vals((4, 5, 6), i + 12, amp * (m if n != 'W' else 1.)) for i, n in enumerate('UVW')}
    elif kind == 'curvi':
        x, y = np.meshgrid(np.linspace(0., 6., 6), np.linspace(40., 45., 5))
        dims = {'lon': (x + .1 * (y - 40.)).astype(np.float32), 'lat': (y + .1 * x - .3 - 40 * slow).astype(np.float32), 'time': TIMES}
        d = {n: vals((5, 5, 6), i + 15, amp * m) for i, n in enumerate('UV')}
    elif kind == 'cgrid':
        dims.update(depth=dep)
        d = {n: vals((4, 5, 6), i + 20, amp * (m if n != 'W' else 1.)) for i, n in enumerate('UVW')}
    fs = FieldSet.from_data(d, dims, mesh=mesh, **kw) if 'V' in d else None
    if kind == 'constV':
        u = Field('U', d['U'], lon=lon, lat=lat, time=TIMES, mesh=mesh)
        v = Field('V', np.float32(.03 * m), lon=0., lat=0., mesh=mesh)
        fs = FieldSet(u, v)
    if kind == 'nested':
        from parcels import NestedField
        # an inner domain in front of the outer one
        inner = FieldSet.from_data({n: vals((3, 3), i + 30, amp * m) for i, n in enumerate('UV')},
                                   {'lon': np.array([1., 2., 3.], np.float32), 'lat': np.array([41., 42., 43.], np.float32)}, mesh=mesh, allow_time_extrapolation=True)
        fs = FieldSet(NestedField('U', [inner.U, fs.U]), NestedField('V', [inner.V, fs.V]))
    if kind == 'summed':
        other = FieldSet.from_data({n: vals((5, 6), i + 40, amp * m / 2) for i, n in enumerate('UV')}, {'lon': lon, 'lat': lat}, mesh=mesh, allow_time_extrapolation=True)
        from parcels import SummedField
        fs = FieldSet(SummedField('U', [fs.U, other.U]), SummedField('V', [fs.V, other.V]))
    if kind == 'cgrid':
        fs.U.interp_method = fs.V.interp_method = 'cgrid_velocity'
        fs.W.interp_method = 'cgrid_velocity'
    for f in extra:
        fs.add_field(f)
    fs.check_complete()
    pts = [(z, y, x) for z in ([1.25, 2.] if kind in ('deep', 's', 'cgrid') or kind == 'uniform' else [0.]) for y in np.array((41.375, 42.25, 43.0, 43.75)) - 40 * slow for x in (1.25, 2.25, 3.0, 4.375)]
    return fs, pts


def uv(fs, t, z, y, x):
    v = fs.UV
    if isinstance(v, list):      # summed or nested: the specification of C13
        from parcels import SummedField
        if isinstance(v, SummedField):
            r = [f.eval(t, z, y, x) for f in v]
            return sum(float(q[0]) for q in r), sum(float(q[1]) for q in r)
        for f in v:
            try:
                r = f.eval(t, z, y, x)
                return float(r[0]), float(r[1])
            except Exception:
                if f is v[-1]:
                    raise
    r = v.eval(t, z, y, x)
    return float(r[0]), float(r[1])


def uvw(fs, t, z, y, x):
    r = fs.UVW.eval(t, z, y, x)
    return tuple(float(q) for q in r)


def euler(fs, t, p, dt):
    z, y, x = p
    u, v = uv(fs, t, z, y, x)
    return z, y + v * dt, x + u * dt


def rk(fs, t, p, dt, three):
    """Classical fourth-order Runge-Kutta."""
    def f(s, q):
        if three:
            u, v, w = uvw(fs, s, *q)
        else:
            (u, v), w = uv(fs, s, *q), 0.
        return np.array([w, v, u])
    p = np.array(p, dtype=float)
    k1 = f(t, p)
    k2 = f(t + dt / 2, p + dt / 2 * k1)
    k3 = f(t + dt / 2, p + dt / 2 * k2)
    k4 = f(t + dt, p + dt * k3)
    return tuple(p + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4))


# Fehlberg 4(5)
FC = [0, 1 / 4, 3 / 8, 12 / 13, 1, 1 / 2]
FA = [[], [1 / 4], [3 / 32, 9 / 32], [1932 / 2197, -7200 / 2197, 7296 / 2197], [439 / 216, -8, 3680 / 513, -845 / 4104],
      [-8 / 27, 2, -3544 / 2565, 1859 / 4104, -11 / 40]]
F4 = [25 / 216, 0, 1408 / 2565, 2197 / 4104, -1 / 5, 0]
F5 = [16 / 135, 0, 6656 / 12825, 28561 / 56430, -9 / 50, 2 / 55]


def fehlberg(fs, t, p, dt):
    """Fourth order solution and the difference with the fifth order one."""
    z = p[0]
    q = np.array(p[1:], dtype=float)
    k = []
    for c, a in zip(FC, FA):
        s = q + dt * sum((ai * ki for ai, ki in zip(a, k)), np.zeros(2))
        u, v = uv(fs, t + c * dt, z, s[0], s[1])
        k.append(np.array([v, u]))
    a = q + dt * sum(b * ki for b, ki in zip(F4, k))
    b = q + dt * sum(b * ki for b, ki in zip(F5, k))
    return (z, a[0], a[1]), float(np.hypot(*(a - b)))


def units(tier):
    u = []
    for k, m in itertools.product(('uniform', 'steady', 'unsteady', 'constV', 'deep', 's', 'curvi', 'cgrid', 'nested', 'summed'), ('flat', 'spherical')):
        for mode in MODES:
            u.append({'what': 'fixed', 'field': k, 'mesh': m, 'mode': mode})
    for k, m, mode in itertools.product(('steady', 'unsteady', 'curvi'), ('flat', 'spherical'), MODES):
        u.append({'what': 'adaptive', 'field': k, 'mesh': m, 'mode': mode})
    for g in ('uniform', 'stretched'):
        for w in (False, True):
            u.append({'what': 'analytical', 'grid': g, 'w': w})
    for mode in MODES:
        u.append({'what': 'diffusion', 'mode': mode})
        u.append({'what': 'water', 'mode': mode})
    return u


def run(unit, ctx):
    globals()['run_' + unit['what']](unit, ctx)


SCHEMES = {'EE': (AdvectionEE, euler), 'RK4': (AdvectionRK4, lambda *a: rk(*a, False)), 'RK4_3D': (AdvectionRK4_3D, lambda *a: rk(*a, True))}


def close(a, b, tol):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def run_fixed(unit, ctx):
    kind, mesh, mode = unit['field'], unit['mesh'], unit['mode']
    fs, pts = world(kind, mesh)
    cache = KernelCache()
    steady = kind in ('uniform', 'steady', 's', 'cgrid')
    for name, (kernel, spec) in SCHEMES.items():
        if name == 'RK4_3D' and not hasattr(fs, 'UVW'):
            continue
        for dt, t0, prec, n in itertools.product((2., 1., .5, -1., -2., -.5), (0.,) if steady else (10., 12.5, 7.5), (np.float32, np.float64), (1, 3)):
            if ctx.tier == 'quick' and (n == 1) != (abs(dt) == 1.):
                continue
            if not ctx.case(dict(unit, kernel=name, dt=dt, t0=t0, prec=np.dtype(prec).name, n=n)):
                continue
            want, err = [], None
            for p in pts:
                q = p
                for k in range(n):
                    q = spec(fs, t0 + k * dt, q, dt)
                want.append(q)
            ps = ParticleSet(fs, pclass=pclass(mode, name='VP23' + mode), lon=[p[2] for p in pts], lat=[p[1] for p in pts], depth=[p[0] for p in pts],
                             time=[t0] * len(pts), lonlatdepth_dtype=prec)
            try:
                cache.execute((name, prec), ps, kernel, runtime=abs(n * dt), dt=dt)
                got = [(float(p.depth), float(p.lat), float(p.lon)) for p in ps]
            except Exception as e:
                err, got = repr(e), []
            tol = 4e-5 if mode == 'jit' or prec is np.float32 else 1e-7
            ok = err is None and len(got) == len(want) and all(close(g, w, tol) for g, w in zip(got, want))
            ctx.expect(ok, '%s %s %s %s dt=%s t0=%s %s n=%s' % (name, kind, mesh, mode, dt, t0, np.dtype(prec).name, n),
                       lambda: 'error %s; worst %s' % (err, sorted((max(abs(a - b) for a, b in zip(g, w)), p, g, w) for p, g, w in zip(pts, got, want))[-1:]))
            ctx.step(n * len(pts))
            ctx.trace()
            ctx.state((name, kind, mesh, mode))
            if kind != 'uniform':
                ctx.distinct((name, kind, mesh, mode, dt, t0, prec, n))
            ctx.outcome(name)
            if kind == 'uniform' and err is None:
                # back again
                ps.execute(ps.kernel, runtime=abs(n * dt), dt=-dt)
                back = [(float(p.depth), float(p.lat), float(p.lon)) for p in ps]
                ctx.expect(all(close(b, p, tol) for b, p in zip(back, pts)) or mesh != 'flat', '%s uniform there and back %s dt=%s' % (name, mode, dt), lambda: '%s became %s' % (pts, back))
    ctx.sample(unit)


def run_adaptive(unit, ctx):
    """The adaptive scheme, for every particle of the lattice: the sequence of steps and the final position."""
    kind, mesh, mode = unit['field'], unit['mesh'], unit['mode']
    fs, pts = world(kind, mesh, slow=True)
    cache = KernelCache()
    for dt, run, t0, prec in itertools.product((4., 60., -4., -60.), (60., 41.), (0.,) if kind == 'steady' else (100., 120.), (np.float32, np.float64)):
        if not ctx.case(dict(unit, dt=dt, run=run, t0=t0, prec=np.dtype(prec).name)):
            continue
        sgn = 1 if dt > 0 else -1
        want, skip, steps = [], [], 0
        for p in pts:
            q, t, d, end, amb, out = p, t0, abs(dt), t0 + sgn * run, False, None
            while (end - t) * sgn > 1e-9:
                h = min(d, abs(end - t))
                try:
                    new, e = fehlberg(fs, t, q, sgn * h)
                except Exception as ex:
                    out = type(ex).__name__
                    break
                steps += 1
                r = e / (h * 1e-5)
                noise = .002 if mode == 'scipy' and prec is np.float64 else .01 + .2 / h
                amb |= abs(r - 1) < noise or abs(r - .1) < noise
                if r <= 1:
                    q, t = new, t + sgn * h
                    if r <= .1:
                        d = 2 * h
                        ctx.outcome('step doubled')
                else:
                    d = h / 2
                    ctx.outcome('step halved')
            want.append(out or q)
            skip.append(amb or out is not None)
        ps = ParticleSet(fs, pclass=pclass(mode, name='VP23a' + mode), lon=[p[2] for p in pts], lat=[p[1] for p in pts], depth=[p[0] for p in pts],
                         time=[t0] * len(pts), lonlatdepth_dtype=prec)
        err, got, times = None, [], []
        try:
            cache.execute(prec, ps, AdvectionRK45, runtime=run, dt=dt, recovery={})
            got = [(float(p.depth), float(p.lat), float(p.lon)) for p in ps]
            times = [float(p.time) for p in ps]
        except Exception as e:
            err = repr(e)
        tol = 1e-4 if mode == 'jit' or prec is np.float32 else 1e-7
        ctx.expect(err is None or any(isinstance(w, str) for w in want), 'RK45 %s %s %s dt=%s run=%s' % (kind, mesh, mode, dt, run), lambda: err)
        if err is None:
            for p, g, w, s, t in zip(pts, got, want, skip, times):
                ctx.expect(abs(t - t0 - sgn * run) < 1e-6, 'RK45 %s %s %s dt=%s run=%s: end' % (kind, mesh, mode, dt, run), lambda: 'ended at %s' % t)
                if s:
                    ctx.outcome('step choice within rounding')
                    continue
                ctx.expect(close(g, w, tol), 'RK45 %s %s %s dt=%s run=%s t0=%s %s from %s' % (kind, mesh, mode, dt, run, t0, np.dtype(prec).name, p), lambda: 'expected %s, got %s' % (w, g))
                ctx.outcome('adaptive')
                ctx.distinct((kind, mesh, mode, dt, run, t0, prec, p))
        ctx.step(steps)
        ctx.trace()
    ctx.sample(unit)


def exact1(r, f0, f1, t):
    """Position after t in one dimension of a cell, the transport being linear between its walls."""
    b = f1 - f0
    if abs(b) < 1e-12:
        return r + f0 * t
    return (r + f0 / b) * math.exp(b * t) - f0 / b


def crossing(r, f0, f1):
    """Time until a wall is reached, and which."""
    best = (math.inf, 0)
    for wall, fw in ((1., f1), (0., f0)):
        f = f0 * (1 - r) + f1 * r
        if f == 0 or (f > 0) != (wall > 0) or fw * f <= 0:
            continue
        b = f1 - f0
        t = (wall - r) / f0 if abs(b) < 1e-12 else math.log((wall + f0 / b) / (r + f0 / b)) / b
        if t < best[0]:
            best = (t, 1 if wall else -1)
    return best


def exact(ax, cell, F, pos, total):
    """Trajectory through cells with linear transports: F(cell) = per dimension (speed at the low and the high wall) in 1/s."""
    cell = list(cell)
    r = [(pos[d] - ax[d][cell[d]]) / (ax[d][cell[d] + 1] - ax[d][cell[d]]) for d in range(len(ax))]
    left = total
    for _ in range(200):
        f = F(cell)
        c = [crossing(r[d], *f[d]) for d in range(len(ax))]
        t = max(0., min([q[0] for q in c] + [left]))
        r = [exact1(r[d], f[d][0], f[d][1], t) for d in range(len(ax))]
        left -= t
        if left <= 1e-9:
            break
        d = min(range(len(ax)), key=lambda i: c[i][0])
        cell[d] += c[d][1]
        if not 0 <= cell[d] < len(ax[d]) - 1:
            return None
        r[d] = 0. if c[d][1] > 0 else 1.
    return [ax[d][cell[d]] * (1 - r[d]) + ax[d][cell[d] + 1] * r[d] for d in range(len(ax))]


def run_analytical(unit, ctx):
    lon = np.array([0., 1., 2., 3., 4., 5.]) if unit['grid'] == 'uniform' else np.array([0., 1., 3., 3.5, 5., 7.])
    lat = np.array([0., 1., 2., 3., 4.]) if unit['grid'] == 'uniform' else np.array([0., .5, 2., 3., 4.5])
    dep = np.array([0., 1., 2., 3.]) if unit['grid'] == 'uniform' else np.array([0., 1., 2.5, 3.])
    w = unit['w']
    shape = (4, 5, 6) if w else (5, 6)
    for steady, pattern in itertools.product((True, False), range(6)):
        d = {n: vals(shape, 7 * pattern + i, .5) for i, n in enumerate('UVW' if w else 'UV')}
        if pattern == 0:
            d = {n: np.full(shape, c, np.float32) for n, c in zip('UVW' if w else 'UV', (.25, .125, -.0625))}
        if pattern == 1:
            d['V'] = d['V'] * 0
        dims = {'lon': lon.astype(np.float32), 'lat': lat.astype(np.float32)}
        if w:
            dims['depth'] = dep.astype(np.float32)
        data = d
        if not steady:      # the same transport at every time
            dims['time'] = np.array([-50., 0., 7., 50.])
            data = {n: np.stack([v] * 4) for n, v in d.items()}
        fs = FieldSet.from_data(data, dims, mesh='flat')
        fs.U.interp_method = fs.V.interp_method = 'cgrid_velocity'
        if w:
            fs.W.interp_method = 'cgrid_velocity'
        ax = [lat, lon] if not w else [dep, lat, lon]

        for sgn in (1, -1):
            def F(c):
                j, i = c[-2:]
                k = c[0]
                dx, dy = lon[i + 1] - lon[i], lat[j + 1] - lat[j]
                if w:
                    dz = dep[k + 1] - dep[k]
                    f = [(d['W'][k, j + 1, i + 1] / dz, d['W'][k + 1, j + 1, i + 1] / dz), (d['V'][k + 1, j, i + 1] / dy, d['V'][k + 1, j + 1, i + 1] / dy),
                         (d['U'][k + 1, j + 1, i] / dx, d['U'][k + 1, j + 1, i + 1] / dx)]
                else:
                    f = [(d['V'][j, i + 1] / dy, d['V'][j + 1, i + 1] / dy), (d['U'][j + 1, i] / dx, d['U'][j + 1, i + 1] / dx)]
                return [(sgn * float(a), sgn * float(b)) for a, b in f]
            cells = list(itertools.product(*[range(len(a) - 1) for a in ax]))
            for dt, run in ((1., 1.), (1., 4.), (.25, 1.), (10., 4.)):
                if not ctx.case(dict(unit, steady=steady, pattern=pattern, sgn=sgn, dt=dt, run=run)):
                    continue
                pts, want = [], []
                for c, fr in itertools.product(cells, ((.5, .5, .5), (.25, .75, .125))):
                    p = [a[i] * (1 - f) + a[i + 1] * f for a, i, f in zip(ax, c, fr)]
                    e = exact(ax, c, F, p, run)
                    if e is None:
                        continue
                    pts.append(p)
                    want.append(e)
                if ctx.tier == 'quick' and w:
                    pts, want = pts[::4], want[::4]
                if not pts:
                    continue
                ps = ParticleSet(fs, pclass=pclass('scipy', name='VP23an'), lon=[p[-1] for p in pts], lat=[p[-2] for p in pts], depth=[p[0] if w else 0. for p in pts],
                                 time=[0.] * len(pts), lonlatdepth_dtype=np.float64)
                err, got = None, []
                try:
                    ps.execute(AdvectionAnalytical, runtime=run, dt=sgn * dt if not True else sgn * np.inf)
                    got = [([float(p.depth)] if w else []) + [float(p.lat), float(p.lon)] for p in ps]
                except Exception as ex:
                    err = repr(ex)
                ctx.expect(err is None and all(close(g, q, 2e-5) for g, q in zip(got, want)), 'analytical %s' % dict(unit, steady=steady, pattern=pattern, sgn=sgn, run=run),
                           lambda: 'error %s; worst %s' % (err, sorted((max(abs(a - b) for a, b in zip(g, q)), p, g, q) for p, g, q in zip(pts, got, want))[-1:]))
                ctx.step(len(pts))
                ctx.trace()
                ctx.outcome('analytical')
                ctx.distinct((unit['grid'], w, steady, pattern, sgn, dt, run))
    ctx.sample(unit)


def run_diffusion(unit, ctx):
    mode = unit['mode']
    for mesh, kind, dres in itertools.product(('flat', 'spherical'), ('steady', 'unsteady'), (.125, .01)):
        m = 1. if mesh == 'flat' else D2M
        lon, lat = np.array([0., 1., 2.5, 3.5, 5., 6.], dtype=np.float32), np.array([40., 41., 42., 43.5, 45.], dtype=np.float32)
        extra = []
        for i, n in enumerate(('Kh_zonal', 'Kh_meridional')):
            kh = (np.abs(vals((5, 5, 6) if kind == 'unsteady' else (5, 6), 50 + i, .01)) + .002) * m * m
            tm = {'time': TIMES} if kind == 'unsteady' else {}
            extra.append(Field(n, kh.astype(np.float32), lon=lon, lat=lat, mesh=mesh, **tm))
        fs, pts = world(kind, mesh, extra)
        fs.add_constant('dres', dres)
        cache = KernelCache()

        def K(n, t, y, x):
            f = getattr(fs, n)
            return float(f.eval(t, 0., y, x))
        for (name, kernel), dt, seed, n in itertools.product((('M1', AdvectionDiffusionM1), ('EM', AdvectionDiffusionEM), ('uniform', DiffusionUniformKh)), (1., .25, -1.), (1, 7), (1, 3)):
            if not ctx.case(dict(unit, mesh=mesh, field=kind, dres=dres, kernel=name, dt=dt, seed=seed, n=n)):
                continue
            t0 = 10.
            ParcelsRandom.seed(seed)
            want = []
            for (z, y, x) in pts:
                for k in range(n):
                    t = t0 + k * dt
                    wx = ParcelsRandom.normalvariate(0, math.sqrt(abs(dt)))
                    wy = ParcelsRandom.normalvariate(0, math.sqrt(abs(dt)))
                    bx, by = math.sqrt(2 * K('Kh_zonal', t, y, x)), math.sqrt(2 * K('Kh_meridional', t, y, x))
                    if name == 'uniform':
                        x, y = x + bx * wx, y + by * wy
                        continue
                    gx = (K('Kh_zonal', t, y, x + dres) - K('Kh_zonal', t, y, x - dres)) / (2 * dres)
                    gy = (K('Kh_meridional', t, y + dres, x) - K('Kh_meridional', t, y - dres, x)) / (2 * dres)
                    # sampled on their own, both components in degrees per second
                    u, v = float(fs.U.eval(t, 0., y, x)), float(fs.V.eval(t, 0., y, x))
                    if name == 'EM':
                        x, y = x + (u + gx) * dt + bx * wx, y + (v + gy) * dt + by * wy
                    else:
                        x, y = x + u * dt + .5 * gx * (wx**2 + dt) + bx * wx, y + v * dt + .5 * gy * (wy**2 + dt) + by * wy
                want.append((y, x))
            ps = ParticleSet(fs, pclass=pclass(mode, name='VP23d' + mode), lon=[p[2] for p in pts], lat=[p[1] for p in pts], time=[t0] * len(pts), lonlatdepth_dtype=np.float64)
            err, got = None, []
            try:
                ParcelsRandom.seed(seed)
                cache.execute(name, ps, kernel, runtime=n * abs(dt), dt=dt)
                got = [(float(p.lat), float(p.lon)) for p in ps]
            except Exception as e:
                err = repr(e)
            tol = 2e-5 * (1 if dres > .1 else 10) if mode == 'jit' else 2e-6
            ctx.expect(err is None and len(got) == len(want) and all(close(g, w, tol) for g, w in zip(got, want)), 'diffusion %s %s %s %s dt=%s dres=%s n=%s' % (name, kind, mesh, mode, dt, dres, n),
                       lambda: 'error %s; worst %s' % (err, sorted((max(abs(a - b) for a, b in zip(g, w)), p, g, w) for p, g, w in zip(pts, got, want))[-1:]))
            ctx.step(n * len(pts))
            ctx.trace()
            ctx.outcome('diffusion')
            ctx.distinct((mode, mesh, kind, dres, name, dt, seed, n))
    ctx.sample(unit)


# ------------------------------------------------------------------------------------------- sea water
def poly(x, c):
    return sum(ci * x ** i for i, ci in enumerate(c))


def unesco(s, t, p):
    """International equation of state of sea water 1980, p in bar."""
    w = poly(t, [999.842594, 6.793952e-2, -9.095290e-3, 1.001685e-4, -1.120083e-6, 6.536332e-9])
    r0 = w + poly(t, [8.24493e-1, -4.0899e-3, 7.6438e-5, -8.2467e-7, 5.3875e-9]) * s + poly(t, [-5.72466e-3, 1.0227e-4, -1.6546e-6]) * s**1.5 + 4.8314e-4 * s**2
    kw = poly(t, [19652.21, 148.4206, -2.327105, 1.360477e-2, -5.155288e-5])
    k0 = kw + poly(t, [54.6746, -.603459, 1.09987e-2, -6.1670e-5]) * s + poly(t, [7.944e-2, 1.6483e-2, -5.3009e-4]) * s**1.5
    a = poly(t, [3.239908, 1.43713e-3, 1.16092e-4, -5.77905e-7]) + poly(t, [2.2838e-3, -1.0981e-5, -1.6078e-6]) * s + 1.91075e-4 * s**1.5
    b = poly(t, [8.50935e-5, -6.12293e-6, 5.2787e-8]) + poly(t, [-9.9348e-7, 2.0816e-8, 9.1697e-10]) * s
    k = k0 + a * p + b * p**2
    return r0 / (1 - p / k)


def adtg(s, t68, p):
    return (poly(t68, [3.5803e-5, 8.5258e-6, -6.836e-8, 6.6228e-10]) + poly(t68, [1.8932e-6, -4.2393e-8]) * (s - 35)
            + (poly(t68, [1.8741e-8, -6.7795e-10, 8.733e-12, -5.4481e-14]) + poly(t68, [-1.1351e-10, 2.7759e-12]) * (s - 35)) * p
            + poly(t68, [-4.6206e-13, 1.8676e-14, -2.1687e-16]) * p * p)


def theta(s, t, p, pr):
    """Temperature after moving adiabatically from p to pr: the ordinary differential equation, integrated in small steps."""
    x, n = t * 1.00024, 64
    h = (pr - p) / n
    for i in range(n):
        q = p + i * h
        k1 = adtg(s, x, q)
        k2 = adtg(s, x + h / 2 * k1, q + h / 2)
        k3 = adtg(s, x + h / 2 * k2, q + h / 2)
        k4 = adtg(s, x + h * k3, q + h)
        x += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return x / 1.00024


def pressure(lat, z):
    c1 = 5.92e-3 + math.sin(abs(math.radians(lat)))**2 * 5.25e-3
    return ((1 - c1) - math.sqrt((1 - c1)**2 - 8.84e-6 * z)) / 4.42e-6


TEOS = {(0, 0, 0): 8.0189615746e+02, (1, 0, 0): 8.6672408165e+02, (2, 0, 0): -1.7864682637e+03, (3, 0, 0): 2.0375295546e+03, (4, 0, 0): -1.2849161071e+03,
        (5, 0, 0): 4.3227585684e+02, (6, 0, 0): -6.0579916612e+01, (0, 1, 0): 2.6010145068e+01, (1, 1, 0): -6.5281885265e+01, (2, 1, 0): 8.1770425108e+01,
        (3, 1, 0): -5.6888046321e+01, (4, 1, 0): 1.7681814114e+01, (5, 1, 0): -1.9193502195e+00, (0, 2, 0): -3.7074170417e+01, (1, 2, 0): 6.1548258127e+01,
        (2, 2, 0): -6.0362551501e+01, (3, 2, 0): 2.9130021253e+01, (4, 2, 0): -5.4723692739e+00, (0, 3, 0): 2.1661789529e+01, (1, 3, 0): -3.3449108469e+01,
        (2, 3, 0): 1.9717078466e+01, (3, 3, 0): -3.1742946532e+00, (0, 4, 0): -8.3627885467e+00, (1, 4, 0): 1.1311538584e+01, (2, 4, 0): -5.3563304045e+00,
        (0, 5, 0): 5.4048723791e-01, (1, 5, 0): 4.8169980163e-01, (0, 6, 0): -1.9083568888e-01, (0, 0, 1): 1.9681925209e+01, (1, 0, 1): -4.2549998214e+01,
        (2, 0, 1): 5.0774768218e+01, (3, 0, 1): -3.0938076334e+01, (4, 0, 1): 6.6051753097e+00, (0, 1, 1): -1.3336301113e+01, (1, 1, 1): -4.4870114575e+00,
        (2, 1, 1): 5.0042598061e+00, (3, 1, 1): -6.5399043664e-01, (0, 2, 1): 6.7080479603e+00, (1, 2, 1): 3.5063081279e+00, (2, 2, 1): -1.8795372996e+00,
        (0, 3, 1): -2.4649669534e+00, (1, 3, 1): -5.5077101279e-01, (0, 4, 1): 5.5927935970e-01, (0, 0, 2): 2.0660924175e+00, (1, 0, 2): -4.9527603989e+00,
        (2, 0, 2): 2.5019633244e+00, (0, 1, 2): 2.0564311499e+00, (1, 1, 2): -2.1311365518e-01, (0, 2, 2): -1.2419983026e+00, (0, 0, 3): -2.3342758797e-02,
        (1, 0, 3): -1.8507636718e-02, (0, 1, 3): 3.7969820455e-01}


def teos(sa, ct, z):
    s, t, h = math.sqrt((sa + 32) / (40 * 35.16504 / 35)), ct / 40., z / 1e4
    return sum(r * s**i * t**j * h**k for (i, j, k), r in TEOS.items())


def run_water(unit, ctx):
    mode = unit['mode']
    S, T, P = (0., 10., 30., 35., 40.), (-1., 0., 5., 10., 25., 40.), (0., 100., 1000., 4000., 10000.)
    # the formulas above at their published check values
    ctx.expect(abs(teos(30., 10., 1000.) - 1022.85377) < 1e-4 and abs(unesco(35., 25., 1000.) - 1062.53817) < 1e-4 and abs(theta(40., 40. / 1.00024, 10000., 0.) * 1.00024 - 36.89073) < 1e-4 and
               abs(adtg(40., 40., 10000.) - 3.255976e-4) < 1e-9 and abs(pressure(30., 7321.45) - 7500.004) < 1e-2, 'check values', lambda: 'the reference formulas are wrong')
    lon, lat = np.arange(len(T), dtype=np.float32), np.arange(len(S), dtype=np.float32)
    sal, tem = np.repeat(np.array(S, np.float32)[:, None], len(T), 1), np.repeat(np.array(T, np.float32)[None], len(S), 0)
    cache, fs = KernelCache(), {}
    for pr in (0., 500.):
        f = FieldSet.from_data({'U': sal * 0, 'V': sal * 0, 'abs_salinity': sal, 'psu_salinity': sal, 'cons_temperature': tem, 'temperature': tem, 'potemperature': tem},
                               {'lon': lon, 'lat': lat}, mesh='flat')
        f.add_field(Field('cons_pressure', np.ones((len(P), len(S), len(T)), np.float32) * np.array(P, np.float32)[:, None, None] / 10, lon=lon, lat=lat,
                          depth=np.array(P, np.float32), mesh='flat'))
        f.add_constant('refpressure', pr)
        fs[pr] = f
    kern = {'teos': (PolyTEOS10_bsq, lambda s, t, p, r: teos(s, t, p), 'density', 2e-3), 'unesco': (UNESCODensity, lambda s, t, p, r: unesco(s, t, p / 10.), 'density', 5e-3),
            'adtg': (AdiabticTemperatureGradient, lambda s, t, p, r: adtg(s, t * 1.00024, p), 'adtg', 1e-9), 'ptemp': (PtempFromTemp, lambda s, t, p, r: theta(s, t, p, r), 'potemp', 2e-4),
            'temp': (TempFromPtemp, lambda s, t, p, r: theta(s, t, r, p), 'temp', 2e-4), 'pressure': (PressureFromLatDepth, None, 'pressure', 2e-2)}
    for name, (kernel, spec, var, tol) in kern.items():
        tol *= 1 if mode == 'scipy' else 4
        for pr in (0., 500.) if name.endswith('temp') else (0.,):
            for i, j in itertools.product(range(len(S)), range(len(T))) if name != 'pressure' else ((0, 0),):
                if not ctx.case(dict(unit, kernel=name, refpressure=pr, s=S[i], t=T[j])):
                    continue
                kw, ini = dict(lon=[float(j)] * len(P), lat=[float(i)] * len(P), depth=list(P)), {}
                if name == 'pressure':
                    rows = [(la, z) for la in (-90., -45., -10., 0., 10., 30., 60., 90.) for z in (0., 10., 500., 1000., 7321.45, 10000.)]
                    want = [pressure(la, z) for la, z in rows]
                    kw = dict(lon=[.5] * len(rows), lat=[r[0] for r in rows], depth=[r[1] for r in rows])
                else:
                    want = [spec(S[i], T[j], p, pr) for p in P]
                    ini = {'S': [S[i]] * len(P), 'T': [T[j]] * len(P)}
                    if var != 'density':
                        ini['pressure'] = list(P)
                ps = ParticleSet(fs[pr], pclass=pclass(mode, [(var, np.float64, 0.)] + [(k, np.float64, 0.) for k in ini if k != var], name='VP23w' + mode),
                                 lonlatdepth_dtype=np.float64, time=[0.] * len(kw['lon']), **kw, **ini)
                err, got = None, []
                try:
                    cache.execute((name, pr), ps, kernel, runtime=1, dt=1)
                    got = [float(getattr(p, var)) for p in ps]
                except Exception as e:
                    err = repr(e)
                ctx.expect(err is None and len(got) == len(want) and all(abs(g - w) <= tol for g, w in zip(got, want)), 'water %s S=%s T=%s to %s' % (name, S[i], T[j], pr),
                           lambda: 'error %s expected %s got %s' % (err, want, got))
                ctx.step(len(want))
                ctx.trace()
                ctx.outcome('water')
                ctx.distinct((mode, name, i, j, pr))
    ctx.sample(unit)
