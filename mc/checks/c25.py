"""C25: particles are released where asked, and counted in the cells where they are."""
import itertools
import math

import numpy as np

from pk import MODES, FieldSet, KernelCache, ParticleSet, func, pclass
from parcels import Field

ID = 'C25'
LEVEL = 'model_checking'
RULE = ('(density) per grid kind and mode, every history of at most three of nine operations (runs that move particles after or before sampling, '
        'direct moves, deletions, late and repeated releases, additions) x field x weights x scaling on a set with a particle at every position of a lattice, '
        'counted before and between the operations and compared with a count by geometry; the same history without counting must give the same particles; '
        '(pairs) every ordered pair of positions in a set of two; (release) every mask of zero nodes or cells of a small field per grid kind: releases only in '
        'cells that are not zero, in each of them, with the frequency of its value; (line) all combinations of ends, size, depth, time; (forms) every form in '
        'which positions, times and values can be given; non-trivial: more than one operation, or a mask that is not full; distinct by case')
BOUNDS = '6 grid kinds, 3 x 4 nodes, 37 positions, histories up to length 2 (thorough: 3), all masks of 3 x 3 nodes (thorough: 3 x 4), 600 releases per mask'
ASSUMPTIONS = ['on an edge between cells a particle may be counted in any of them', 'frequencies of releases are checked to six standard deviations']

LON, LAT, DEP = [0., 1., 2.5, 3.], [0., 2., 3.], [0., 4., 6.]


def grid(kind):
    """lon, lat, depth (as given to from_data), mesh, and the corners of cell (j, i)."""
    lon, lat, dep, mesh = np.array(LON), np.array(LAT), None, 'flat'
    if kind == 'sph':
        lon, lat, mesh = lon + 10, lat + 40, 'spherical'
    elif kind == 'zlev':
        dep = np.array(DEP)
    elif kind == 'slev':
        dep = np.array(DEP)[:, None, None] * (1 + .1 * np.arange(3)[None, :, None] + .05 * np.arange(4)[None, None, :])
    elif kind in ('curv', 'cgrid'):
        lon, lat = np.meshgrid(lon, lat)
        lon, lat = lon + .2 * lat, lat - .1 * lon
    elif kind == 'anti':
        lon, lat = np.meshgrid(lon + 178.25, lat + 10)
        lon, lat = lon + .1 * (lat - 10), lat.copy()
        lon = np.where(lon > 180, lon - 360, lon)
        mesh = 'spherical'
    return lon, lat, dep, mesh


KINDS = ('rect', 'sph', 'zlev', 'slev', 'curv', 'anti', 'cgrid')
FR = [(xi, eta) for xi in (.25, .75) for eta in (.3, .8)]


def corners(kind, j, i):
    lon, lat, _, _ = grid(kind)
    if lon.ndim == 1:
        x = [lon[i], lon[i + 1], lon[i + 1], lon[i]]
        y = [lat[j], lat[j], lat[j + 1], lat[j + 1]]
    else:
        ix = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
        x = [lon[k] for k in ix]
        y = [lat[k] for k in ix]
    x = np.array(x, dtype=float)
    if kind == 'anti':
        x = np.where(x < 0, x + 360, x)
    return x, np.array(y, dtype=float)


def point(kind, j, i, xsi, eta):
    x, y = corners(kind, j, i)
    w = np.array([(1 - xsi) * (1 - eta), xsi * (1 - eta), xsi * eta, (1 - xsi) * eta])
    px, py = float(w @ x), float(w @ y)
    return (px - 360 if px > 180 else px), py


def positions(kind):
    """(lon, lat, allowed cells): interior of every cell, and the middle of every inner edge."""
    out = []
    for j in range(2):
        for i in range(3):
            for xsi, eta in FR:
                out.append(point(kind, j, i, xsi, eta) + ({(j, i)},))
            if i < 2:
                out.append(point(kind, j, i, 1., .5) + ({(j, i), (j, i + 1)},))
            if j < 1:
                out.append(point(kind, j, i, .5, 1.) + ({(j, i), (j + 1, i)},))
    return out


def where(kind, lon, lat):
    """Cells that contain a position (with a tolerance), by geometry."""
    out = set()
    x = lon + 360 if kind == 'anti' and lon < 0 else lon
    for j in range(2):
        for i in range(3):
            px, py = corners(kind, j, i)
            ok = True
            for a in range(4):
                b = (a + 1) % 4
                ex, ey = px[b] - px[a], py[b] - py[a]
                if (ex * (lat - py[a]) - ey * (x - px[a])) / math.hypot(ex, ey) < -2e-5 * max(1, abs(x) / 10):
                    ok = False
            if ok:
                out.add((j, i))
    return out


def fieldset(kind):
    lon, lat, dep, mesh = grid(kind)
    shape = (3, 4) if dep is None else (3, 3, 4)
    d = np.ones(shape, dtype=np.float32)
    dims = {'lon': lon, 'lat': lat}
    if dep is not None:
        dims['depth'] = dep
    if kind == 'cgrid':
        dims['depth'] = np.array(DEP)
        fs = FieldSet.from_data({'U': np.zeros((3, 3, 4), np.float32), 'V': np.zeros((3, 3, 4), np.float32)}, dims, mesh=mesh)
        for f in (fs.U, fs.V):
            f.interp_method = 'cgrid_velocity'
        fs.add_field(Field('P', np.ones((3, 3, 4), np.float32), lon=lon, lat=lat, depth=np.array(DEP), mesh=mesh, interp_method='cgrid_tracer'))
    else:
        fs = FieldSet.from_data({'U': d * 0, 'V': d * 0, 'P': d}, dims, mesh=mesh)
    # a field on another grid
    fs.add_field(Field('Q', np.ones((2, 2), np.float32), lon=np.array([-1000., 1000.], np.float32) if mesh == 'flat' else np.array([-180., 180.], np.float32),
                       lat=np.array([-90., 90.], np.float32), mesh=mesh))
    return fs


OPS = {
    'sm': 'run a kernel that samples P and then moves',
    'ms': 'run a kernel that moves and then samples P',
    'mv': 'run a kernel that moves only',
    'set': 'assign positions',
    'del': 'run a kernel that deletes a third',
    'add': 'add another set',
    'late': 'add particles released later',
    'zero': 'run of length zero',
    'rem': 'remove the second particle',
}
KER = {
    'sm': '    q = fieldset.P[time, particle.depth, particle.lat, particle.lon]\n    particle.w += q\n    lo = particle.lon\n    la = particle.lat\n    particle.lon = particle.tx\n    particle.lat = particle.ty\n    particle.tx = lo\n    particle.ty = la\n',
    'ms': '    lo = particle.lon\n    la = particle.lat\n    particle.lon = particle.tx\n    particle.lat = particle.ty\n    particle.tx = lo\n    particle.ty = la\n    q = fieldset.P[time, particle.depth, particle.lat, particle.lon]\n    particle.w += q\n',
    'mv': '    lo = particle.lon\n    la = particle.lat\n    particle.lon = particle.tx\n    particle.lat = particle.ty\n    particle.tx = lo\n    particle.ty = la\n',
    'del': '    particle.age += 1\n    if particle.kk == 1:\n        particle.delete()\n    if particle.kk > 2.5 and particle.age > 1:\n        particle.delete()\n',
    'zero': '    particle.age += 1\n',
}
ALLV = ('id', 'lon', 'lat', 'depth', 'time', 'dt', 'w', 'tx', 'ty', 'kk', 'age')


class World(object):
    def __init__(self, kind, mode, repeat, cache, fs):
        self.kind, self.mode, self.cache, self.fs = kind, mode, cache, fs
        vs = [('w', np.float32, 1.), ('tx', np.float32, 0.), ('ty', np.float32, 0.), ('kk', np.float32, 0.), ('age', np.float32, 0.)]
        self.P = pclass(mode, vs, name='VP25' + mode)
        pos = positions(kind)
        self.base = pos
        self.pset = self.new(range(len(pos)), repeatdt=100. if repeat else None)

    def new(self, idx, time=0., **kw):
        p = self.base
        n = len(p)
        idx = list(idx)
        dep = 1. if self.kind in ('zlev', 'slev', 'cgrid') else 0.
        return ParticleSet(self.fs, pclass=self.P, lon=[p[i][0] for i in idx], lat=[p[i][1] for i in idx], depth=[dep] * len(idx), time=[time] * len(idx),
                           tx=[p[(i * 5 + 7) % n][0] for i in idx], ty=[p[(i * 5 + 7) % n][1] for i in idx], w=[1 + i % 4 for i in idx], kk=[i % 4 for i in idx], **kw)

    def run(self, op, **kw):
        self.cache.execute((self.mode, op, self.kind), self.pset, func('def K(particle, fieldset, time):\n' + KER[op], 'K'), **kw)

    def do(self, op):
        if op in ('sm', 'ms', 'mv', 'del'):
            self.run(op, runtime=50., dt=50.)
        elif op == 'zero':
            self.run(op, runtime=0., dt=50.)
        elif op == 'set':
            for k, p in enumerate(self.pset):
                b = self.base[(k * 3 + 1) % len(self.base)]
                p.lon, p.lat = b[0], b[1]
        elif op == 'add':
            self.pset.add(self.new((0, 3, 7), time=float(max([p.time for p in self.pset]))))
        elif op == 'late':
            self.pset.add(self.new((2, 9, 11), time=1000.))
        elif op == 'rem':
            self.pset.remove_indices([1])

    def snapshot(self):
        base = min(p.id for p in self.pset) if self.pset.size else 0
        return [tuple((float(getattr(p, v)) if v != 'id' else int(p.id - base)) for v in ALLV) for p in self.pset]


FORMS = [(None, None), ('P', None), ('P', 'w'), ('Q', 'w'), ('P', 'list'), ('P', 'array'), (None, 'array'), ('P', 'zeros')]


def areas(kind):
    lon, lat, _, mesh = grid(kind)
    a = np.outer(np.gradient(lat), np.gradient(lon))
    if mesh == 'spherical':
        a = a * (1852 * 60.) ** 2 * np.cos(np.radians(lat))[:, None]
    return a


def count(ctx, w, form, relative, area, desc):
    """One call of density, compared with the count by geometry."""
    field, pv = form
    ps = w.pset
    n = ps.size
    wt = {None: [1.] * n, 'w': [float(p.w) for p in ps], 'list': [float(k % 3 + 1) for k in range(n)], 'array': [float(k % 5) + .5 for k in range(n)], 'zeros': [0., 2.] * n}[pv][:n]
    arg = {None: None, 'w': 'w', 'list': list(wt), 'array': np.array(wt), 'zeros': np.array(wt)}[pv]
    kw = {}
    if field is not None:
        kw['field_name'] = field
    if arg is not None:
        kw['particle_val'] = arg
    if relative:
        kw['relative'] = True
    if area:
        kw['area_scale'] = True
    sig = '%s %s %s form=%s rel=%s area=%s' % (w.kind, w.mode, desc, form, relative, area)
    before = w.snapshot()
    try:
        d = np.array(ps.density(**kw), dtype=float)
    except Exception as e:
        ctx.violate(sig, 'density raised %s: %s' % (type(e).__name__, str(e)[:150]))
        return
    ctx.step()
    after = w.snapshot()
    if before != after:
        ctx.violate(sig, 'counting changed the particle set: %d particles before, %d after%s' % (len(before), len(after), ', first difference %s -> %s' % next(((a, b) for a, b in zip(before, after) if a != b), ('', ''))))
        return
    shape = (2, 2) if field == 'Q' else (3, 4)
    if d.shape != shape:
        ctx.violate(sig, 'density has shape %s on a grid of %s nodes' % (d.shape, shape))
        return
    exp = np.zeros(shape)
    free = []
    for b, v in zip(before, wt):
        cells = {(0, 0)} if field == 'Q' else where(w.kind, b[1], b[2])
        if len(cells) == 1:
            exp[cells.pop()] += v
        elif v:
            free.append((cells, v))
    if relative:
        d = d * sum(wt)
    if area:
        d = d * areas(w.kind)
    rest = d - exp
    tol = 1e-4 * (1 + exp)
    bad = (rest < -tol).any() or abs(rest.sum() - sum(v for _, v in free)) > 1e-3 * (1 + sum(wt)) or \
        (rest > tol + sum_allowed(free, shape)).any()
    if bad:
        ctx.violate(sig, 'density %s, but the particles are %s%s' % (np.round(d, 3).tolist(), exp.tolist(), (' and on edges %s' % free) if free else ''))


def sum_allowed(free, shape):
    a = np.zeros(shape)
    for cells, v in free:
        for c in cells:
            a[c] += v
    return a


def histories(tier):
    n = 2 if tier == 'quick' else 3
    out = []
    for k in range(0, n + 1):
        out += list(itertools.product(sorted(OPS), repeat=k))
    return out


def run_density(unit, ctx):
    kind, mode = unit['grid'], unit['mode']
    cache = KernelCache()
    fs = fieldset(kind)
    hs = histories(unit['tier'])
    for ih, hist in enumerate(hs):
        if hist and OPS and hist[0] not in unit['first']:
            continue
        if not hist and unit['first'][0] != sorted(OPS)[0]:
            continue
        reps = (False, True) if len(hist) <= 1 else (False,)
        for rep in reps:
            nf = len(FORMS)
            desc = '%s%s' % ('-'.join(hist) or 'fresh', ' repeatdt' if rep else '')
            if not ctx.case({'h': desc}):
                continue
            w = World(kind, mode, rep, cache, fs)
            if len(hist) <= 1:
                forms = [(f, r, a) for f in FORMS for r in (False, True) for a in (False, True)]
            else:
                forms = [(FORMS[(ih + k) % nf], (ih + k) % 5 == 0, (ih + k) % 3 == 0) for k in range(2)]
            forms = [(f, r, a and kind in ('rect', 'sph', 'zlev') and f[0] == 'P') for f, r, a in forms]
            try:
                for f, r, a in forms:
                    count(ctx, w, f, r, a, desc + ' @start')
                for k, op in enumerate(hist):
                    w.do(op)
                    for f, r, a in forms:
                        count(ctx, w, f, r, a, desc + ' @%d' % (k + 1))
                w.run('mv', runtime=150., dt=50.)
                got = w.snapshot()
                ref = World(kind, mode, rep, cache, fs)
                for op in hist:
                    ref.do(op)
                ref.run('mv', runtime=150., dt=50.)
                exp = ref.snapshot()
            except Exception as e:
                ctx.violate('%s %s %s' % (kind, mode, desc), 'the history raised %s: %s' % (type(e).__name__, str(e)[:200]))
                continue
            ctx.trace()
            if len(hist) > 1:
                ctx.distinct((kind, mode, hist))
            ctx.outcome('history')
            if got != exp:
                ctx.violate('%s %s %s' % (kind, mode, desc), 'the run after counting differs from the run without: %d and %d particles, first difference %s' % (
                    len(got), len(exp), next(((a, b) for a, b in zip(got, exp) if a != b), '')))


def run_pairs(unit, ctx):
    kind, mode = unit['grid'], unit['mode']
    fs = fieldset(kind)
    P = pclass(mode, [('w', np.float32, 1.)], name='VP25' + mode)
    pos = positions(kind)
    dep = 1. if kind in ('zlev', 'slev', 'cgrid') else 0.
    w = World.__new__(World)
    w.kind, w.mode = kind, mode
    for a in pos:
        for b in pos:
            if not ctx.case({'a': a[:2], 'b': b[:2]}):
                continue
            ps = ParticleSet(fs, pclass=P, lon=[a[0], b[0]], lat=[a[1], b[1]], depth=[dep] * 2, w=[1., 4.])
            d = np.array(ps.density('P', particle_val='w'), dtype=float)
            ctx.step()
            ctx.distinct((kind, mode, a[:2], b[:2]))
            ok = d.shape == (3, 4) and any(
                abs(d[ca] - (5 if ca == cb else 1)) < 1e-6 and abs(d[cb] - (5 if ca == cb else 4)) < 1e-6 for ca in where(kind, float(ps[0].lon), a[1]) for cb in where(kind, float(ps[1].lon), b[1])) \
                and abs(d.sum() - 5) < 1e-6
            ctx.expect(ok, '%s %s pair %s %s' % (kind, mode, a[:2], b[:2]), lambda: 'density %s' % d.tolist())


def run_release(unit, ctx):
    """start_field: every pattern of zeros"""
    kind, method = unit['grid'], unit['method']
    lon, lat, _, mesh = grid(kind)
    small = unit['tier'] == 'quick'
    ny, nx = 3, 3 if small else 4
    if lon.ndim == 1:
        lon = lon[:nx]
    else:
        lon, lat = lon[:, :nx], lat[:, :nx]
    P = pclass(unit['mode'], name='VP25r' + unit['mode'])
    fs = FieldSet.from_data({'U': np.zeros((ny, nx), np.float32), 'V': np.zeros((ny, nx), np.float32)}, {'lon': lon, 'lat': lat}, mesh=mesh)
    val = np.array([[1., 2., 5., 1.], [3., 1., 2., 4.], [2., 6., 1., 2.]], dtype=np.float32)[:, :nx]
    N = 600
    ncell = (ny - 1) * (nx - 1)
    masks = itertools.product((0, 1), repeat=ny * nx if method == 'linear' else ncell)
    spread = []
    for im, m in enumerate(masks):
        d = val.copy()
        if method == 'linear':
            d = d * np.array(m, dtype=np.float32).reshape(ny, nx)
            c = np.array([[0. if 0 in (d[j, i], d[j, i + 1], d[j + 1, i], d[j + 1, i + 1]) else d[j:j + 2, i:i + 2].mean() for i in range(nx - 1)] for j in range(ny - 1)])
        else:
            d[1:, 1:] *= np.array(m, dtype=np.float32).reshape(ny - 1, nx - 1)
            c = d[1:, 1:].astype(float)
        if not c.any():
            continue
        if not ctx.case({'mask': m}):
            continue
        np.random.seed(im)
        f = Field('S', d, lon=lon.astype(np.float32), lat=lat.astype(np.float32), mesh=mesh, interp_method=method)
        ps = ParticleSet.from_field(fs, pclass=P, start_field=f, size=N, time=0., lonlatdepth_dtype=np.float64, **({'depth': [0.] * N} if im % 2 else {}))
        sig = '%s %s %s mask=%s' % (kind, unit['mode'], method, ''.join(map(str, m)))
        ctx.step()
        ctx.distinct(sig)
        if not ctx.expect(ps.size == N, sig, lambda: '%d particles instead of %d' % (ps.size, N)):
            continue
        num = np.zeros(c.shape)
        bad = None
        for p in ps:
            x, y = float(p.lon), float(p.lat)
            cells = [q for q in where(kind, x, y) if q[1] < nx - 1]
            inside = [q for q in cells if c[q] > 0]
            if not inside:
                bad = (x, y, cells)
                break
            num[inside[0]] += 1
            if lon.ndim == 1:
                j, i = inside[0]
                spread.append(((x - lon[i]) / (lon[i + 1] - lon[i]), (y - lat[j]) / (lat[j + 1] - lat[j])))
        if bad is not None:
            ctx.violate(sig, 'a particle is released at (%.4f, %.4f), in cell %s, whose value is zero; cell values %s' % (bad + (c.tolist(),)))
            continue
        pr = c / c.sum()
        dev = np.abs(num - N * pr) > 6 * np.sqrt(N * pr * (1 - pr)) + 2
        ctx.expect(not dev.any(), sig, lambda: 'releases per cell %s, expected %s' % (num.tolist(), (N * pr).round(1).tolist()))
    if spread:
        s = np.array(spread)
        n = len(s)
        for k, name in ((0, 'longitude'), (1, 'latitude')):
            ctx.expect(abs(s[:, k].mean() - .5) < 6 * math.sqrt(1 / 12. / n) and abs(s[:, k].var() - 1 / 12.) < 6 * math.sqrt(1 / 180. / n), '%s %s %s spread %s' % (kind, unit['mode'], method, name),
                       'releases are not spread evenly over the cells in %s: mean %.4f, variance %.4f' % (name, s[:, k].mean(), s[:, k].var()))


def run_line(unit, ctx):
    mode = unit['mode']
    fs = fieldset('zlev')
    P = pclass(mode, name='VP25l' + mode)
    pts = [(0., 0.), (3., 1.), (.5, 2.75), (2.25, .125)]
    for a, b, n, dep, tm, dt in itertools.product(pts, pts, (1, 2, 3, 7), (None, 2, 2.5, 'list'), (None, 0., 'list'), (None, np.float32, np.float64)):
        if not ctx.case({'a': a, 'b': b, 'n': n, 'depth': dep, 'time': tm, 'dtype': str(dt)}):
            continue
        ds = [.5 * k for k in range(n)] if dep == 'list' else dep
        ts = [3. * k for k in range(n)] if tm == 'list' else tm
        ps = ParticleSet.from_line(fs, pclass=P, start=a, finish=b, size=n, depth=ds, time=ts, lonlatdepth_dtype=dt)
        ctx.step()
        ctx.distinct((mode, a, b, n, dep, tm, str(dt)))
        ed = ds if dep == 'list' else [0. if dep is None else float(dep)] * n
        et = ts if tm == 'list' else [tm] * n
        exp = []
        for k in range(n):
            r = k / (n - 1.) if n > 1 else 0.
            exp.append((a[0] + r * (b[0] - a[0]), a[1] + r * (b[1] - a[1]), ed[k], et[k]))
        got = [(float(p.lon), float(p.lat), float(p.depth), float(p.time)) for p in ps]
        ok = len(got) == n and all(abs(g[q] - e[q]) < 1e-6 for g, e in zip(got, exp) for q in (0, 1, 2)) and all(e[3] is None or g[3] == e[3] for g, e in zip(got, exp))
        if tm is None and ok:   # the time is set when the run starts
            ok = all(math.isnan(g[3]) for g in got)
        ctx.expect(ok, '%s line %s %s n=%d depth=%s time=%s %s' % (mode, a, b, n, dep, tm, dt), lambda: 'particles %s, expected %s' % (got, exp))


def give(form, vals):
    n = len(vals)
    if form == 'list':
        return list(vals)
    if form == 'array64':
        return np.array(vals, dtype=np.float64)
    if form == 'array32':
        return np.array(vals, dtype=np.float32)
    if form == 'array2d':
        return np.array(vals, dtype=np.float64).reshape(2, n // 2)
    if form == 'transposed':
        return np.ascontiguousarray(np.array(vals).reshape(2, n // 2).T).T
    if form == 'strided':
        return np.repeat(np.array(vals, dtype=np.float64), 2)[::2]
    raise ValueError(form)


def run_forms(unit, ctx):
    mode = unit['mode']
    fs = fieldset('zlev')
    P = pclass(mode, [('w', np.float32, 1.5), ('k', np.int32, 2)], name='VP25f' + mode)
    X, Y, Z, T, W = [.25, .5, 1.25, 2.], [.5, 1.5, 2., .75], [0., 1., 2., 3.], [0., 5., 2., 7.], [3., 1., 4., 1.5]
    K = [7, 8, 9, 6]
    forms = ['list', 'array64', 'array32', 'array2d', 'transposed', 'strided']
    for fx, fy, fz, ft, fw, how in itertools.product(forms, forms, [None] + forms[:4], [None, 'scalar'] + forms[:3], [None, 'scalar', 'list', 'array64'], ('new', 'from_list')):
        if not ctx.case({'forms': (fx, fy, fz, ft, fw, how)}):
            continue
        kw = {}
        if fz:
            kw['depth'] = give(fz, Z)
        if ft:
            kw['time'] = 4. if ft == 'scalar' else give(ft, T)
        if fw == 'scalar':
            kw['w'], kw['k'] = [6.] * 4, [5] * 4
        elif fw:
            kw['w'], kw['k'] = give(fw, W), (list(K) if fw == 'list' else np.array(K))
        gx, gy = give(fx, X), give(fy, Y)
        keep = [np.array(v, copy=True) for v in (gx, gy)]
        sig = '%s %s x=%s y=%s z=%s t=%s v=%s' % (mode, how, fx, fy, fz, ft, fw)
        try:
            ps = (ParticleSet if how == 'new' else ParticleSet.from_list)(fs, P, lon=gx, lat=gy, lonlatdepth_dtype=np.float64, **kw)
        except Exception as e:
            ctx.violate(sig, 'creating the set raised %s: %s' % (type(e).__name__, str(e)[:150]))
            continue
        ctx.step()
        ctx.distinct(sig)
        exp = [(X[i], Y[i], Z[i] if fz else 0., None if ft is None else 4. if ft == 'scalar' else T[i],
                1.5 if fw is None else 6. if fw == 'scalar' else W[i], 2 if fw is None else 5 if fw == 'scalar' else K[i]) for i in range(4)]
        got = [(float(p.lon), float(p.lat), float(p.depth), float(p.time), float(p.w), int(p.k)) for p in ps]
        ok = len(got) == 4 and all(all(e[q] is None or g[q] == e[q] for q in range(6)) for g, e in zip(got, exp))
        ctx.expect(ok, sig, lambda: 'particles %s, expected %s' % (got, exp))
        for p in ps:   # the set has values of its own
            p.lon += 1.
        ctx.expect(np.array_equal(keep[0], np.array(gx)) and np.array_equal(keep[1], np.array(gy)), sig + ' input', 'the given arrays were changed')


def units(tier):
    u = [{'kind': 'forms', 'mode': m} for m in MODES] + [{'kind': 'line', 'mode': m} for m in MODES]
    u += [{'kind': 'pairs', 'grid': g, 'mode': m} for g in KINDS for m in MODES]
    u += [{'kind': 'release', 'grid': g, 'mode': m, 'method': me, 'tier': tier} for g in ('rect', 'sph', 'curv', 'anti') for me in ('linear', 'cgrid_tracer') for m in (MODES if g == 'rect' else ('scipy',))]
    ops = sorted(OPS)
    for g in KINDS:
        for m in MODES:
            for k in range(0, len(ops), 3):
                u.append({'kind': 'density', 'grid': g, 'mode': m, 'first': ops[k:k + 3], 'tier': tier})
    return u


def run(unit, ctx):
    {'density': run_density, 'pairs': run_pairs, 'release': run_release, 'line': run_line, 'forms': run_forms}[unit['kind']](unit, ctx)
