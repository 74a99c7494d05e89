"""C14: restarting from an output file restores the particles and continues as the uninterrupted run."""
import itertools
import os
from datetime import timedelta

import cftime
import numpy as np
import xarray as xr

from pk import MODES, FieldSet, KernelCache, ParticleSet, func, pclass

ID = 'C14'
LEVEL = 'model_checking'
RULE = ('every release pattern x deletion pattern x output interval x direction x time origin x mode; for each, every written time '
        'requested in every form, with and without keeping identifiers, and every division of the run into restarted parts '
        '(quick: up to two restarts), each compared with a model of the particles; non-trivial: file with more than one particle '
        'present; distinct by (configuration, request or division)')
BOUNDS = '3 particles, 4 written times, at most 4 parts, particle variables of 6 kinds'
ASSUMPTIONS = ['a particle deleted exactly at the requested time is in the file as any other: not distinguished']

DT = .5
N = 4        # output intervals
RELEASES = {'all': (0., 0., 0.), 'late': (0., 1.5, 3.), 'order': (2., 0., 0.), 'half': (.5, 0., 1.)}
KILLS = {'none': (99, 99, 99), 'first': (1, 99, 99), 'last': (99, 99, 5), 'two': (99, 7, 3), 'all': (1, 3, 5)}
SRC = """
def step(particle, fieldset, time):
    particle.lon += 0.25
    particle.lat += 0.0625 * particle.key
    particle.depth += 0.5
    particle.n += 1
    particle.d = 0.5 * particle.d + particle.lon
    particle.f = 0.75 * particle.f + 0.1 * particle.n
    particle.tmp += 1.
    if particle.n >= particle.kill:
        particle.delete()
"""
VARS = [('n', np.int32, 0), ('d', np.float64, 1.), ('f', np.float32, 2.), ('key', np.int32, 0, 'once'), ('kill', np.float32, 99, 'once'),
        ('tmp', np.float32, 0., False), ('big', np.int64, 0)]
BIG = 2 ** 40 + 3


def fieldset(origin):
    g = np.arange(4, dtype=np.float32)
    days = 40
    if origin == 'none':
        t = np.array([-86400. * days, 86400. * days])
        d = np.zeros((2, 4, 4), dtype=np.float32)
        return FieldSet.from_data({'U': d, 'V': d.copy()}, {'lon': g, 'lat': g, 'time': t}, mesh='flat'), 0.
    if origin == 'date':
        t = np.datetime64('2000-02-28T12:00:00') + np.array([0, 2 * days]) * np.timedelta64(86400, 's')
        d = np.zeros((2, 4, 4), dtype=np.float32)
        return FieldSet.from_data({'U': d, 'V': d.copy()}, {'lon': g, 'lat': g, 'time': t}, mesh='flat'), 86400. * days
    cls = {'noleap': cftime.DatetimeNoLeap, '360': cftime.Datetime360Day}[origin]
    t = np.array([cls(2000, 2, 28), cls(2000, 2, 28) + timedelta(days=2 * days)])
    ds = xr.Dataset({n: (('time', 'lat', 'lon'), np.zeros((2, 4, 4), dtype=np.float32)) for n in 'UV'}, coords={'time': t, 'lat': g, 'lon': g})
    return FieldSet.from_xarray_dataset(ds, {'U': 'U', 'V': 'V'}, {'lon': 'lon', 'lat': 'lat', 'time': 'time'}, mesh='flat'), 86400. * days


class World(object):
    def __init__(self, unit):
        self.mode, self.sgn, self.origin = unit['mode'], unit['sgn'], unit['origin']
        self.dtype = np.float64 if unit['dtype'] == 64 else np.float32
        self.fs, self.t0 = fieldset(self.origin)
        self.P = pclass(self.mode, VARS, name='VP14%s%s' % (self.mode, self.origin))
        self.step = func(SRC, 'step')
        self.cache = KernelCache()

    def start(self, rel, kill):
        P = self.P
        n = len(rel)
        return ParticleSet(self.fs, pclass=P, lon=[.5 + i for i in range(n)], lat=[.25 * i for i in range(n)], depth=[10. * i for i in range(n)],
                           time=[self.t0 + self.sgn * r for r in rel], key=list(range(n)), kill=list(kill), big=[BIG + i for i in range(n)],
                           lonlatdepth_dtype=self.dtype)

    def execute(self, ps, upto, path, odt):
        out = ps.ParticleFile(name=path, outputdt=odt)
        self.cache.execute('k', ps, self.step, endtime=self.t0 + self.sgn * upto, dt=self.sgn * DT, output_file=out)
        out.export()
        out.close()

    def snap(self, ps, ids=None):
        res = {}
        for p in ps:
            k = int(p.key)
            v = (round((float(p.time) - self.t0) * self.sgn, 6), float(p.lon), float(p.lat), float(p.depth), int(p.n), float(p.d), float(p.f), float(p.kill), int(p.big))
            if k in res:
                return 'twice %d' % k
            res[k] = v + ((int(p.id),) if ids else ())
        return res


def model(rel, kill, i, t, dtype):
    """Particle i at time t (after the start): values, or None when not yet released or deleted."""
    if rel[i] > t:
        return None
    n = int(round((t - rel[i]) / DT))
    if n >= kill[i]:
        return None
    lon, lat, dep, d, f = dtype(.5 + i), dtype(.25 * i), dtype(10. * i), 1., np.float32(2.)
    for k in range(1, n + 1):
        lon = dtype(lon + .25)
        lat = dtype(lat + .0625 * i)
        dep = dtype(dep + .5)
        d = .5 * d + float(lon)
        f = np.float32(.75 * float(f) + .1 * k)
    return (round(t, 6), float(lon), float(lat), float(dep), n, d, float(f), float(kill[i]), BIG + i)


def expected(rel, kill, t, dtype, who=None):
    out = {}
    for i in range(len(rel)):
        if who is not None and i not in who:
            continue
        m = model(rel, kill, i, t, dtype)
        if m is not None:
            out[i] = m
    return out


def same(got, want, ids=None):
    if isinstance(got, str) or set(got) != set(want):
        return False
    for k in want:
        g, w = got[k], want[k]
        if ids is not None:
            if g[-1] != ids[k]:
                return False
            g = g[:-1]
        if not np.allclose(g, w, rtol=1e-6, atol=1e-6) or abs(g[5] - w[5]) > 1e-12 * abs(w[5]) or g[8] != w[8]:
            return False
    return True


def ends(rel, kill, t):
    """A particle is deleted exactly at this time: the file holds its last observation at that time like any other."""
    return any(abs(r + k * DT - t) < 1e-9 for r, k in zip(rel, kill))


def units(tier):
    u = []
    for o in ('none', 'date', 'noleap', '360'):
        for m in MODES:
            for s in (1, -1):
                for dt in (64, 32):
                    if tier == 'quick' and (o in ('noleap', '360') and (dt == 32 or (m == 'jit' and o == '360'))):
                        continue
                    u.append({'origin': o, 'mode': m, 'sgn': s, 'dtype': dt})
    u += [{'origin': o, 'mode': m, 'sgn': s, 'dtype': 64, 'scale': c} for o in (('none', 'date') if tier == 'quick' else ('none', 'date', 'noleap')) for m in MODES for s in (1, -1) for c in (.1, .7, 86400 / 7.)]
    return u


def scaled(unit, w, ctx):
    """Times that are not representable: particles written together have times that differ by rounding."""
    c, sgn = unit['scale'], unit['sgn']
    step = func('def step(particle, fieldset, time):\n    particle.lon += 0.25\n    particle.n += 1\n', 'step')
    cache = KernelCache()
    for k, (off, d, o, n, rel) in enumerate(itertools.product((0., 1e6 + .1, -1e5 / 3), (1., .5), (1., 1.5, 2.), (3, 6), ((0, 0, 0, 0), (0, 1, 2, 0), (1, 0, .5, 1.5)))):
        if ctx.tier == 'quick' and (off < 0 or (d == 1. and rel[0])):
            continue
        if not ctx.case(dict(unit, off=off, dt=d, odt=o, n=n, rel=rel)):
            continue
        t0 = w.t0 + off
        ps = ParticleSet(w.fs, pclass=w.P, lon=[.5 + i for i in range(4)], lat=[.25] * 4, time=[t0 + sgn * c * r for r in rel], key=list(range(4)), lonlatdepth_dtype=np.float64)
        f = os.path.join(ctx.scratch, 'z%d.nc' % k)
        out = ps.ParticleFile(name=f, outputdt=o * c)
        nm = '%s %s off=%s dt=%s odt=%s n=%s rel=%s' % (w.mode, unit, off, d, o, n, rel)
        try:
            cache.execute('k', ps, step, runtime=n * c, dt=sgn * d * c, output_file=out)
            out.close()
        except Exception as e:
            ctx.violate(nm, 'run and export raised %r' % e)
            continue
        outs = sorted({min(r0 + j * o, r0 + n) for r0 in [min(rel)] for j in range(int(n / o) + 2) if j * o <= n} | {min(rel) + n})
        asks = [('default', None, outs[-1] if sgn > 0 else outs[0])]
        asks += [(str(g.__name__), g, outs[-1] if (g is np.nanmax) == (sgn > 0) else outs[0]) for g in (np.nanmax, np.nanmin)]
        if unit['origin'] == 'none':
            # the time asked for as a user would write it, or as it is in the file
            asks += [('seconds', t0 + sgn * q * c, q) for q in outs]
        for label, arg, q in asks:
            ctx.tick()
            ctx.step()
            want = sorted((i, sgn * c * q, int(round((q - r) / d))) for i, r in enumerate(rel) if r <= q)
            try:
                got = ParticleSet.from_particlefile(w.fs, w.P, f, restarttime=arg, lonlatdepth_dtype=np.float64)
                got = sorted((int(p.key), float(p.time) - t0, int(p.n)) for p in got)
            except Exception as e:
                got = repr(e)
            same_ = len(got) == len(want) and not isinstance(got, str) and all(g[0] == x[0] and abs(g[1] - x[1]) < 2e-6 and (g[2] == x[2] or o % d or (q - rel[g[0]]) % d) for g, x in zip(got, want))
            ctx.expect(same_, nm + ' ' + label, lambda: 'restored at %s: (particle, time, steps) %s, expected %s' % (arg, got, want))
            ctx.outcome('restored %d' % len(want))
        ctx.trace()
        ctx.distinct((tuple(unit.items()), off, d, o, n, rel))
        os.remove(f)


def requests(w, odt, sgn):
    """Every way to ask for each of the written times: (label, argument, time)."""
    import operator
    last = N * odt
    out = [('default', None, last if sgn > 0 else 0.), ('nanmax', np.nanmax, last if sgn > 0 else 0.), ('nanmin', np.nanmin, 0. if sgn > 0 else last)]
    for k in range(N + 1):
        t = w.t0 + sgn * k * odt
        if w.origin == 'none':
            out.append(('seconds', t, k * odt))
        elif w.origin == 'date':
            out.append(('datetime64', w.fs.time_origin.fulltime(0.) + np.timedelta64(int(round(t * 1e3)), 'ms'), k * odt))
        else:
            out.append(('cftime', w.fs.time_origin.time_origin + timedelta(seconds=t), k * odt))
    return out


def cuts(tier):
    inner = list(range(1, N))
    out = []
    for r in range(0, len(inner) + 1):
        for c in itertools.combinations(inner, r):
            if tier == 'quick' and r == 3:
                continue
            out.append(c + (N,))
    return out


def run(unit, ctx):
    w = World(unit)
    if 'scale' in unit:
        return scaled(unit, w, ctx)
    n = [0]

    def path():
        n[0] += 1
        return os.path.join(ctx.scratch, 'f%d.nc' % n[0])
    for rn, kn, odt in itertools.product(RELEASES, KILLS, (1., 2.)):
        rel, kill = RELEASES[rn], KILLS[kn]
        nm = '%s %s %s' % (unit, rn, kn)
        if ctx.tier == 'quick' and unit['dtype'] == 32 and (odt == 2. or rn == 'half'):
            continue
        full = path()
        ids = None
        # ---- restored sets
        if not ctx.case(dict(unit, release=rn, kill=kn, odt=odt, what='restore')):
            continue
        ps = w.start(rel, kill)
        ids = {int(p.key): int(p.id) for p in ps}
        w.execute(ps, N * odt, full, odt)
        end = w.snap(ps)
        ctx.expect(same(end, expected(rel, kill, N * odt, w.dtype)), nm, lambda: 'the uninterrupted run ends with %s, expected %s' % (end, expected(rel, kill, N * odt, w.dtype)))
        for label, arg, t in requests(w, odt, unit['sgn']):
            if ends(rel, kill, t):
                continue
            for restart in (True, False):
                ctx.evaluations += 1
                ctx.tick()
                want = expected(rel, kill, t, w.dtype)
                if label in ('default', 'nanmax', 'nanmin') and not want:
                    continue         # the last observations are those of particles deleted earlier
                try:
                    r = ParticleSet.from_particlefile(w.fs, w.P, full, restart=restart, restarttime=arg, lonlatdepth_dtype=w.dtype)
                    got = w.snap(r, ids=True)
                except Exception as e:
                    got = 'exception %r' % e
                ok = same(got if isinstance(got, str) else got, want, ids if restart else {k: (got[k][-1] if not isinstance(got, str) and k in got else None) for k in want})
                if ok and not restart:
                    new = [v[-1] for v in got.values()]
                    ok = len(set(new)) == len(new)
                ctx.expect(ok, '%s %s %s %s odt=%s: restore %s at %s restart=%s' % (w.mode, w.origin, rn, kn, odt, label, t, restart),
                           lambda: 'expected %s with identifiers %s, got %s' % (want, ids, got))
                ctx.state((rn, kn, odt, t, unit['dtype']))
                ctx.step()
                if len(want) > 1:
                    ctx.distinct((tuple(unit.items()), rn, kn, odt, label, t, restart))
                ctx.outcome('restored %d' % len(want))
        # ---- continuing
        for cs in cuts(ctx.tier):
            if len(cs) < 2 or any(ends(rel, kill, c * odt) for c in cs) or not ctx.case(dict(unit, release=rn, kill=kn, odt=odt, cuts=cs)):
                continue
            files, who, fin, ok = [], None, None, True
            for j, c in enumerate(cs):
                f = path()
                try:
                    if j == 0:
                        ps = w.start(rel, kill)
                        ids = {int(p.key): int(p.id) for p in ps}
                        who = set(range(3))
                    else:
                        who = set(expected(rel, kill, cs[j - 1] * odt, w.dtype, who))
                        if not who:
                            break
                        ps = ParticleSet.from_particlefile(w.fs, w.P, files[-1], restarttime=None if unit['sgn'] > 0 and j % 2 else (np.nanmax if unit['sgn'] > 0 else np.nanmin),
                            lonlatdepth_dtype=w.dtype)
                    w.execute(ps, c * odt, f, odt)
                    files.append(f)
                    fin = w.snap(ps, ids=True)
                    if j == 0 and not isinstance(fin, str):       # not yet released
                        fin = {k: v for k, v in fin.items() if rel[k] <= c * odt}
                except Exception as e:
                    fin = 'exception %r' % e
                    who = who or set()
                want = expected(rel, kill, c * odt, w.dtype, who)
                ok = ctx.expect(same(fin, want, ids), '%s %s %s %s odt=%s: continued %s' % (w.mode, w.origin, rn, kn, odt, cs),
                                lambda: 'part %d up to %s: expected %s with identifiers %s, got %s' % (j, c * odt, want, ids, fin))
                ctx.step()
                if not ok:
                    break
            ctx.trace()
            ctx.outcome('continued')
            if who and len(who) > 1:
                ctx.distinct((tuple(unit.items()), rn, kn, odt, cs))
            for f in files:
                os.remove(f)
        if os.path.exists(full):
            os.remove(full)
    ctx.sample(dict(unit, releases=RELEASES, kills=KILLS))
