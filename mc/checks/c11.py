"""C11: chunked loading gives the same results for every chunk size."""
import itertools
import os

import dask
import dask.array as da
import numpy as np
import xarray as xr

from pk import Field, FieldSet, KernelCache, ParticleSet, func, pclass

dask.config.set(scheduler="synchronous")

ID = 'C11'
LEVEL = 'model_checking'
RULE = ('(a) fields in memory: every division of every dimension of the grids into chunks x a walk through every ordered pair of '
        '(cell, fields used by the kernel), so that every chunk is asked for from every state of the others; (b) fields loaded from '
        'files: every chunk size of every dimension x walk through every ordered pair of runs (kernel, direction, path through the '
        'grid); every step compared bit by bit with the same history without chunks; non-trivial: more than one chunk; distinct by '
        '(grid, chunks, history element pair)')
BOUNDS = 'grids up to 4x5 and 3x3x3, 1 and 3 time slices; files 5x6 and 3x5x6, 6 slices; compiled and interpreted'
ASSUMPTIONS = ['random numbers are not part of the comparison: a kernel call repeated to load a chunk draws again']


def compositions(n):
    out = []
    for m in range(1 << (n - 1)):
        parts, c = [], 1
        for b in range(n - 1):
            if m >> b & 1:
                parts.append(c)
                c = 1
            else:
                c += 1
        out.append(tuple(parts + [c]))
    return sorted(out, key=lambda p: (len(p), p))


def pairwalk(n):
    """Sequence over range(n) in which every ordered pair (also of equal elements) is adjacent once."""
    seq = [0]
    for i in range(n):
        seq.append(i) if i else None
        seq.append(i) if not i else None
        for j in range(i + 1, n):
            seq += [j, i] if seq[-1] == i else [i, j, i]
    out = [seq[0]]
    for s in seq[1:]:
        out.append(s)
    missing = {(a, b) for a in range(n) for b in range(n)} - set(zip(out, out[1:]))
    for a, b in sorted(missing):
        out += [a, b]
    return out


# ------------------------------------------------------------------------------------------ (a) in memory
GRIDS = {'2d': (0, 3, 4), '2dL': (0, 4, 5), '3d': (2, 3, 3), '3dL': (3, 3, 3), 'flat': (1, 3, 3), 'pair': (2, 2, 2)}
KERNELS = {
    'F': ['particle.f = fieldset.F[time, particle.depth, particle.lat, particle.lon]'],
    'G': ['particle.g = fieldset.G[time, particle.depth, particle.lat, particle.lon]'],
    'H': ['(u, v) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]', 'particle.f = u', 'particle.h = v'],
    'A': ['particle.h = fieldset.H[time, particle.depth, particle.lat, particle.lon]',
          'particle.g = fieldset.G[time, particle.depth, particle.lat, particle.lon]',
          'particle.f = fieldset.F[time, particle.depth, particle.lat, particle.lon] + fieldset.U[time, particle.depth, particle.lat, particle.lon]'],
    'S': ['particle.f = particle.f + fieldset.F[time, particle.depth, particle.lat, particle.lon]',
          'particle.lon = particle.lon + particle.dx', 'particle.lat = particle.lat + particle.dy',
          'if particle.lon > particle.xmax:', '    particle.lon = particle.lon - particle.xmax',
          'if particle.lat > particle.ymax:', '    particle.lat = particle.lat - particle.ymax'],
}
VARS = [('f', np.float32, 0.), ('g', np.float32, 0.), ('h', np.float32, 0.), ('dx', np.float32, 0.), ('dy', np.float32, 0.), ('xmax', np.float32, 9.),
        ('ymax', np.float32, 9.)]


def values(k, shape):
    n = int(np.prod(shape))
    i = np.arange(n, dtype=np.int64)
    return (((i * 37 + k * 101 + i * i * 3) % 251 + 1) / 8.).astype(np.float32).reshape(shape)


class Mem(object):
    def __init__(self, grid, tdim, chunks, mode, methods, tchunk=None):
        z, y, x = GRIDS[grid]
        self.dims = (z, y, x)
        shape = ((tdim,) if tdim > 1 else (1,)) + ((z,) if z else ()) + (y, x)
        self.lon, self.lat = np.arange(x, dtype=np.float32), np.arange(y, dtype=np.float32)
        self.depth = np.arange(z, dtype=np.float32) if z else None
        self.time = np.arange(tdim, dtype=np.float64) * 4. if tdim > 1 else np.zeros(1)
        fields = {}
        grid0 = None
        for k, (name, meth) in enumerate(zip('UVFGH', methods)):
            d = values(k, shape)
            if chunks is not None:
                d = da.from_array(d, chunks=((tchunk or (shape[0],)),) + tuple(chunks))
            if grid0 is None:
                f = Field(name, d, lon=self.lon, lat=self.lat, depth=self.depth, time=self.time, mesh='flat', interp_method=meth, allow_time_extrapolation=True)
                grid0 = f.grid
            else:
                f = Field(name, d, grid=grid0, interp_method=meth, allow_time_extrapolation=True)
            fields[name] = f
        fs = FieldSet(fields.pop('U'), fields.pop('V'), fields=fields)
        fs.check_complete()
        self.fs = fs
        self.cache = KernelCache()
        self.P = pclass(mode, VARS, name='VP11' + mode)
        self.ps = None
        self.fun = {k: func('def K%s(particle, fieldset, time):\n' % k + ''.join('    %s\n' % ln for ln in b), 'K' + k) for k, b in KERNELS.items()}

    def cells(self):
        z, y, x = self.dims
        return list(itertools.product(range(max(z - 1, 1)), range(max(y - 1, 1)), range(max(x - 1, 1))))

    def start(self, n):
        self.ps = ParticleSet(self.fs, pclass=self.P, lon=[0.] * n, lat=[0.] * n, depth=[0.] * n, time=[0.] * n, lonlatdepth_dtype=np.float64)

    def do(self, kern, cells, steps=1, move=(0., 0.)):
        z, y, x = self.dims
        for q, c in zip(self.ps, cells):
            q.depth = c[0] + .25 if z > 1 else 0.
            q.lat = c[1] + .625 if y > 1 else 0.
            q.lon = c[2] + .375 if x > 1 else 0.
            q.f = q.g = q.h = 0.
            q.dx, q.dy = move
            q.xmax, q.ymax = max(x - 1, 0) or 99., max(y - 1, 0) or 99.
        self.cache.execute(kern, self.ps, self.fun[kern], runtime=float(steps), dt=1.)
        return [(q.f, q.g, q.h, q.lon, q.lat, q.depth, q.time) for q in self.ps]


METHODS = {'lin': ('linear', 'linear', 'linear', 'nearest', 'cgrid_tracer'),
           'c': ('cgrid_velocity', 'cgrid_velocity', 'linear', 'linear_invdist_land_tracer', 'bgrid_tracer'),
           'b': ('bgrid_velocity', 'bgrid_velocity', 'nearest', 'bgrid_w_velocity', 'cgrid_tracer')}


def mem_chunkings(grid):
    z, y, x = GRIDS[grid]
    return list(itertools.product(*[compositions(n) for n in ((z,) if z else ()) + (y, x)]))


def run_mem(unit, ctx):
    grid, meths, tdim, mode = unit['grid'], METHODS[unit['methods']], unit['tdim'], unit['mode']
    allc = mem_chunkings(grid)[unit['lo']::unit['step']]
    syms0 = unit['kernels']
    ref, refh = None, {}
    R = Mem(grid, tdim, None, mode, meths)
    R.start(1)
    cells = R.cells()
    if unit['walk'] == 'full':
        syms = [(k, c) for c in cells for k in syms0]
    else:
        syms = [(syms0[i % len(syms0)], c) for i, c in enumerate(cells)]
    walk = pairwalk(len(syms))

    def reference(sym):
        """What one step computes without chunks does not depend on what was done before, except for the time: indexed by it."""
        if sym not in refh:
            k, c, t = sym
            for q in R.ps:
                q.time = t
            refh[sym] = R.do(k, [c])
        return refh[sym]

    for chunks in allc:
        if not ctx.case({'unit': unit, 'chunks': chunks}):
            continue
        ctx.tick()
        tch = compositions(tdim)[sum(map(len, chunks)) % (1 << (tdim - 1))] if tdim > 1 else None
        C = Mem(grid, tdim, chunks, mode, meths, tch)
        C.start(1)
        prev = None
        bad = 0
        for i, s in enumerate(walk):
            k, c = syms[s]
            t = float(i % 9) if tdim > 1 else 0.
            for q in C.ps:
                q.time = t
            got = C.do(k, [c])
            ctx.step()
            want = reference((k, c, t))
            if any(len(p) > 1 for p in chunks):
                ctx.distinct((grid, chunks, prev, s))
            if got != want:
                bad += 1
                if bad < 3:
                    ctx.violate('%s %s %s chunks %s: %s in %s' % (mode, grid, unit['methods'], chunks, k, c),
                                'step %d at time %s after %s: without chunks %s, with chunks %s' % (i, t, prev is not None and syms[prev], want, got))
            ctx.state((grid, chunks, tuple(int(v) for v in C.fs.F.grid.load_chunk)))
            prev = s
        ctx.trace()
        ctx.outcome('agrees' if not bad else 'differs')
        # sweeps through the grid within one execution, two particles at a time
        if True:
            z, y, x = GRIDS[grid]
            for mv in ((.5, 0.), (.75, .25), (0., .5), (-.25, 1.), (1.25, .75)):
                if x == 2 or y == 2:
                    mv = (mv[0] % 1, mv[1] % 1)
                out = []
                for obj in (R, C):
                    M = obj
                    M.start(2)
                    out.append(M.do('S', [cells[0], cells[len(cells) // 2]], steps=9, move=(abs(mv[0]), mv[1])))
                    M.start(1)
                ctx.step()
                if out[0] != out[1]:
                    ctx.violate('%s %s %s chunks %s: sweep %s' % (mode, grid, unit['methods'], chunks, mv), 'without chunks %s, with chunks %s' % tuple(out))
    ctx.sample({'grid': grid, 'chunks': allc[:2], 'steps': len(walk)})


# ------------------------------------------------------------------------------------------ (b) on demand
LON, LAT, DEP = np.arange(6, dtype=np.float32), np.arange(5, dtype=np.float32), np.arange(3, dtype=np.float32)
TIMES = np.array([0., 2., 4., 6., 8., 10.])
DKERNELS = {
    'F': ['particle.f = 0.5 * particle.f + fieldset.F[time, particle.depth, particle.lat, particle.lon]'],
    'V': ['(u, v) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]', 'particle.f = 0.5 * particle.f + u', 'particle.g = 0.5 * particle.g + v'],
    'A': ['(u, v) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]',
          'particle.f = 0.5 * particle.f + u + fieldset.G[time, particle.depth, particle.lat, particle.lon]',
          'particle.g = 0.5 * particle.g + v + fieldset.F[time, particle.depth, particle.lat, particle.lon]'],
}
MOVE = ['particle.n = particle.n + 1', 'particle.k = particle.k + particle.px', 'if particle.k > 4.9:', '    particle.k = particle.k - 4.75',
        'particle.l = particle.l + particle.py', 'if particle.l > 3.9:', '    particle.l = particle.l - 3.75',
        'particle.lon = math.floor(particle.k / particle.dwell) * particle.dwell + 0.25', 'particle.lat = math.floor(particle.l / particle.dwell) * particle.dwell + 0.125']
DVARS = [('f', np.float32, 0.), ('g', np.float32, 0.), ('n', np.float32, 0.), ('px', np.float32, .5), ('py', np.float32, .25), ('dwell', np.float32, .5),
         ('k', np.float32, 0.), ('l', np.float32, 0.)]
# legs: kernel, start or None to go on where the last leg ended, runtime, dt, path
LEGS = [('F', 0., 10., 1., (.5, .25, .5)), ('V', 10., 8., -1., (1.25, .75, .25)), ('A', 2., 6., .5, (.25, 1., 1.)), ('F', 7., 6., -.5, (0., .5, .25)),
        ('V', 3., 4., 2., (2.5, 1.5, .5)), ('A', 9., 9., -1., (.25, .25, 2.)), ('A', 5., 0., 0., (0., 0., .25)), ('V', 4., 5., .5, (0., 0., .25))]
PERLEGS = [('A', 0., 24., 1., (.5, .25, .5)), ('F', 15., 9., -1., (1.25, .75, .25)), ('V', 31., 6., .5, (.25, 1., 1.)), ('A', -3., 8., .5, (.5, .5, .25)),
           ('V', 12., 30., -2., (.75, .5, .25))]
DCONF = {
    'one': dict(), 'depth': dict(depth=True), 'each': dict(split=[1] * 6), 'periodic': dict(periodic=True, split=[3, 3]), 'cgrid': dict(method='cgrid_velocity'),
    'halo': dict(halo=True), 'mixed': dict(mixed=True), 'subset': dict(indices={'lon': range(1, 6), 'lat': range(0, 4)}), 'auto': dict(auto=True, depth=True)}


def dchunk(conf, cz, cy, cx):
    c = {'time': ('time', 1), 'lat': ('lat', cy), 'lon': ('lon', cx)}
    if DCONF[conf].get('depth'):
        c['depth'] = ('depth', cz)
    return c


class Def(object):
    def __init__(self, conf, mode, chunks, scratch):
        o = DCONF[conf]
        z = bool(o.get('depth'))
        dims = ('time',) + (('depth',) if z else ()) + ('lat', 'lon')
        shape = (6,) + ((3,) if z else ()) + (5, 6)
        files = {}
        for k, n in enumerate('UVFG'):
            d = values(k + 1, shape)
            if o.get('periodic'):
                d[-1] = d[0]
            p, fl = 0, []
            for i, m in enumerate(o.get('split', [6])):
                f = os.path.join(scratch, '%s_%s_%d.nc' % (conf, n, i))
                if not os.path.exists(f):
                    co = {'lon': LON, 'lat': LAT, 'time': ('time', TIMES[p:p + m], {'units': 'seconds since 2000-01-01'})}
                    if z:
                        co['depth'] = DEP
                    xr.Dataset({n: (dims, d[p:p + m])}, coords=co).to_netcdf(f)
                fl.append(f)
                p += m
            files[n] = fl
        dm = {x: x for x in dims}
        kw = {}
        if o.get('periodic'):
            kw['time_periodic'] = 10.
        else:
            kw['allow_time_extrapolation'] = False
        meth = {n: 'linear' for n in 'UVFG'}
        meth['G'] = 'nearest'
        if o.get('method'):
            meth['U'] = meth['V'] = o['method']
        if o.get('indices'):
            kw['indices'] = o['indices']
        if chunks is None:
            cs = None
        elif o.get('auto'):
            cs = 'auto'
        elif o.get('mixed'):
            # the tracers have other chunks than the velocities
            cz, cy, cx = chunks
            cs = {n: dchunk(conf, cz, cy, cx) if n in 'UV' else dchunk(conf, cz, 7 - cy, 7 - cx) for n in 'UVFG'}
        else:
            cs = {n: dchunk(conf, *chunks) for n in 'UVFG'}
        self.fs = FieldSet.from_netcdf(files, {n: n for n in 'UVFG'}, dm, mesh='flat', interp_method=meth, chunksize=cs, **kw)
        if o.get('halo'):
            self.fs.add_periodic_halo(zonal=True, meridional=True, halosize=2)
        self.off = 1. if o.get('indices') else 0.
        self.cache = KernelCache()
        self.P = pclass(mode, DVARS, name='VP11d' + mode)
        body = {k: b + [m.replace('+ 0.25', '+ %s' % (.25 + self.off)) if self.off else m for m in MOVE] for k, b in DKERNELS.items()}
        if self.off:
            body = {k: [m.replace('> 4.9', '> 3.9').replace('- 4.75', '- 3.75').replace('> 3.9:', '> 2.9:').replace('- 3.75', '- 2.75') if 'particle.l' in m or 'particle.k' in m else m for m in b] for k, b in body.items()}
        self.fun = {k: func('def K%s(particle, fieldset, time):\n' % k + ''.join('    %s\n' % ln for ln in b), 'K' + k) for k, b in body.items()}

    def leg(self, leg):
        k, start, runtime, dt, (px, py, dwell) = leg
        ps = ParticleSet(self.fs, pclass=self.P, lon=[.25 + self.off, 2.25 + self.off], lat=[.125, 1.125], depth=[.5, 1.25] if hasattr(self.fs.F.grid, 'zdim') and self.fs.F.grid.zdim > 1 else [0., 0.],
                         time=[start, start], lonlatdepth_dtype=np.float64)
        for i, q in enumerate(ps):
            q.px, q.py, q.dwell = px, py * (1 + i) / 2., dwell
            q.k, q.l = 2. * i, 1. * i
        out = []
        # look at the particles several times on the way
        for part in range(2 if runtime else 1):
            self.cache.execute(k, ps, self.fun[k], runtime=runtime / 2. if runtime else 0., dt=dt)
            out.append([(q.f, q.g, q.lon, q.lat, q.n, q.time) for q in ps])
        return out


def dchunkings(conf, tier):
    if conf == 'auto':
        return [(16, 16, 16)]
    zs = (2, 3) if DCONF[conf].get('depth') else (3,)
    ys, xs = (2, 3, 4, 5), (2, 3, 4, 5, 6)
    allc = list(itertools.product(zs, ys, xs))
    if tier == 'quick':
        pick = ((2, 2), (3, 4), (4, 5)) if conf in ('one', 'depth') else ((2, 3), (3, 4))
        return [c for c in allc if c[1:] in pick and c[0] == zs[c[1] % len(zs)]]
    return allc


def run_def(unit, ctx):
    conf, mode, tier = unit['conf'], unit['mode'], ctx.tier
    legs = PERLEGS if DCONF[conf].get('periodic') else LEGS
    cs = dchunkings(conf, tier)[unit['lo']::unit['step']]
    if tier == 'quick' and conf not in ('one', 'depth'):
        legs = legs[1:6]
    walk = pairwalk(len(legs))
    if mode == 'scipy':
        walk = walk[:12]
    R = Def(conf, mode, None, ctx.scratch)
    ref = {}
    for c in cs:
        if not ctx.case({'unit': unit, 'chunks': c}):
            continue
        C = Def(conf, mode, c, ctx.scratch)
        prev, bad = None, 0
        for i, s in enumerate(walk):
            ctx.tick()
            if s not in ref:
                ref[s] = R.leg(legs[s])
            got = C.leg(legs[s])
            ctx.step(int(abs(legs[s][2] / (legs[s][3] or 1.))))
            ctx.distinct((conf, mode, c, prev, s))
            if got != ref[s]:
                bad += 1
                if bad < 3:
                    ctx.violate('%s on demand %s chunks %s: run %s after %s' % (mode, conf, c, s, prev), 'run %s: without chunks %s, with chunks %s' % (legs[s], ref[s], got))
            ctx.state((conf, c, tuple(int(v) for v in C.fs.F.grid.load_chunk), C.fs.F.grid.ti))
            prev = s
        ctx.trace()
        ctx.outcome('agrees' if not bad else 'differs')
    ctx.sample({'conf': conf, 'chunks': cs[:2]})


def units(tier):
    u = []
    for g, n, step in (('2d', 4, 4), ('2dL', 16, 16), ('3d', 6, 6), ('3dL', 8, 8), ('flat', 2, 2), ('pair', 1, 1)):
        for lo in range(n):
            for m in METHODS:
                if g in ('2dL', '3dL') and m != 'lin' and tier == 'quick':
                    continue
                if tier == 'quick' and g == '2dL' and lo % 4 != 1:
                    continue
                full = (g == '2d' and m == 'lin') or g in ('flat', 'pair') or tier == 'thorough'
                u.append({'part': 'mem', 'grid': g, 'methods': m, 'tdim': 1 if g in ('2dL', '3dL') else 3, 'mode': 'jit', 'lo': lo, 'step': step,
                          'walk': 'full' if full else 'cells', 'kernels': 'FA' if g == '2d' and full and tier == 'quick' else ('FHA' if m != 'lin' else 'FGHA')})
    for g in ('2d', '3d'):
        for lo in range(4):
            u.append({'part': 'mem', 'grid': g, 'methods': 'lin', 'tdim': 3, 'mode': 'scipy', 'lo': lo, 'step': 4 if tier == 'thorough' else 16, 'walk': 'cells', 'kernels': 'FGHA'})
    for conf in DCONF:
        n = min(4, len(dchunkings(conf, tier)))
        for lo in range(n):
            u.append({'part': 'def', 'conf': conf, 'mode': 'jit', 'lo': lo, 'step': n})
    for conf in ('one', 'periodic'):
        for lo in range(2):
            u.append({'part': 'def', 'conf': conf, 'mode': 'scipy', 'lo': lo, 'step': 8})
    return u


def run(unit, ctx):
    (run_mem if unit['part'] == 'mem' else run_def)(unit, ctx)
