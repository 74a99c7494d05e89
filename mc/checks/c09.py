"""C09: classification and value of a sample depend on the position only, never on the sampling history.

For each world (grid, levels, method, indexing, fields sharing the grid) an alphabet of positions inside and outside is fixed together
with what each must give (the reference of C08, or the error of the side it lies on). Every sequence of positions up to the depth is
walked by its own particle; the last outcome must be what its position alone implies."""
import itertools

import numpy as np

from pk import ERRS, ErrorCode, KernelCache, ParticleSet, func, pclass  # noqa: F401
from core import h
from checks.c08 import CURV, RECT, World, candidates

# grids whose cells point past the edges of the grid: the search for the cell runs along the boundary
_J, _I = np.meshgrid(np.arange(3.), np.arange(5.), indexing='ij')
_A, _B = np.array([0., 3., 4., 3., 0.])[None, :], np.array([4., 1., 0., 1., 4.])[None, :]
CURV.update({
    'arc': ('flat', 2 * _I + .5 * _J, 2 * _J + _A),
    'bow': ('flat', 2 * _I - .5 * _J, 2 * _J + _B),
    'carc': ('spherical', 4 * _I + .5 * _J, 48 + 2 * _J + _A),
    'cbow': ('spherical', 4 * _I - .5 * _J, 48 + 2 * _J + _B),
    'cbend': ('spherical', 40 - 4 * _J - 2 * np.array([0., 2., 3.])[:, None] + .5 * _I, 40 + 4 * _I + .25 * _J * _I),
})

ID = 'C09'
LEVEL = 'model_checking'
RULE = ('per world: every ordered sequence of positions of the alphabet up to the stated depth (2; 3 for sub-alphabets), each walked by one particle, in both '
        'modes; non-trivial: the positions differ; distinct by (world, mode, sequence)')
BOUNDS = ('alphabets of 20 to 120 positions: nodes, edges and cell interiors, up to every side outside (near and far), above, below, before and after; '
          'depth 2 (all pairs), depth 3 on an alphabet of up to 16 (quick) or 30 (thorough)')
ASSUMPTIONS = ['a position outside in several ways may be reported by any of the errors that apply',
               'on cell edges where the method jumps the value of any adjacent cell is accepted',
               'interpreted mode is not asked for positions inside the bounding box but outside a curvilinear grid (a million search steps each)']


def worlds(tier):
    out = []

    def w(**k):
        k.setdefault('gi', 'nemo')
        k.setdefault('land', 0)
        out.append(k)
    for g in list(CURV) + list(RECT):
        for m in ('linear', 'nearest', 'cgrid_tracer') if tier != 'quick' else ('linear', 'cgrid_tracer'):
            w(kind='scalar', hor=g, dep=None, nt=3, m=m)
        w(kind='uv', hor=g, dep=None, nt=3, gi='nemo')
    for g in ('flat', 'sph', 'quad', 'csph') if tier == 'quick' else list(RECT) + list(CURV):
        for dep in ('up', 'down', 's-up', 's-down', 's4-up', 's4-down'):
            for m in ('linear', 'cgrid_tracer'):
                w(kind='scalar', hor=g, dep=dep, nt=3, m=m)
    for g in ('flat', 'quad'):
        for gi in ('pop', 'mom5'):
            for m in ('bgrid_velocity', 'bgrid_w_velocity', 'bgrid_tracer'):
                w(kind='scalar', hor=g, dep='up', nt=3, m=m, gi=gi)
        w(kind='uvw', hor=g, dep='up', nt=3)
        w(kind='uvw', hor=g, dep='s-up', nt=3)
    for one in ('x', 'y', 'xy'):
        w(kind='scalar', hor='flat', dep='up', nt=3, m='linear', one=one)
    return out


def units(tier):
    return [[w, mode] for w in worlds(tier) for mode in ('jit', 'scipy')]


def alphabet(world, mode, tier):
    """[(coords (t, z, y, x), candidate value tuples or None, allowed errors)]"""
    w = world.w
    data = world.fields()
    levels = [{n: (a[tk][:, ::-1] if world.flip else a[tk]).astype(np.float64) for n, a in data.items()} for tk in range(len(world.t))]
    zl = world.axis(world.nz, None)
    if w['gi'] == 'mom5':
        zl = [[(-1, .5)]] + zl
    yl, xl = world.axis(world.ny, None), world.axis(world.nx, None, w['hor'].startswith('globe'))
    tl = [(0, 0.), (1, .5), (2, 0.), (0, .25)]
    small = tier == 'quick' or mode == 'scipy'
    if world.nz > 1 and small:
        yl, xl = yl[::2] if len(yl) > 3 else yl, xl[1::2] if len(xl) > 3 else xl
        if mode == 'scipy':
            xl = xl[::2]
    al = []
    seen = set()

    def inside(tc, zcs, ycs, xcs, dx=0.):
        t = world.t[tc[0]] + (tc[1] * (world.t[tc[0] + 1] - world.t[tc[0]]) if tc[1] else 0.)
        x, y = world.hor(ycs[0], xcs[0])
        z = world.depth(zcs[0], ycs[0], xcs[0], tc)
        c = (float(t), float(z), float(y), float(x) + dx)
        if c not in seen:
            seen.add(c)
            al.append((c, candidates(world, levels, tc, zcs, ycs, xcs), ()))
        return c
    k = 0
    for zcs in zl:
        for ycs in yl:
            for xcs in xl:
                inside(tl[k % 4], zcs, ycs, xcs)
                k += 1
                if w['hor'].startswith('globe') and small and k % 3 == 0 or not small and w['hor'].startswith('globe'):
                    inside(tl[k % 4], zcs, ycs, xcs, 360. if k % 2 else -360.)
                    k += 1
    # outside, on one side or several
    ix, iy = min(1, max(0, world.nx - 2)), 0
    mid = ((iy, .5) if world.ny > 1 else (0, 0.)), ((ix, .5) if world.nx > 1 else (0, 0.))
    zmid = (0, .5) if world.nz > 1 else (0, 0.)
    base = inside((0, .25), [zmid], [mid[0]], [mid[1]])
    lonmin, lonmax = float(world.lon.min()), float(world.lon.max())
    latmin, latmax = float(world.lat.min()), float(world.lat.max())
    outs = []
    if world.nx > 1 and not w['hor'].startswith('globe') and not w['hor'].endswith('x') and not (w['hor'] == 'rot90' and mode == 'scipy'):
        outs += [('x', lonmin - .125, 'oob'), ('x', lonmax + .125, 'oob'), ('x', lonmin - 50, 'oob'), ('x', lonmax + 50, 'oob')]
    if w['hor'] == 'sphx':
        outs += [('x', 160., 'oob'), ('x', -160., 'oob'), ('x', 0., 'oob')]
    if world.ny > 1:
        outs += [('y', latmin - .125, 'oob'), ('y', latmax + .125, 'oob'), ('y', latmax + 3, 'oob')]
    if world.nz > 1:
        col = [world.depth((zi, f), mid[0], mid[1], (0, .25)) for zi, f in ((0, 0.), (world.nz - 2, 1.))]
        up = np.sign(col[0] - col[1])
        above = col[0] + up * (.125 if w['gi'] != 'mom5' else 1.)
        outs += [('z', above, 'surface'), ('z', above + up * 50, 'surface'), ('z', col[1] - up * .125, 'oob'), ('z', col[1] - up * 50, 'oob')]
    outs += [('t', -1., 'time'), ('t', -100., 'time'), ('t', 9., 'time'), ('t', 100., 'time')]
    combos = [(o,) for o in outs]
    first = {}
    for o in outs:
        first.setdefault(o[0], o)
    combos += [c for c in itertools.combinations([first[k] for k in sorted(first)], 2)]
    if 'z' in first:
        last = [o for o in outs if o[0] == 'z'][2]
        combos += [(last, first[k]) for k in sorted(first) if k != 'z']
    for c in combos:
        p = dict(zip('tzyx', base))
        for ax, v, _ in c:
            p[ax] = v
        al.append((tuple(float(p[a]) for a in 'tzyx'), None, tuple(sorted(set(e for _, _, e in c)))))
    return al, data


def source(kind):
    n = {'scalar': 1, 'uv': 2, 'uvw': 3}[kind]
    src = ['def K(particle, fieldset, time):', '    if particle.bad < 1:']
    for d in range(3):
        at = 'particle.ts%d, particle.z%d, particle.y%d, particle.x%d' % ((d,) * 4)
        src.append('        if particle.stage == %d:' % d)
        if kind == 'scalar':
            src.append('            particle.o0 = fieldset.P[%s]' % at)
        else:
            vs = 'uvw'[:n]
            src.append('            (%s) = fieldset.%s[%s]' % (', '.join(vs), kind.upper(), at))
            src += ['            particle.o%d = %s' % (i, v) for i, v in enumerate(vs)]
    src += ['    particle.stage += 1', '    particle.bad = 0']
    return '\n'.join(src) + '\n'


def walk(fs, mode, kind, seqs, coords, depth, ctx):
    """Outcome of the last position of every sequence."""
    nout = {'scalar': 1, 'uv': 2, 'uvw': 3}[kind]
    vs = [('k', np.int32, 0.), ('stage', np.int32, 0.), ('bad', np.int32, 0.)]
    vs += [('o%d' % i, np.float64 if mode == 'scipy' else np.float32, 0.) for i in range(nout)]
    kw = {}
    A = np.array([[coords[i] for i in s] for s in seqs])      # sequence, stage, tzyx
    for d in range(3):
        for a, n in enumerate(('ts', 'z', 'y', 'x')):
            vs.append((n + str(d), np.float64, 0.))
            if d >= 3 - depth:
                kw[n + str(d)] = A[:, d - 3 + depth, a]
    P = pclass(mode, vs, name='VPwalk' + mode)
    n = len(seqs)
    pset = ParticleSet(fs, pclass=P, lon=np.zeros(n), lat=np.zeros(n), depth=np.zeros(n), time=np.zeros(n), lonlatdepth_dtype=np.float64,
                       k=np.arange(n), stage=np.full(n, 3 - depth), **kw)
    err = {}

    def handler(name):
        def f(particle, fieldset, time):
            if int(particle.stage) == 2:
                err[int(particle.k)] = name
            particle.bad = 1
        return f
    pset.execute(func(source(kind), 'K'), runtime=float(depth), dt=1., recovery={c: handler(m) for m, c in ERRS.items()})
    res = [None] * n
    for p in pset:
        k = int(p.k)
        res[k] = err.get(k) or tuple(float(getattr(p, 'o%d' % i)) for i in range(nout))
        if int(p.stage) != 3:
            res[k] = 'not walked'
    return res


def good(expected, got):
    _, cand, errs = expected
    if cand is None:
        return got in errs
    if not isinstance(got, tuple):
        return False
    scale = max(abs(v) for cc in cand for v in cc) + 1e-30
    return any(all(abs(a - b) <= 2e-5 * scale for a, b in zip(got, cc)) for cc in cand)


def run(unit, ctx):
    w, mode = unit
    world = World(w)
    al, data = alphabet(world, mode, ctx.tier)
    fs = world.build(data)
    kind = w['kind']
    tag = h((mode, sorted(w.items(), key=str)))
    coords = [a[0] for a in al]
    N = len(al)
    ins, outs = [i for i in range(N) if al[i][1] is not None], [i for i in range(N) if al[i][1] is None]
    if ctx.tier == 'quick':
        most = 60 if mode == 'jit' else 26
        ins = [ins[i * len(ins) // min(most, len(ins))] for i in range(min(most, len(ins)))]
        if mode == 'scipy' and not world.curv:
            outs = outs[::2]
    pairs = ins + outs
    # alphabet of the deeper sequences: spread over the inside and all outside positions
    lim = {('quick', 'jit'): 16, ('quick', 'scipy'): 7, ('thorough', 'jit'): 30, ('thorough', 'scipy'): 13}[(ctx.tier, mode)]
    step = max(1, len(ins) // (lim * 2 // 3))
    sub = (ins[::step][:lim * 2 // 3] + outs)[:lim]
    for depth, ids in ((1, range(N)), (2, pairs), (3, sub)):
        seqs = list(itertools.product(ids, repeat=depth))
        for lo in range(0, len(seqs), 20000):
            part = seqs[lo:lo + 20000]
            if not ctx.case({'world': w, 'mode': mode, 'depth': depth, 'from': lo}):
                continue
            res = walk(fs, mode, kind, part, coords, depth, ctx)
            bad = []
            for s, r in zip(part, res):
                if len(set(s)) > 1:
                    ctx.distinct((tag, s))
                if not good(al[s[-1]], r):
                    bad.append((s, r))
            ctx.trace(len(part))
            ctx.step(len(part) * depth)
            for i in ids:
                ctx.state((sorted(w.items(), key=str), coords[i]))
            ctx.outcome('depth %d' % depth)
            if bad:
                s, r = bad[0]
                e = al[s[-1]]
                ctx.violate('%s:%s:d%d' % (mode, ','.join('%s=%s' % kv for kv in sorted(w.items(), key=str)), depth),
                            '%d of %d sequences of samples end wrong, e.g. (t, z, y, x) %s gives %r, position alone implies %r' % (
                                len(bad), len(part), ' -> '.join(str(coords[i]) for i in s), r, e[2] if e[1] is None else sorted(set(e[1]))[:3]))
    ctx.sample({'world': w, 'mode': mode, 'alphabet': N})
