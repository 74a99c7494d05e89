"""C02: the exported trajectory file is exactly the history of the run."""
import itertools
import os

import numpy as np
import netCDF4

from pk import MODES, ErrorCode, KernelCache, ParticleSet, flat_fieldset, func, pclass

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('all combinations of mode x direction x output interval x callback interval x release tuple x per-particle deletion step '
        'x write-on-delete x one or two execute calls (particles removed or added in between) x coordinate precision from the '
        'listed domains, plus output directory names; every exported file is read back and compared with the history that the '
        'run must have had; non-trivial: at least one observation; distinct by exported content')
BOUNDS = ('2-3 particles (+1 added), |dt| in {1, .5}, run length 4 (thorough: also 5.5), outputdt in {1,2,1.5,3,inf}, callbackdt '
          'in {none,1.5}, deletion by the kernel after step 1..4, by the handler of a failing step, or never')
ASSUMPTIONS = ['user-defined variables are stored in single precision, as the file format of the package prescribes',
               'a particle whose release lies within half a step after an output instant may or may not be written there',
               'a particle added at an instant that has already been written may or may not get an observation there']

SRC = """
def move(particle, fieldset, time):
    particle.x += particle.dt
    particle.o += 1.
    particle.n += 1
    particle.lon += 0.0625 * particle.dt
    particle.lat += 0.03125 * particle.dt
    particle.depth += 0.5 * particle.dt
    if particle.n == particle.kd:
        particle.delete()
    if particle.n == particle.kd - 10:
        return ErrorCode.ErrorOutOfBounds
"""


def on_error(particle, fieldset, time):
    particle.delete()


VARS = [('x', np.float64, 0.), ('n', np.int32, 0), ('kd', np.int32, -1, False), ('o', np.float32, 0., 'once'),
        ('h', np.float32, 7., False),
        # values that are missing for whole particles, an integer that single precision cannot hold, and a missing once-value
        ('u', np.float32, np.nan), ('g', np.int32, 0), ('q', np.float32, np.nan, 'once')]


def extra(i):
    return dict(u=np.nan if i == 0 else i + .5, g=16777217 + 2 * i, q=np.nan if i == 0 else i + .25)


def units(tier):
    u = []
    for mode, sgn, odt, cdt in itertools.product(MODES, (1, -1), (1., 2., 1.5, 3., np.inf), (None, 1.5)):
        u.append({'kind': 'runs', 'mode': mode, 'sgn': sgn, 'odt': odt, 'cdt': cdt})
    u += [{'kind': 'names', 'mode': m} for m in MODES]
    u += [{'kind': 'scaled', 'mode': m, 'sgn': sgn, 'scale': c} for m in MODES for sgn in (1, -1) for c in (.1, 86400 / 7.) + ((.7,) if tier == 'thorough' else ())]
    return u


RELS = [(0., 0.), (0., 1.), (1.25, 0.), (0., 2.25, 0.), (0., 9.), (0., .25, 9.)]


def run(unit, ctx):
    step = func(SRC, 'move')
    fs = flat_fieldset(n=5)
    cache = KernelCache()
    if unit['kind'] == 'names':
        return names(unit, ctx, fs, step, cache)
    if unit['kind'] == 'scaled':
        return scaled(unit, ctx, fs, step, cache)
    thorough = ctx.tier == 'thorough'
    k = 0
    for dtype in (np.float32, np.float64):
        P = pclass(unit['mode'], VARS)
        for rel, wod, adt, second in itertools.product(RELS, (False, True), (1., .5), (None, 'plain', 'remove', 'add')):
            if not thorough and adt == .5 and second not in (None, 'add'):
                continue
            if not thorough and dtype is np.float64 and (adt == .5 or second in ('plain', 'remove')):
                continue
            kds = [-1, 1, 2, 4] if len(rel) == 2 else [-1, 2]
            if thorough or (adt == 1. and second is None and dtype is np.float32):
                kds = kds + ([12, 14] if len(rel) == 2 else [12])   # deleted by the error handler of a failing step
            for kd in itertools.product(kds, repeat=len(rel)):
                if not thorough and second and sum(1 for q in kd if q > 0) > 1:
                    continue
                for length in ((4., 5.5) if thorough else (4.,)):
                    case = dict(unit, dtype=np.dtype(dtype).name, rel=rel, wod=wod, dt=adt, second=second, kd=kd, len=length)
                    k += 1
                    if ctx.case(case):
                        one(ctx, case, fs, P, step, cache, os.path.join(ctx.scratch, 'r%d' % k), dtype)


def names(unit, ctx, fs, step, cache):
    P = pclass(unit['mode'], VARS)
    for d, tmp in itertools.product(['plain', 'once', 'a_once_b', 'with space', 'br[0]x', 'dot.d', '7', 'q*z'], (None, 'tmpd', 'once.tmp')):
        case = dict(unit, dtype='float32', rel=(0., 1.), wod=False, dt=1., second=None, kd=(-1, 2), len=4., odt=1., cdt=None, sgn=1,
                    dir=d, tmp=tmp)
        if ctx.case(case):
            one(ctx, case, fs, P, step, cache, os.path.join(ctx.scratch, d, tmp or 'r'), np.float32)


def scaled(unit, ctx, fs, step, cache):
    """Times that are not representable: every instant carries rounding errors, near zero and far from it."""
    P = pclass(unit['mode'], VARS)
    c = unit['scale']
    thorough = ctx.tier == 'thorough'
    k = 0
    for t0, odt, cdt, rel, adt, second, kd in itertools.product((0., 1e6 + c / 3), (1., 1.5, 2., np.inf), (None, 1.5), ((0., 0.), (0., 1.), (0., 2.25, 0.)), (1., .5),
                                                                ('plain', 'add', 'remove') if thorough else ('plain', 'add'), (-1, 2, 12)):
        for wod in (False, True):
            if not thorough and ((wod and cdt) or (cdt and kd == 12) or (second == 'add' and kd != -1)):
                continue
            for length in (4., 3., 6.) if thorough else (4., 3.):
                case = dict(unit, dtype='float64', rel=rel, wod=wod, dt=adt, second=second, kd=(kd,) + (-1,) * (len(rel) - 1), len=length, odt=odt, cdt=cdt, t0=t0)
                k += 1
                if ctx.case(case):
                    one(ctx, case, fs, P, step, cache, os.path.join(ctx.scratch, 's%d' % k), np.float64)


def simulate(case):
    """-> list per particle of dict(t, x, n, lon, lat, depth) observations (mandatory, optional)"""
    dt, L, odt, cdt, sgn = case['dt'], case['len'], case['odt'], case['cdt'], case['sgn']
    c = case.get('scale', 1.)
    parts = [dict(key=i, r=r, t=r, n=0, kd=k, dead=False, seen=[], opt=[]) for i, (r, k) in enumerate(zip(case['rel'], case['kd']))]

    def obs(p):
        e = (p['t'] - p['r']) * c
        i = p['key']
        return dict(t=sgn * p['t'], x=sgn * e, n=p['n'], lon=.5 + .125 * i + sgn * .0625 * e, lat=1. + sgn * .03125 * e,
                    depth=sgn * .5 * e + i, o=float(p['n']) + 10 * i, key=i, **extra(i))

    def write(T):
        if case['wod']:
            return
        for p in parts:
            if p['dead']:
                continue
            if p['t'] == T:
                # an observation at an instant already written in the previous call is not repeated
                (p['opt'] if p.get('added') == T else p['seen']).append(obs(p)) if not (p['seen'] and p['seen'][-1]['t'] == sgn * T) else None
            elif T < p['t'] <= T + dt / 2:
                p['opt'].append(obs(p))

    def seg(t0, L):
        end = t0 + L
        outs = [t0 + k * odt for k in range(1, 100) if t0 + k * odt <= end] if np.isfinite(odt) else []
        cb = cdt if cdt else odt
        cbs = [t0 + k * cb for k in range(1, 100) if t0 + k * cb <= end] if np.isfinite(cb) else []
        write(t0)
        for e in sorted(set(outs + cbs + [end])):
            for p in parts:
                while not p['dead'] and p['t'] < e:
                    h = min(dt, e - p['t'])
                    if p['n'] + 1 == p['kd'] - 10:    # the step fails, is undone, and the handler deletes the particle
                        p['dead'] = True
                        p['seen'].append(obs(p))
                        continue
                    p['t'] += h
                    p['n'] += 1
                    if p['n'] == p['kd']:
                        p['dead'] = True
                        p['seen'].append(obs(p))
            if e in outs:
                write(e)
        write(end)

    alive_rel = min(case['rel'])
    seg(alive_rel, L)
    if case['second']:
        start2 = None
        if case['second'] == 'remove':
            alive = [p for p in parts if not p['dead']]
            if alive:
                alive[0]['dead'] = True
        if case['second'] == 'add':
            now = alive_rel + L
            parts.append(dict(key=len(parts), r=now, t=now, n=0, kd=-1, dead=False, seen=[], opt=[], added=now))
        alive = [p for p in parts if not p['dead']]
        if not alive:
            return parts, False
        start2 = min(p['t'] for p in alive)
        seg(start2, 2.)
    return parts, True


def build(case, fs, P, n, dtype):
    sgn = case['sgn']
    c, t0 = case.get('scale', 1.), case.get('t0', 0.)
    return ParticleSet(fs, pclass=P, lon=[.5 + .125 * i for i in range(n)], lat=[1.] * n, depth=[float(i) for i in range(n)],
                       time=[t0 + sgn * c * r for r in case['rel']], kd=list(case['kd']), o=[10. * i for i in range(n)], lonlatdepth_dtype=dtype,
                       **{k: [extra(i)[k] for i in range(n)] for k in 'ugq'})


def one(ctx, case, fs, P, step, cache, base, dtype):
    sgn = case['sgn']
    c, tz = case.get('scale', 1.), case.get('t0', 0.)
    n = len(case['rel'])
    nm = ' '.join('%s=%s' % (k, v) for k, v in case.items() if k not in ('kind',))
    os.makedirs(os.path.dirname(base), exist_ok=True)
    ps = build(case, fs, P, n, dtype)
    id0 = int(ps[0].id)
    kw = {}
    if case.get('tmp'):
        kw['tempwritedir'] = os.path.join(os.path.dirname(base), case['tmp'])
    pf = ps.ParticleFile(base + '.nc', outputdt=case['odt'] * c, write_ondelete=case['wod'], **kw)
    pf.add_metadata('purpose', 'check')
    ek = dict(dt=sgn * case['dt'] * c, output_file=pf, recovery={ErrorCode.ErrorOutOfBounds: on_error})
    if case['cdt']:
        ek['callbackdt'] = case['cdt'] * c
    parts, more = simulate(case)
    cache.execute(np.dtype(dtype).name, ps, step, runtime=case['len'] * c, **ek)
    if case['second'] and more:
        if case['second'] == 'remove' and len(ps) > 0:
            ps.remove_indices(np.array([0]))
        if case['second'] == 'add':
            i = n
            ps.add(ParticleSet(fs, pclass=P, lon=[.5 + .125 * i], lat=[1.], depth=[float(i)], time=[tz + sgn * c * (min(case['rel']) + case['len'])],
                               o=[10. * i], lonlatdepth_dtype=dtype, **{k: [v] for k, v in extra(i).items()}))
        cache.execute(np.dtype(dtype).name, ps, step, runtime=2. * c, **ek)
    pf.close()
    ctx.step(len(parts))
    ctx.trace()
    if not ctx.expect(os.path.exists(base + '.nc'), nm, 'no output file'):
        return
    with netCDF4.Dataset(base + '.nc') as ds:
        got = {k: np.ma.filled(np.ma.asarray(ds.variables[k][:]).astype(np.float64), np.nan) for k in ds.variables}
        meta = getattr(ds, 'purpose', None)
    os.remove(base + '.nc')
    if 'scale' in case and 'time' in got:
        q = (got['time'] - tz) / c
        got['time'] = np.where(abs(q - np.round(q * 8) / 8) < 1e-6, np.round(q * 8) / 8, q)
    ctx.expect(meta == 'check', 'meta ' + nm, 'metadata lost')
    ctx.expect('kd' not in got and 'h' not in got, nm, 'variable written that was not to be written: %s' % sorted(got))
    want = {}
    nobs = 0
    for p in parts:
        full = sorted([(o['t'] * sgn, 0, o) for o in p['seen']] + [(o['t'] * sgn, 1, o) for o in p['opt']], key=lambda a: a[:2])
        want[id0 + p['key']] = full
        nobs += len(full)
    rows = {}
    tr = got['trajectory']
    for r in range(tr.shape[0]):
        ids = tr[r][np.isfinite(tr[r])]
        if not ctx.expect(len(ids) > 0 and len(set(ids)) == 1, nm, lambda: 'row %d of the file mixes or lacks ids: %s' % (r, tr[r])):
            return
        if not ctx.expect(int(ids[0]) not in rows, nm, 'id %d has two rows' % int(ids[0])):
            return
        rows[int(ids[0])] = r
    for pid, full in want.items():
        must = [o for _, k, o in full if k == 0]
        if pid not in rows:
            ctx.expect(not must, nm, lambda: 'particle %d has no row, expected %s' % (pid - id0, must))
            continue
        r = rows.pop(pid)
        t = got['time'][r]
        m = int(np.isfinite(t).sum())
        if not ctx.expect(np.all(np.isfinite(t[:m])) and np.all(np.isnan(t[m:])), nm, lambda: 'times of particle %d have a hole: %s' % (pid - id0, t)):
            continue
        # align with the expected history: optional observations may be missing, repeated optional ones are equal
        seq, j, bad = [], 0, False
        for q in range(m):
            while j < len(full) and full[j][1] == 1 and full[j][2]['t'] != t[q]:
                j += 1
            if j >= len(full) or full[j][2]['t'] != t[q]:
                bad = True
                break
            seq.append(full[j][2])
            j += 1
        bad = bad or any(k == 0 for _, k, _ in full[j:])
        if not ctx.expect(not bad, nm, lambda: 'particle %d: times in file %s, expected %s (optional %s)'
                          % (pid - id0, t[:m].tolist(), [o['t'] for _, k, o in full if k == 0], [o['t'] for _, k, o in full if k])):
            continue
        for v, key in (('lon', 'lon'), ('lat', 'lat'), ('z', 'depth'), ('x', 'x'), ('n', 'n'), ('u', 'u'), ('g', 'g')):
            a = got[v][r]
            e = [o[key] for o in seq]
            same = np.array_equal(a[:m], e, equal_nan=True) if c == 1 else np.allclose(a[:m], e, rtol=1e-5, atol=1e-6, equal_nan=True)
            ctx.expect(same and np.all(np.isnan(a[m:])), '%s %s' % (v, nm),
                       lambda: 'particle %d: %s in file %s, expected %s' % (pid - id0, v, a.tolist(), e))
        ctx.expect(np.isfinite(tr[r][:m]).all() and not np.isfinite(tr[r][m:]).any(), nm, lambda: 'ids of particle %d: %s' % (pid - id0, tr[r]))
        for v in ('o', 'q') if seq else ():
            a = got[v]
            ok = a.ndim == 1 and len(a) == tr.shape[0] and np.array_equal(a[r], seq[0][v], equal_nan=True)
            ctx.expect(ok, 'once ' + nm, lambda: 'once-variable of particle %d: file has %s (row %d), expected %s' % (pid - id0, a.tolist(), r, seq[0][v]))
    ctx.expect(not rows, nm, 'rows for unknown particles %s' % [i - id0 for i in rows])
    if nobs:
        ctx.distinct((case['mode'], case['sgn'], {k - id0: [o['t'] for _, _, o in v] for k, v in want.items()}, case['wod'], case['dtype']))
    ctx.state((sorted((k - id0, [(o['t'], o['n']) for _, _, o in v]) for k, v in want.items()), case['wod']))
    ctx.outcome('ondelete' if case['wod'] else 'regular')
    ctx.sample({'case': case, 'obs_times': {k - id0: [o['t'] for _, _, o in v] for k, v in want.items()}})
