"""C04: every particle is stepped exactly over [release, end], forward and backward, in both modes."""
import itertools
from datetime import timedelta

import numpy as np

from pk import MODES, KernelCache, ParticleSet, flat_fieldset, func, pclass

ID = 'C04'
LEVEL = 'model_checking'
SLOTS = 26
RULE = ('all combinations of mode x dt x clock base x release-time tuples x run length (given as runtime or endtime, one '
        'or two execute calls) x output interval x callback interval from the listed domains; each execution records the '
        '(time, dt) of every kernel call and the particle times at every callback; non-trivial: at least one kernel call '
        'recorded; distinct by the recorded call histories')
BOUNDS = ('dt in {1,2,0.5,0.1} and negatives, base in {0,-7,1e7}, releases from {0,1,1.5,3} (1-3 particles), length in '
          '{0,1,2,3.5,5} (thorough: +{7,0.25}), outputdt/callbackdt in {none,1,2,2.5}, as numbers or time differences of up to days; at most 26 kernel calls per particle')
ASSUMPTIONS = ['times other than the 0.1-step family are exactly representable, so they are compared exactly']

SRC = 'def step(particle, fieldset, time):\n'
for _i in range(SLOTS):
    SRC += ('    if particle.n == %d:\n        particle.t%d = time\n        particle.d%d = particle.dt\n' % (_i, _i, _i))
SRC += '    particle.n += 1\n'

VARS = [('n', np.int32, 0, False)] + [('%s%d' % (a, i), np.float64, -9e9, False) for i in range(SLOTS) for a in 'td']


def units(tier):
    dts = [1., -1., 2., -2., .5, -.5, .1, -.1]
    # a particle set needs no field set if its kernels use no field
    return [{'mode': m, 'dt': d, 'base': b} for m in MODES for d in dts for b in (0., -7., 1e7)] + \
        [{'mode': m, 'dt': d, 'base': 0., 'nofs': True} for m in MODES for d in (1., -1., .5, -2.)] + \
        [{'mode': m, 'dt': d * f, 'base': 0., 'delta': f} for m in MODES for d in (.5, -.5) for f in (1., 131072.5)]


def run(unit, ctx):
    tier = ctx.tier
    step = func(SRC, 'step')
    mode, dt, base = unit['mode'], unit['dt'], unit['base']
    sgn = 1 if dt > 0 else -1
    fs = None if unit.get('nofs') else flat_fieldset()
    P = pclass(mode, VARS)
    cache = KernelCache()
    small = abs(dt) == .1
    rels = [(0.,), (0., 0.), (0., 1.), (1., 0.), (0., 1.5), (1.5, 0., 3.), (0., 3., 0.)]
    lens = [0., 1., 2., 3.5, 5.]
    if tier == 'thorough':
        rels += [(0., .25), (3., 1., 0.), (0., 1., 1.5), (.5, 0., .5, 2.)]
        lens += [7., .25, 4.]
    if small:
        lens = [0., .5, 1., 2.]
        rels = [(0.,), (0., .3), (.5, 0.)]
    outs = [None, 1., 2., 2.5]
    cbs = [None, 1., 2., 2.5]
    if small:
        outs, cbs = [None, .1, .5], [None, .2, .5]
    if 'delta' in unit:      # all intervals given as time differences, with fractions of seconds and of more than a day
        f = unit['delta']
        rels, lens = [tuple(r * f for r in rel) for rel in rels], [v * f for v in lens]
        outs, cbs = [v and v * f for v in outs], [v and v * f for v in cbs]
    for rel, length, how, odt, cdt in itertools.product(rels, lens, ('runtime', 'endtime', 'split'), outs, cbs):
        if how == 'split' and length < 2 * unit.get('delta', 1.):
            continue
        if length == 0 and (how != 'runtime' or len(set(rel)) > 1 or odt or cdt):
            continue
        if tier != 'thorough' and how == 'endtime' and odt and cdt and odt != cdt:
            continue
        case = dict(unit, rel=rel, len=length, how=how, odt=odt, cdt=cdt)
        if not ctx.case(case):
            continue
        one(ctx, case, fs, P, cache, step, sgn, small)


class FakeOut(object):
    """Stands in for the particle file: only the times of the writes matter here."""

    def __init__(self, outputdt, pset_box):
        self.outputdt = outputdt
        self.log = []
        self.box = pset_box

    def write(self, pset, time, deleted_only=False):
        if deleted_only is False:
            self.log.append((float(time), [(float(p.time), int(p.n)) for p in pset]))


def one(ctx, case, fs, P, cache, step, sgn, small):
    base, rel, length, dt = case['base'], case['rel'], case['len'], case['dt']
    odt, cdt = case['odt'], case['cdt']
    iv = (lambda v: timedelta(seconds=v)) if 'delta' in case else (lambda v: v)
    sig = ('time differences ' if 'delta' in case else '') + ('no field set ' if case.get('nofs') else '') + '%s dt=%g base=%g rel=%s len=%g %s odt=%s cdt=%s' % (case['mode'], dt, base, list(rel), length, case['how'], odt, cdt)
    n = len(rel)
    release = [base + sgn * r for r in rel]
    ps = ParticleSet(fs, pclass=P, lon=[0.5] * n, lat=[0.5] * n, time=release)
    start = min(release) if sgn > 0 else max(release)
    cblog = []
    out = FakeOut(iv(odt), ps) if odt else None
    kw = dict(dt=iv(dt), output_file=out)
    if cdt:
        kw['postIterationCallbacks'] = [lambda: cblog.append([(float(p.time), int(p.n)) for p in ps])]
        kw['callbackdt'] = iv(cdt)
    parts = [length] if case['how'] != 'split' else [case.get('delta', 1.), length - case.get('delta', 1.)]
    bounds = []
    t0 = start
    for k, L in enumerate(parts):
        if case['how'] == 'endtime':
            cache.execute('k', ps, step, endtime=t0 + sgn * L, **kw)
        else:
            cache.execute('k', ps, step, runtime=iv(L), **kw)
        bounds.append((t0, t0 + sgn * L))
        t0 = t0 + sgn * L
    end = t0
    eps = 1e-6 if small else 0.
    if small and abs(base) > 1e6:
        eps = 1e-5
    # the instants at which the run must stop every particle
    events = set()
    cbtimes, outtimes = [], []
    for a, b in bounds:
        L = abs(b - a)
        for iv, acc in ((odt, outtimes), (cdt, cbtimes)):
            if iv:
                k = 1
                while k * iv <= L + 1e-9:
                    events.add(a + sgn * k * iv)
                    acc.append(a + sgn * k * iv)
                    k += 1
        events.add(b)
    hist = []
    for i, p in enumerate(ps):
        m = int(p.n)
        calls = [(float(getattr(p, 't%d' % j)), float(getattr(p, 'd%d' % j))) for j in range(min(m, SLOTS))]
        hist.append(calls)
        if m > SLOTS:
            ctx.violate('toomany ' + sig, 'particle %d was stepped %d times' % (i, m))
            continue
        if length == 0:
            ctx.expect(m == 1 and calls[0] == (release[i], 0.) and float(p.time) == release[i], 'once ' + sig,
                       'zero-length run: calls %s, time %r' % (calls, float(p.time)))
            continue
        late = sgn * (release[i] - end) >= 0
        if late:
            ctx.expect(m == 0 and float(p.time) == release[i], 'late ' + sig,
                       'particle released at %g (run ends at %g) got calls %s, time %r' % (release[i], end, calls, float(p.time)))
            continue
        ok = m > 0 and abs(calls[0][0] - release[i]) <= 0
        ok = ctx.expect(ok, 'first ' + sig, 'first call of particle released at %g: %s' % (release[i], calls[:1]))
        t = release[i]
        for j, (tc, dc) in enumerate(calls):
            ctx.step()
            ctx.state((j, tc - base, dc, i, rel))
            ok &= ctx.expect(abs(tc - t) <= eps, 'gap ' + sig, 'call %d of particle %d at time %r, expected %r; calls %s' % (j, i, tc, t, calls))
            ok &= ctx.expect(sgn * dc > 0 and abs(dc) <= abs(dt) + eps, 'dt ' + sig,
                             'call %d of particle %d had dt %r; calls %s' % (j, i, dc, calls))
            inside = [e for e in events if 1e-7 < sgn * (e - tc) < abs(dc) - max(eps, 1e-7)]
            ok &= ctx.expect(not inside, 'over ' + sig, 'step %d of particle %d from %r by %r jumps over %s' % (j, i, tc, dc, inside))
            lands = any(abs(tc + dc - e) <= eps for e in events)
            ok &= ctx.expect(abs(dc - dt) <= eps or lands, 'short ' + sig,
                             'step %d of particle %d at %r was shortened to %r although no event lies at its end; calls %s' % (j, i, tc, dc, calls))
            t = tc + dc
            if not ok:
                break
        ctx.expect(abs(float(p.time) - end) <= eps and abs(t - end) <= eps, 'end ' + sig,
                   'particle %d ends at %r (last step to %r), expected %r; calls %s' % (i, float(p.time), t, end, calls))
    # callbacks and writes see every started particle exactly at the event time
    if cdt:
        ctx.expect(len(cblog) == len(cbtimes), 'cbcount ' + sig, '%d callbacks, expected at %s' % (len(cblog), cbtimes))
        for te, snap in zip(cbtimes, cblog):
            snapcheck(ctx, 'cb ' + sig, te, snap, release, sgn, eps, dt)
    if odt:
        want = [bounds[0][0]] + outtimes
        for a, b in bounds:
            want.append(b)
        got = [w for w, _ in out.log]
        ctx.expect(len(got) >= 1 and all(any(abs(g - w) <= max(eps, 1e-9) for g in got) for w in want)
                   and all(any(abs(g - w) <= max(eps, 1e-9) for w in want) for g in got), 'outtimes ' + sig,
                   'writes requested at %s, expected at %s' % (got, sorted(set(want))))
        for te, snap in out.log:
            snapcheck(ctx, 'out ' + sig, te, snap, release, sgn, eps, dt)
    ctx.trace()
    if any(hist):
        ctx.distinct((dt, base, hist))
    ctx.outcome('late' if any(not c for c in hist) else 'stepped')
    ctx.sample({'case': case, 'calls': [c[:4] for c in hist]})


def snapcheck(ctx, sig, te, snap, release, sgn, eps, dt):
    for r, (pt, n) in zip(release, snap):
        want = te if sgn * (te - r) > 0 else r
        ctx.expect(abs(pt - want) <= eps, sig, 'at event time %r the particle released at %r is at time %r' % (te, r, pt))
