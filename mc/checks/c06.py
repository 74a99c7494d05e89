"""C06: outcome protocol of a kernel call: commit, roll back, recover, repeat with another step, delete, raise."""
import itertools

import numpy as np

from pk import MODES, ErrorCode, FieldSet, KernelCache, ParticleSet, func, pclass
from parcels.tools.statuscodes import (KernelError, OutOfBoundsError, OutOfTimeError, ThroughSurfaceError)
from parcels.tools import statuscodes

ID = 'C06'
LEVEL = 'model_checking'
RULE = ('every script (outcome of attempt 1 and 2 of step 1, attempt 1 and 2 of step 2) over the outcome alphabet x recovery '
        'policy x direction x output interval x mode, one particle per script, all scripts of a configuration in one set; plus '
        'every (unhandled outcome, neighbour outcome) pair of a two-particle set, and of every pair executed once without a time step; non-trivial: script with a non-success '
        'outcome; distinct by (configuration, script)')
BOUNDS = ('16 outcomes, 2 scripted steps x 2 attempts (quick: second attempt of step 2 restricted to 3 outcomes), then success '
          'until the end; 4 complete recovery policies; run length 4, |dt| 1')
ASSUMPTIONS = ['a recovery handler does not itself raise', 'which particle is handled first within a set is not specified']

NAMES = ['ok', 'ret-oob', 'ret-error', 'ret-surface', 'ret-time', 'ret-interp', 'delete()', 'dt/2', 'dt/2+repeat', 'ret-delete',
         'sample-oob', 'sample-surface', 'next_dt', 'next_dt+oob', 'sample-time', 'state=oob']
ERR = {1: 'O', 2: 'E', 3: 'S', 4: 'T', 5: 'I', 10: 'O', 11: 'S', 13: 'O', 14: 'T', 15: 'O'}
CODES = {'O': ErrorCode.ErrorOutOfBounds, 'E': ErrorCode.Error, 'S': ErrorCode.ErrorThroughSurface,
         'T': ErrorCode.ErrorTimeExtrapolation, 'I': ErrorCode.ErrorInterpolation}
EXC = {'O': OutOfBoundsError, 'E': KernelError, 'S': ThroughSurfaceError, 'T': OutOfTimeError,
       'I': statuscodes.InterpolationError}
# policy: what the handler registered for each error does; '-' = no handler registered
POLICIES = {'fix': dict(O='fix', E='fix', S='fix', T='fix', I='fix'),
            'delete': dict(O='del', E='del', S='del', T='del', I='del'),
            'oobonly': dict(O='fix', E='del', S='-', T='del', I='fix'),
            'mixed': dict(O='move', E='fix', S='del', T='move', I='del')}

SRC = """
def script(particle, fieldset, time):
    particle.x += 1.
    particle.i += 1
    particle.lon += 0.25
    act = 0
    if particle.k == 0:
        if particle.a == 0:
            act = particle.c0
        if particle.a == 1:
            act = particle.c1
    if particle.k == 1:
        if particle.a == 0:
            act = particle.c2
        if particle.a == 1:
            act = particle.c3
    if act == 1:
        return ErrorCode.ErrorOutOfBounds
    if act == 2:
        return ErrorCode.Error
    if act == 3:
        return ErrorCode.ErrorThroughSurface
    if act == 4:
        return ErrorCode.ErrorTimeExtrapolation
    if act == 5:
        return ErrorCode.ErrorInterpolation
    if act == 7:
        if math.fabs(particle.dt) > 0.75:
            particle.dt = 0.5 * particle.sg
    if act == 8:
        if math.fabs(particle.dt) > 0.75:
            particle.dt = 0.5 * particle.sg
            return OperationCode.Repeat
    if act == 10:
        u = fieldset.U[time, 1.5, 0.5, 1000.]
    if act == 11:
        u = fieldset.U[time, 0.5, 0.5, 0.5]
    if act == 12:
        particle.update_next_dt(0.5 * particle.sg)
    if act == 13:
        particle.update_next_dt(0.5 * particle.sg)
        return ErrorCode.ErrorOutOfBounds
    if act == 14:
        u = fieldset.U[time + 10000. * particle.sg, 1.5, 0.5, 0.5]
    if act == 15:
        particle.state = ErrorCode.ErrorOutOfBounds
    particle.y += particle.dt
    particle.k += 1
    particle.a = 0
    if act == 9:
        return OperationCode.Delete
    if act == 6:
        particle.delete()
"""
VARS = [('x', np.float64, 0.), ('y', np.float64, 0.), ('i', np.int32, 0), ('k', np.int32, 0), ('a', np.int32, 0),
        ('sg', np.float64, 1.), ('key', np.int64, -1)] + [('c%d' % j, np.int32, 0) for j in range(4)]


def fieldset():
    g = np.arange(4, dtype=np.float32)
    z = np.array([1., 2.], dtype=np.float32)
    t = np.array([-100., 0., 100.])
    d = np.zeros((3, 2, 4, 4), dtype=np.float32)
    return FieldSet.from_data({'U': d, 'V': d.copy()}, {'lon': g, 'lat': g, 'depth': z, 'time': t}, mesh='flat',
                              allow_time_extrapolation=False)


def units(tier):
    u = [{'kind': 'scripts', 'mode': m, 'sgn': s, 'odt': o, 'policy': p}
         for p in POLICIES for m in MODES for s in (1, -1) for o in (None, 1., 2.)]
    u += [{'kind': 'once', 'mode': m, 'policy': p, 'how': how} for m in MODES for p in POLICIES for how in ('runtime', 'dt')]
    u += [{'kind': 'raise', 'mode': m, 'sgn': s} for m in MODES for s in (1, -1)]
    return u


class Out(object):
    def __init__(self, outputdt):
        self.outputdt = outputdt
        self.deleted = []

    def write(self, pset, time, deleted_only=False):
        if deleted_only is not False:
            sel = np.asarray(deleted_only)
            idx = np.where(sel)[0] if sel.dtype == bool else sel
            for i in idx:
                self.deleted.append(snap(pset[int(i)]))


def snap(p):
    return (int(p.key), float(p.time), float(p.x), float(p.y), int(p.i), float(p.lon), int(p.k), int(p.a))


def model(script, policy, sgn, length, odt):
    """-> (handler calls, final snapshot, alive)"""
    t, x, y, i, lon, k, a, pdt = 0., 0., 0., 0, 0.5, 0, 0, 1.
    calls = []
    segs = [length] if not odt else [odt * (j + 1) for j in range(int(length / odt))]
    for end in segs:
        while t < end:
            step = min(pdt, end - t)
            act = 0
            if k < 2 and a < 2:
                act = script[2 * k + a]
            nxt = None
            if act in (7, 8) and step > .75:
                pdt = .5
                continue
            if act in ERR:
                e = ERR[act]
                how = policy[e]
                if how == '-' and e == 'S':
                    e, how = 'O', policy['O']
                calls.append((e, sgn * t, x, sgn * y, i, lon, k, a))
                if how == 'del':
                    return calls, (sgn * t, x, sgn * y, i, lon, k, a), False
                a += 1
                if how == 'move':
                    lon -= .125
                    x += 100.
                continue
            if act == 12:
                nxt = .5
            x, i, lon, y, k, a = x + 1, i + 1, lon + .25, y + step, k + 1, 0
            t += step
            if act in (6, 9):
                return calls, (sgn * t, x, sgn * y, i, lon, k, a), False
            if nxt:
                pdt = nxt
    return calls, (sgn * t, x, sgn * y, i, lon, k, a), True


def run(unit, ctx):
    {'scripts': scripts, 'once': once, 'raise': raise_}[unit['kind']](unit, ctx)


def mkset(fs, P, scripts, sgn):
    n = len(scripts)
    c = np.array(scripts, dtype=np.int32)
    return ParticleSet(fs, pclass=P, lon=np.full(n, .5), lat=np.full(n, .5), depth=np.full(n, 1.5), time=np.zeros(n),
                       sg=np.full(n, float(sgn)), key=np.arange(n), c0=c[:, 0], c1=c[:, 1], c2=c[:, 2], c3=c[:, 3])


def scripts(unit, ctx):
    full = range(16)
    last = full if ctx.tier == 'thorough' else (0, 1, 6)
    allscripts = [s for s in itertools.product(full, full, full, last)
                  # canonical form: an attempt that cannot be reached is 0
                  if (s[0] in ERR or s[1] == 0) and (s[2] in ERR or s[3] == 0)]
    fs = fieldset()
    P = pclass(unit['mode'], VARS)
    cache = KernelCache()
    step = func(SRC, 'script')
    pol = POLICIES[unit['policy']]
    B = 400
    for b in range(0, len(allscripts), B):
        block = allscripts[b:b + B]
        if not ctx.case(dict(unit, block=b)):
            continue
        log = {}

        def handler(code):
            def h(particle, fieldset, time):
                log.setdefault(int(particle.key), []).append((code,) + snap(particle)[1:])
                ctx.expect(float(time) == float(particle.time), 'handlertime %s' % unit, 'handler called with time %r for a '
                           'particle at time %r' % (time, particle.time))
                if pol[code] == 'del':
                    particle.delete()
                else:
                    particle.a += 1
                    if pol[code] == 'move':
                        particle.lon -= .125
                        particle.x += 100.
            return h
        rec = {CODES[c]: handler(c) for c in pol if pol[c] != '-'}
        before = dict(rec)
        ps = mkset(fs, P, block, unit['sgn'])
        ids = [int(p.id) for p in ps]
        out = Out(unit['odt']) if unit['odt'] else Out(np.inf)
        cache.execute('k', ps, step, runtime=4., dt=float(unit['sgn']), recovery=rec, output_file=out)
        ctx.expect(rec == before, 'recoverydict', 'the recovery dictionary of the caller was changed from %s to %s' % (sorted(before), sorted(rec)))
        alive = {int(p.key): snap(p) for p in ps}
        order = [int(p.key) for p in ps]
        gone = {}
        for s in out.deleted:
            ctx.expect(s[0] not in gone, 'deltwice', lambda: 'particle %s written twice on deletion' % (s,))
            gone[s[0]] = s
        ctx.expect(order == sorted(order) and [int(p.id) for p in ps] == [ids[k] for k in order], 'order %s' % unit,
                   'surviving particles %s are not the remaining ones in order' % order[:20])
        ctx.evaluations += len(block) - 1
        for key, sc in enumerate(block):
            calls, fin, live = model(sc, pol, unit['sgn'], 4., unit['odt'])
            nm = '%s %s %s' % (unit['mode'], unit['policy'], '/'.join(NAMES[c] for c in sc))
            got = (log.get(key, []), alive.get(key, gone.get(key, (None,) * 8))[1:], key in alive)
            ctx.expect(got == (calls, fin, live), nm, lambda: 'sgn=%d odt=%s: expected (handler calls, final values, alive) %s, got %s'
                       % (unit['sgn'], unit['odt'], (calls, fin, live), got))
            ctx.expect((key in alive) != (key in gone), nm, 'particle both alive and deleted, or neither')
            ctx.trace()
            ctx.step(len(calls) + 1)
            ctx.state((unit['policy'], unit['odt'], fin, live))
            if any(sc):
                ctx.distinct((unit['mode'], unit['sgn'], unit['odt'], unit['policy'], sc))
            ctx.outcome('deleted' if not live else ('recovered' if calls else 'plain'))
            ctx.sample({'script': [NAMES[c] for c in sc], 'policy': unit['policy'], 'handler_calls': calls, 'final': fin})


def once(unit, ctx):
    """A single execution without time step: every particle commits one kernel call, whatever happens to the others."""
    pol = POLICIES[unit['policy']]
    fs = fieldset()
    P = pclass(unit['mode'], VARS)
    cache = KernelCache()
    step = func(SRC, 'script')
    firsts = [(a, b if a in ERR else 0) for a in range(16) for b in (range(16) if a in ERR else (0,))]
    # together with a neighbour of every kind before and after it
    for other in (range(16) if ctx.tier == 'thorough' else (0, 1, 3, 9, 11)):
        for pos in (0, 1):
            for a, b in firsts:
                case = dict(unit, other=other, pos=pos, script=(a, b))
                if not ctx.case(case):
                    continue
                scr = [(a, b, 0, 0), (other, 0, 0, 0)]
                if pos:
                    scr = scr[::-1]
                log = {}

                def handler(code):
                    def h(particle, fieldset, time):
                        log.setdefault(int(particle.key), []).append((code,) + snap(particle)[1:])
                        if pol[code] == 'del':
                            particle.delete()
                        else:
                            particle.a += 1
                            if pol[code] == 'move':
                                particle.lon -= .125
                                particle.x += 100.
                    return h
                ps = mkset(fs, P, scr, 1)
                rec = {CODES[c]: handler(c) for c in pol if pol[c] != '-'}
                cache.execute('k', ps, step, recovery=rec, **(dict(runtime=0., dt=1.) if unit['how'] == 'runtime' else dict(runtime=3., dt=0.)))
                alive = {int(p.key): snap(p) for p in ps}
                for key, sc in enumerate(scr):
                    calls, fin, live = model_once(sc, pol)
                    got = (log.get(key, []), alive.get(key, (None,) * 8)[1:] if live else fin, key in alive)
                    ctx.expect(got == (calls, fin, live), '%s once %s %s next to %s' % (unit['mode'], unit['policy'], NAMES[sc[0]], NAMES[scr[1 - key][0]]),
                               lambda: '%s: expected (handler calls, final values, alive) %s, got %s' % (case, (calls, fin, live), got))
                ctx.trace()
                ctx.step(len(calls) + 1)
                ctx.state(('once', unit['policy'], fin, live))
                ctx.distinct(case)
                ctx.outcome('once')


def model_once(script, policy):
    x, i, lon, a, calls = 0., 0, .5, 0, []
    while True:
        act = script[a] if a < 2 else 0
        if act not in ERR:
            gone = act in (6, 9)
            return calls, (0., x + 1, 0., i + 1, lon + .25, 1, 0), not gone
        e = ERR[act]
        how = policy[e]
        if how == '-' and e == 'S':
            e, how = 'O', policy['O']
        calls.append((e, 0., x, 0., i, lon, 0, a))
        if how == 'del':
            return calls, (0., x, 0., i, lon, 0, a), False
        a += 1
        if how == 'move':
            lon -= .125
            x += 100.


def raise_(unit, ctx):
    fs = fieldset()
    P = pclass(unit['mode'], VARS)
    cache = KernelCache()
    step = func(SRC, 'script')

    def fixer(particle, fieldset, time):
        particle.a += 1
    for act, other, pos, when, handled in itertools.product(sorted(ERR), (0, 7, 9, 'fixed'), (0, 1), (0, 2), (False, True)):
        case = dict(unit, act=act, other=other, pos=pos, when=when, handled=handled)
        if not ctx.case(case):
            continue
        e = ERR[act]
        sc = [0] * 4
        sc[when] = act
        # the neighbour may fail as well, with an error that has a handler
        oc = other if other != 'fixed' else (2 if e != 'E' else 4)
        scr = [tuple(sc), (oc, 0, 0, 0)]
        if pos:
            scr = scr[::-1]
        ps = mkset(fs, P, scr, unit['sgn'])
        rec = {} if other != 'fixed' else {CODES[ERR[oc]]: fixer}
        if handled:
            rec[CODES[e]] = fixer
        err = None
        try:
            cache.execute('k', ps, step, runtime=4., dt=float(unit['sgn']), recovery=rec or None)
        except Exception as ex:
            err = ex
        nm = '%s unhandled %s other=%s pos=%d when=%d' % (unit['mode'], NAMES[act], other, pos, when)
        if handled:
            ctx.expect(err is None, nm, lambda: 'error %s with a registered handler raised %r' % (NAMES[act], err))
            ctx.outcome('handled')
        else:
            want = EXC[e]
            ctx.expect(err is not None and type(err) is want, nm,
                       lambda: 'error %s without a handler: expected %s, got %r' % (NAMES[act], want.__name__, err))
            ctx.outcome('raised')
        ctx.trace()
        ctx.step()
        ctx.state(('raise', act, other, pos, when, handled, type(err).__name__))
        ctx.distinct(case)
