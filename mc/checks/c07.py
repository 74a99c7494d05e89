"""C07: every kernel of the supported language does the same compiled and interpreted."""
import itertools
import math

import numpy as np

from pk import MODES, ERRS, ErrorCode, Field, FieldSet, ParticleSet, StateCode, OperationCode, VectorField, func, pclass  # noqa: F401
from parcels import NestedField, SummedField

ID = 'C07'
LEVEL = 'model_checking'
RULE = ('every expression tree, boolean tree, function call, statement sequence and sampling template that the grammar of the '
        'tier generates, run compiled and interpreted on every combination of the input values; outcome (final values, error '
        'kind, deletion) compared; programs whose interpreted execution fails on an arithmetic error are skipped; '
        'non-trivial: the program was executed in both modes on at least one input; distinct by program text')
BOUNDS = ('expression trees of depth 2 over 4-6 leaves and 5 operators; boolean trees of depth 3 over 3 comparisons; sequences of '
          '3 statements of a 9-statement alphabet and their conditional/loop embeddings; sampling of plain, summed, nested and '
          'vector fields in 30 statement contexts x 5 argument forms x 4 positions')
ASSUMPTIONS = ['constants of a field set are changed only before the kernel is compiled (documented)',
               'statements after particle.delete() in the same call are not executed in compiled mode by design',
               'values of and/or on non-boolean operands, sums of two comparisons (numpy adds them as '
               'logical or), division by zero and integer overflow are outside the kernel language']

XS, NS, DS = (-2.5, 0.75, 3.), (-3, 2, 5), (1.25, -0.5)
TOL = 2e-5
VARS = [('x', np.float32, 0.), ('n', np.int32, 0), ('d', np.float64, 0.), ('k', np.int32, 0), ('sel', np.int32, -1), ('grp', np.int32, -1)]


# --------------------------------------------------------------------------------------------- grammar
def d1(leaves, ops):
    return ['(%s %s %s)' % (a, o, b) for a in leaves for o in ops for b in leaves]


def expressions(tier, part):
    ops = ['+', '-', '*', '/', '%']
    full = ['particle.x', 'particle.n', 'a', '2', '0.5', 'fieldset.c']
    small = ['particle.x', 'particle.n', '2', 'a']
    if part == 'd1':
        e1 = d1(full + ['particle.d', 'time', '3'], ops)
        return e1 + ['-' + e for e in e1] + ['(-%s) %% %s' % (a, b) for a in full for b in full] + \
            ['(-%s)**2' % a for a in full] + ['-%s**2' % a for a in full] + ['%s**2' % a for a in full] + ['2**%s' % a for a in full] + \
            ['(%s)**3 / 7' % a for a in full] + ['- -%s' % a for a in full] + ['1/2', '7/2*2', '1/3 + particle.x', '7 % 4', '-7 % 4', '7 % -4', '7.5 % 2',
                                                                               '86400 * 365 * 100', 'particle.x + 3600 * 24 * 365 * 80', '1e10 / 3', '1e-3 * particle.n',
                                                                               '+particle.x', 'particle.x + True', 'True + False', 'math.pi * 2', 'math.e', '-(particle.n) / 2']
    leaves = full if tier == 'thorough' else small
    e1 = d1(leaves, ops)
    if part == 'left':
        return ['%s %s %s' % (e, o, b) for e in e1 for o in ops for b in leaves]
    if part == 'right':
        return ['%s %s %s' % (b, o, e) for e in e1 for o in ops for b in leaves]
    if part == 'bare':      # no parentheses in the source: the precedence of the language decides
        return ['%s %s %s %s %s' % (a, o, b, q, e) for a in leaves for o in ops for b in leaves for q in ops for e in leaves]
    t3 = ['particle.x', 'particle.n', '2']
    e1 = d1(t3, ops)
    return ['%s %s %s' % (a, o, b) for a in e1 for o in ops for b in e1]


def bools(tier):
    at = ['particle.x < 1', 'particle.n == 2', 'a >= particle.x']
    l1 = at + ['not %s' % a for a in at]
    l2 = ['%s %s %s' % (p, o, q) for p in l1 for o in ('and', 'or') for q in l1]
    out = ['%s' % e for e in l1 + l2] + ['not (%s)' % e for e in l2]
    for e in l2:
        for b in (l1 if tier == 'thorough' else at):
            for o in ('and', 'or'):
                out += ['(%s) %s %s' % (e, o, b), '%s %s (%s)' % (b, o, e), '%s %s %s' % (e, o, b), '%s %s %s' % (b, o, e)]
    return out


def cmps(tier):
    cs = ['<', '<=', '>', '>=', '==', '!=']
    t = ['particle.x', 'particle.n', '2', '(particle.x < 1)', '(particle.x < 1 and particle.n == 2)', 'particle.n + 1', 'particle.n % 2', '-particle.x', 'True']
    out = ['%s %s %s' % (a, o, b) for a in t for o in cs for b in t]
    out += ['(%s %s %s) %s %s' % (a, o, b, q, c) for a in t[:3] for o in cs[:2] for b in t[:3] for q in ('+', '*', '-', '<', '==') for c in ('2', 'particle.n')]
    out += ['%s %s (%s %s %s)' % (c, q, a, o, b) for a in t[:3] for o in cs[:2] for b in t[:3] for q in ('+', '*', '-', '<', '==') for c in ('2', 'particle.n')]
    out += ['(%s and %s) %s %s' % (a, b, q, c) for a in ('particle.x < 1', 'particle.n == 2') for b in ('a > 1', 'particle.n < 5')
            for q in ('+', '*', '==') for c in ('2', 'particle.n', '(particle.x > 1 or particle.n > 3)') if q != '+' or c[0] != '(']
    return out


def funcs():
    one = ['sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'exp', 'expm1', 'fabs', 'floor', 'ceil', 'trunc', 'erf', 'erfc', 'degrees', 'radians',
           'sqrt', 'log', 'log10', 'log2', 'log1p', 'acos', 'asin', 'acosh', 'atanh', 'gamma', 'lgamma', 'isnan', 'isinf', 'isfinite', 'cbrt', 'exp2']
    two = ['atan2', 'pow', 'fmod', 'hypot', 'copysign', 'remainder']
    args = ['particle.x', 'particle.n', '0.25', 'math.fabs(particle.x) + 0.5', 'particle.x / 4', 'particle.n / 2', 'math.fabs(particle.n) * 1.5', 'particle.x < 1']
    out = ['math.%s(%s)' % (f, a) for f in one for a in args]
    out += ['math.%s(%s, %s)' % (f, a, b) for f in two for a in args[:4] for b in ('particle.n', '2', 'particle.x + 0.5')]
    out += ['abs(%s)' % a for a in args + ['-particle.x', 'particle.x - 3.25', '-0.5', '-7']]
    for f in ('min', 'max'):
        out += ['%s(%s, %s)' % (f, a, b) for a in args[:6] for b in ('particle.n', '2', 'particle.x + 0.5', '-particle.x')]
        out += ['%s(%s, %s) * 2 + 1' % (f, a, b) for a in args[:3] for b in ('particle.n', '2')]
        out += ['2 - %s(min(%s, %s), particle.d)' % (f, a, b) for a in args[:3] for b in ('particle.n', '2')]
        out += ['%s(particle.x < 1, particle.n == 2)' % f, '%s(particle.x - 1, 2 - particle.n)' % f]
    out += ['math.sqrt(math.fabs(particle.x)) / 2 ** 2', 'math.sin(particle.x) ** 2 + math.cos(particle.x)**2', '-math.floor(particle.x) % 2', 'round(particle.x)', 'round(particle.x / 3)',
            'round(particle.n / 2)', 'int(particle.x)', 'float(particle.n) / 2', 'int(particle.x / 2) + 0.5', 'bool(particle.n)']
    return out


STM = ['a = particle.x', 'particle.x = a + 1', 'particle.n = a', 'particle.x += particle.n', 'a *= 2 - particle.n', 'a, particle.x = particle.x, a',
       'particle.n -= 1', 'a = b = particle.x - a', 'particle.x /= 2']
EXTRA = [['a %= 2'], ['particle.n %= 2'], ['particle.n /= 2'], ['particle.x -= particle.n / 2'], ['particle.n, particle.x = particle.x, particle.n'], ['a, b = b, a'],
         ['a, b = b, a + b', 'a, b = b, a + b', 'particle.x = b'], ['(a, b) = (particle.n, a)', 'particle.x = a - b'], ['particle.x = b = a'], ['a = particle.x = particle.n = 2.5'],
         ['c = [1., 2., 4.]', 'particle.x = c[0] + c[2]'], ['c = [[1., 2.], [3., 5.]]', 'particle.x = c[1][0] * c[1][1]'], ['c = [1., 2., 4.]', 'c[1] = 7.', 'particle.x = c[1]'],
         ['c = [1., 2., 4.]', 'b = 0', 'while b < 3:', '    particle.x += 1', '    b += 1'], ['pass', 'a = 2'], ["'doc string'", 'a = 3'], ['a = True', 'if a:', '    particle.x = 9'],
         ['particle.n = True'], ['particle.x = False'], ['a = particle.n / 2', 'particle.x = a'], ['particle.d = time', 'particle.x = time + 1'], ['particle.n = -2.75'], ['particle.n = 2.75'],
         ['particle.x **= 2'], ['particle.x //= 2'], ['particle.x = particle.n // 2'], ['particle.x = 1 if particle.n > 1 else 2'], ['a, b = particle.x, 1', 'particle.x = a + b'],
         ['particle.lon, particle.lat = particle.lat, particle.lon'], ['particle.lon, particle.lat = particle.lon + 0.5, particle.lon * 2', 'particle.x = particle.lat'],
         ['particle.d, particle.x = particle.d + 1e-9, particle.d'], ['a = 16777217.', 'particle.d = particle.d * a / 16777217.'], ['particle.x = 3', 'particle.x *= particle.x - 1']]
CONDS = ['particle.x < 1', 'not particle.n == 2', 'particle.n > 1 and a < 5', 'particle.n % 2 == 1']


def progs(tier):
    out = [[a, b, c] for a in STM for b in STM for c in STM] if tier == 'thorough' else [[a, b] for a in STM for b in STM]
    out += EXTRA
    ind = lambda body, k=1: ['    ' * k + s for s in body]   # noqa: E731
    simple = STM if tier == 'thorough' else STM[:7]
    for c in CONDS:
        for s in simple:
            for t in simple[:5]:
                out += [['if %s:' % c] + ind([s]) + [t], ['if %s:' % c] + ind([s]) + ['else:'] + ind([t]),
                        ['if %s:' % c] + ind([s, t]) + ['elif a < 2:'] + ind([t, s]) + ['else:'] + ind([s, s])]
    for s in simple:
        out += [['w = 0', 'while w < 3:'] + ind([s, 'w += 1']), ['w = 3', 'while w < 3:'] + ind([s, 'w += 1']),
                ['w = 0', 'while w < 6:'] + ind([s, 'w += 1', 'if particle.x > 2:'] + ind(['break']) + ['particle.d += 1']),
                ['w = 0', 'while w < 3:'] + ind(['v = 0', 'while v < 2:'] + ind([s, 'v += 1']) + ['w += 1']),
                ['w = 0', 'while w < 3 and particle.x < 4:'] + ind([s, 'w += 1']),
                ['w = 0', 'while w < 4:'] + ind(['w += 1', 'if w == 2:'] + ind(['particle.d += 10']) + ['elif w == 3:'] + ind(['break']) + ['else:'] + ind([s])),
                ['w = 0', 'while w < 4:'] + ind(['w += 1', 'if w == 2:'] + ind(['continue']) + [s])]
        for r in ('return', 'return StateCode.Success', 'return ErrorCode.Error', 'return OperationCode.Delete', 'particle.delete()', 'return ErrorCode.ErrorOutOfBounds'):
            out += [['if particle.n > 1:'] + ind([s, r]) + ['particle.d = 7'], [s, 'if particle.x > 0:'] + ind([r]) + ['else:'] + ind([s]), ['if particle.x < 1:'] + ind(
                ['if particle.n > 1:'] + ind([r]) + [s])]
    for r in ('return ErrorCode.ErrorInterpolation', 'return ErrorCode.ErrorThroughSurface', 'return ErrorCode.ErrorTimeExtrapolation'):
        out += [['if particle.n > 1:'] + ind(['particle.x = 8', r]) + ['particle.d = 7']]
    return out


# sampling: (name, expression of one value)
SRCS = [('F', 'fieldset.F[{a}]'), ('S', 'fieldset.S[{a}]'), ('N', 'fieldset.N[{a}]'), ('eval', 'fieldset.F.eval({a})'), ('mix', 'fieldset.F[{a}] * fieldset.S[{a}]')]
ARGS = ['particle', 'time, particle.depth, particle.lat, particle.lon', 'time, particle.depth, particle.lat, particle.lon + 0.5', 'time, particle.depth, a, particle.lon',
        'time, particle.depth, particle.lat, fieldset.G[time, particle.depth, particle.lat, particle.lon]', 'time, particle.depth, particle.lat, particle.lon, particle']
VSRCS = [('UV', 'fieldset.UV[{a}]'), ('SUV', 'fieldset.SUV[{a}]'), ('NUV', 'fieldset.NUV[{a}]'), ('UVW', 'fieldset.UVW[{a}]'), ('SUVW', 'fieldset.SUVW[{a}]')]
STMT = [  # templates; {s} sampled value
    ['particle.x = {s}'], ['particle.x += {s}'], ['particle.x *= {s}'], ['particle.x -= {s}'], ['particle.x = 2 * {s}'], ['particle.x = {s} * 2'], ['particle.x = -{s}'],
    ['particle.x = particle.n - {s}'], ['particle.x = {s} / 2 + 1'], ['particle.x = 1 / ({s} + 40)'], ['particle.x = {s} ** 2'], ['particle.x = {s} * {s}'], ['particle.x = {s} % 2'],
    ['b = {s}', 'particle.x = b'], ['particle.x = math.sqrt(math.fabs({s}))'], ['particle.x = max({s}, 1.5)'], ['particle.x = min(2, {s})'], ['particle.n = {s}'],
    ['particle.x, particle.d = {s}, {s} + 1'], ['b, particle.x = particle.lon, {s}', 'particle.d = b'], ['particle.x = {s} < 3'], ['particle.x = {s} > 1 and {s} < 3'],
    ['if {s} > 2:', '    particle.x = 7'], ['if {s} > 2:', '    particle.delete()'], ['if {s} > 2:', '    particle.delete()', 'else:', '    particle.x = 5'],
    ['if {s} > 2:', '    pass', 'else:', '    particle.x = 5'], ['if {s} > 2:', '    particle.x += 1', '    particle.d += 1', 'particle.x += 1'], ['if {s} > 2 and particle.n > 1:', '    particle.x = 3', 'else:', '    particle.x = 4'],
    ['if not {s} > 2:', '    return ErrorCode.Error', 'particle.x = 4'], ['if particle.n > 1:', '    if {s} > 2:', '        particle.x = 3', '    else:', '        particle.x = {s}'],
    ['if particle.n > 1:', '    particle.x = 1', 'elif {s} > 2:', '    particle.x = 2', 'else:', '    particle.x = 3'], ['if {s} > 2:', '    particle.x = {s}', 'elif {s} > 1:', '    particle.x = 2 * {s}'],
    ['if {s} > 2:', '    if {s} < 3:', '        particle.delete()', '    particle.x = 6'], ['if particle.n > 100:', '    particle.x = {s}', 'else:', '    particle.x = 1'],
    ['w = 0', 'while {s} < 3 and w < 5:', '    particle.lon += 0.25', '    particle.x += 1', '    w += 1'],
    ['w = 0', 'while {s} + w < 4:', '    w += 1', '    if w > 2:', '        break', 'particle.x = w'],
    ['w = 0', 'while w < 3:', '    particle.x += {s}', '    particle.lon += 0.25', '    w += 1'],
    ['if {s} > 2:', '    return OperationCode.Delete', 'particle.x = {s}'], ['particle.lon += {s} * 0.01', 'particle.lat = {s} * 0.1', 'particle.x = {s}'],
    ['if {s} > 2:', '    w = 0', '    while w < 2:', '        w += 1', '        particle.x += {s}']]
SHORT = [['if {s} > 1 or particle.lon > 3.5 and {s} < 2:', '    particle.x = 7'], ['particle.x = particle.lon < 3.5 and ({s} > 1 or particle.n > 1 and {s} < 1)'],
         ['w = 0', 'while w < 3 and {s} < 3:', '    particle.lon += 1', '    w += 1'], ['if not (particle.lon > 3.5 or {s} > 1 or {s} < 0.5):', '    particle.x = 8'],
         ['if particle.lon > 3.5:', '    particle.x = 1', 'elif particle.n > 1 and {s} > 2:', '    particle.x = 2'], ['if particle.lon < 3.5 and {s} > 1:', '    particle.x = 7'], ['if particle.lon > 3.5 or {s} > 1:', '    particle.x = 7']]
VSTMT = [['(u, v{w}) = {s}', 'particle.x = u', 'particle.d = v'], ['u, v{w} = {s}', 'particle.x = u - v', 'particle.d = v'], ['(particle.x, particle.d{w}) = {s}'], ['u, v{w} = {s}', 'particle.x += u * 2', 'u, v{w} = {s}', 'particle.d += v'],
         ['if particle.n > 1:', '    (u, v{w}) = {s}', '    particle.x = u', 'else:', '    (v, u{w}) = {s}', '    particle.d = u'], ['(v, u{w}) = {s}', 'particle.lon += u * 0.01', 'particle.x = v']]
PTS = [(0.5, 0.25), (2.25, 1.), (1.75, 1.5), (7., 1.), (3.75, 0.5)]


# --------------------------------------------------------------------------------------------- units
def chunks(n, size):
    return [(i, min(i + size, n)) for i in range(0, n, size)]


def plan(tier, kind, part=None):
    if kind == 'expr':
        return expressions(tier, part)
    return {'bool': bools, 'cmp': cmps}[kind](tier) if kind != 'func' else funcs()


def samp_programs(tier):
    out = []
    for (nm, src), (ia, a) in itertools.product(SRCS, enumerate(ARGS)):
        if nm == 'eval' and ia in (0, 5):
            continue       # Field.eval takes plain arguments only
        for t in STMT:
            if tier != 'thorough' and nm in ('eval', 'mix') and ia > 1:
                continue
            out.append([s.replace('{s}', src.replace('{a}', a)) for s in t])
    for (nm, src), (ia, a) in itertools.product(VSRCS, enumerate(ARGS)):
        for t in VSTMT:
            out.append([s.replace('{s}', src.replace('{a}', a)).replace('{w}', ', q' if nm.endswith('UVW') else '') for s in t])
    for nm, src in SRCS[:3]:
        for t in SHORT:
            out.append([s.replace('{s}', src.replace('{a}', 'particle')) for s in t])
    return out


def units(tier):
    u = []
    for part in ('d1', 'left', 'right', 'bare') + (('both',) if tier == 'thorough' else ()):
        u += [{'kind': 'expr', 'part': part, 'range': r} for r in chunks(len(expressions(tier, part)), 400)]
    u += [{'kind': 'bool', 'range': r} for r in chunks(len(bools(tier)), 300)]
    u += [{'kind': 'cmp', 'range': r} for r in chunks(len(cmps(tier)), 300)]
    u += [{'kind': 'func', 'range': r} for r in chunks(len(funcs()), 60)]
    u += [{'kind': 'prog', 'range': r} for r in chunks(len(progs(tier)), 60)]
    u += [{'kind': 'samp', 'range': r} for r in chunks(len(samp_programs(tier)), 40)]
    u += [{'kind': 'const'}, {'kind': 'pad'}]
    return u


# --------------------------------------------------------------------------------------------- running
def fieldset():
    lon = np.arange(5, dtype=np.float32)
    lat = np.array([0., 1., 2.], dtype=np.float32)
    X, Y = np.meshgrid(lon, lat)
    fs = FieldSet.from_data({'U': (X + Y).astype(np.float32), 'V': (2 * X - Y).astype(np.float32), 'W': (X - 3 * Y).astype(np.float32)}, {'lon': lon, 'lat': lat}, mesh='flat')
    fs.add_constant('c', 1.5)
    F = Field('F', (X * 1. + 0.5 * Y).astype(np.float32), lon=lon, lat=lat, mesh='flat')
    G = Field('G', (4. - X + 0.25 * Y).astype(np.float32), lon=lon, lat=lat, mesh='flat')
    small = np.array([1., 2., 3.], dtype=np.float32)
    H = Field('H', np.full((3, 3), 2.5, dtype=np.float32), lon=small, lat=lat, mesh='flat')
    for f in (F, G, H):
        fs.add_field(f)
    fs.add_field(SummedField('S', [F, G, F]))
    fs.add_field(NestedField('N', [H, F]))
    UV2 = [Field('U2', (Y + 1).astype(np.float32), lon=lon, lat=lat, mesh='flat'), Field('V2', (X * 2).astype(np.float32), lon=lon, lat=lat, mesh='flat'),
           Field('W2', (X * Y).astype(np.float32), lon=lon, lat=lat, mesh='flat')]
    US = [Field('US', np.full((3, 3), 2.5, dtype=np.float32), lon=small, lat=lat, mesh='flat'), Field('VS', np.full((3, 3), -1.5, dtype=np.float32), lon=small, lat=lat, mesh='flat')]
    for f in UV2 + US:
        fs.add_field(f)
    uv, uv2, uvs = VectorField('uv', fs.U, fs.V), VectorField('uv2', UV2[0], UV2[1]), VectorField('uvs', US[0], US[1])
    w1, w2 = VectorField('w1', fs.U, fs.V, fs.W), VectorField('w2', *UV2)
    for f in (uv, uv2, uvs, w1, w2, SummedField('SUV', [uv, uv2]), NestedField('NUV', [uvs, uv]), SummedField('SUVW', [w1, w2])):
        fs.add_vector_field(f)
    fs.check_complete()
    return fs


class Runner(object):
    """One kernel, many particles, both modes. Snapshots per particle: ('end', values) / (error kind, values at the handler)."""

    def __init__(self, fs, names=('x', 'n', 'd', 'lon', 'lat'), nout=0, dtype=np.float64):
        self.fs, self.names, self.nout, self.dtype = fs, list(names) + ['o%d' % i for i in range(nout)], nout, dtype

    def run(self, mode, src, parts):
        P = pclass(mode, VARS + [('o%d' % i, np.float64, -999.) for i in range(self.nout)], name='VP7' + mode)
        ps = ParticleSet(self.fs, pclass=P, lon=[p['lon'] for p in parts], lat=[p['lat'] for p in parts], lonlatdepth_dtype=self.dtype,
                         time=[p.get('t', 0.) for p in parts], k=list(range(len(parts))), **{v: [p.get(v, 0) for p in parts] for v in ('x', 'n', 'd', 'sel', 'grp')})
        res = [('deleted',)] * len(parts)
        snap = lambda p: tuple(float(getattr(p, v)) for v in self.names)   # noqa: E731

        def handler(name):
            def f(particle, fieldset, time):
                res[int(particle.k)] = (name,) + snap(particle)
                particle.delete()
            return f
        with np.errstate(all='ignore'):
            ps.execute(func(src, 'K'), runtime=1., dt=1., recovery={c: handler(n) for n, c in ERRS.items()})
        for p in ps:
            res[int(p.k)] = ('end',) + snap(p)
        return res


def close(a, b):
    if a[0] != b[0]:
        return False
    return all((p == q) or abs(p - q) <= TOL * (1 + max(abs(p), abs(q))) for p, q in zip(a[1:], b[1:]))


def bisect(runner, ctx, head, items, build, parts, sig):
    """Both modes for a list of items; if the compiled mode refuses them, find out which."""
    src = build(items)
    ref = runner.run('scipy', src, parts(items))
    try:
        got = runner.run('jit', src, parts(items))
    except Exception as e:
        if len(items) == 1:
            ctx.outcome('refused')
            return
        ctx.tick()
        h = len(items) // 2
        bisect(runner, ctx, head, items[:h], build, parts, sig)
        bisect(runner, ctx, head, items[h:], build, parts, sig)
        return
    head(items, ref, got)


def ok_inputs(exprs, inputs, consts):
    """Expressions that evaluate to a finite real number for every input."""
    out = []
    for e in exprs:
        code = compile(e, '<e>', 'eval')
        good = True
        for p in inputs:
            env = {'particle': p, 'fieldset': consts, 'math': math, 'a': 1.5, 'time': 0.}
            try:
                with np.errstate(all='raise', under='ignore'):
                    v = eval(code, env)
                good = not isinstance(v, complex) and math.isfinite(v)
            except Exception:
                good = False
            if not good:
                break
        if good:
            out.append(e)
    return out


class Obj(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def run(unit, ctx):
    kind = unit['kind']
    if kind in ('expr', 'bool', 'cmp', 'func'):
        values(unit, ctx)
    elif kind in ('prog', 'samp'):
        programs(unit, ctx)
    elif kind == 'const':
        consts(ctx)
    else:
        padding(ctx)


def values(unit, ctx):
    fs = fieldset()
    lo, hi = unit['range']
    exprs = plan(ctx.tier, unit['kind'], unit.get('part'))[lo:hi]
    inputs = [dict(lon=1., lat=1., x=x, n=n, d=d) for x in XS for n in NS for d in DS]
    objs = [Obj(x=np.float32(p['x']), n=np.int32(p['n']), d=p['d']) for p in inputs]
    good = ok_inputs(exprs, objs, Obj(c=1.5))
    if unit['kind'] == 'func':     # inputs outside the domain of a function: only those that are valid there
        rest = [e for e in exprs if e not in set(good)]
    else:
        rest = []
    for group, sel in [(good, list(range(len(inputs))))] + [([e], [i for i in range(len(inputs)) if ok_inputs([e], [objs[i]], Obj(c=1.5))]) for e in rest]:
        if not group or not sel:
            continue
        r = Runner(fs, names=(), nout=len(group))
        if not ctx.case({'first': group[0], 'n': len(group)}):
            continue
        cond = unit['kind'] == 'bool'

        def build(items):
            body = ''.join(('    if %s:\n        particle.o%d = 1\n    else:\n        particle.o%d = 2\n' % (e, i, i)) if cond else '    particle.o%d = %s\n' % (i, e) for i, e in enumerate(items))
            return 'def K(particle, fieldset, time):\n    a = 1.5\n' + body

        def head(items, ref, got):
            for i, e in enumerate(items):
                ctx.evaluations += len(sel)
                ctx.distinct((unit['kind'], e))
                ctx.step(len(sel))
                for j, (p, q) in enumerate(zip(ref, got)):
                    v, w = (p[1 + i], q[1 + i]) if len(p) > 1 and len(q) > 1 else (p, q)
                    ctx.state((e, v))
                    if not close(('end', v), ('end', w)) if isinstance(v, float) else v != w:
                        ctx.violate(e, 'x, n, d = %s: interpreted %r, compiled %r' % ([inputs[sel[j]][c] for c in 'xnd'], v, w))
                        break
            ctx.trace()
            ctx.outcome(unit['kind'])
            ctx.sample({'expr': items[0], 'values': [p[1] for p in ref][:4]})
        bisect(r, ctx, head, group, build, lambda items: [inputs[i] for i in sel], unit['kind'])
        ctx.tick()


def programs(unit, ctx):
    fs = fieldset()
    lo, hi = unit['range']
    ps = (progs if unit['kind'] == 'prog' else samp_programs)(ctx.tier)[lo:hi]
    if unit['kind'] == 'prog':
        inputs = [dict(lon=1.25, lat=1.5, x=x, n=n, d=0.25) for x in XS for n in NS]
    else:
        inputs = [dict(lon=x, lat=y, x=1.5, n=n, d=0.25) for x, y in PTS for n in (1, 2)]
    r = Runner(fs)
    if not ctx.case({'first': ps[0], 'n': len(ps)}):
        return
    # programs are bundled, each particle executes one of them; the ones a mode refuses are found by bisection
    legal = []
    for p in ps:
        try:
            compile('def K(particle, fieldset, time):\n    while 1:\n' + ''.join('        %s\n' % s for s in p), '<p>', 'exec')
            legal.append(p)
        except SyntaxError:
            pass
    # a program is also executed alone at the top level of the kernel when its bundle position is 0 mod 20

    def build(items):
        if len(items) == 1:
            return 'def K(particle, fieldset, time):\n    a = 1.5\n    b = 0.5\n' + ''.join('    %s\n' % s for s in items[0])
        src = 'def K(particle, fieldset, time):\n    a = 1.5\n    b = 0.5\n'
        for g in range(0, len(items), 10):
            src += '    if particle.grp == %d:\n' % (g // 10)
            for i, p in enumerate(items[g:g + 10]):
                src += '        if particle.sel == %d:\n' % i + ''.join('            %s\n' % s for s in p)
        return src

    def parts(items):
        return [dict(p, sel=i % 10, grp=i // 10) for i in range(len(items)) for p in inputs]

    def head(items, ref, got):
        for i, p in enumerate(items):
            txt = '; '.join(p)
            ctx.distinct(txt)
            for j in range(len(inputs)):
                a, b = ref[i * len(inputs) + j], got[i * len(inputs) + j]
                ctx.evaluations += 1
                ctx.step()
                ctx.outcome(a[0])
                ctx.state((txt, a))
                if a[0] == 'error' and 'ErrorCode.Error\n' not in txt + '\n' and 'return ErrorCode.Error' not in txt:
                    ctx.outcome('skipped: interpreted execution failed')
                    continue
                if not close(a, b):
                    ctx.violate(txt, 'x, n, lon, lat = %s: interpreted %s, compiled %s (x, n, d, lon, lat)' % ([inputs[j][c] for c in ('x', 'n', 'lon', 'lat')], a, b))
                    break
        ctx.trace()
        ctx.sample({'program': items[0], 'outcome': ref[0]})
    bisect(r, ctx, head, legal, build, parts, unit['kind'])
    for p in legal[::8]:
        ctx.tick()
        bisect(r, ctx, head, [p], build, parts, unit['kind'])


def consts(ctx):
    """Constants of the field set, set before the kernel is compiled."""
    for vals in itertools.product((1.5, -2., 1e-7, 3, True), repeat=2):
        if not ctx.case({'const': vals}):
            continue
        out = {}
        for mode in MODES:
            fs = fieldset()
            P = pclass(mode, VARS, name='VP7' + mode)
            ps = ParticleSet(fs, pclass=P, lon=[1.], lat=[1.], x=[0.], d=[0.])
            f = func('def K(particle, fieldset, time):\n    particle.d = particle.d * 2 + fieldset.c - fieldset.zz\n    if fieldset.zz > 1:\n        particle.x = fieldset.c\n', 'K')
            fs.add_constant('c', vals[0])
            fs.add_constant('zz', vals[1])
            res = []
            for n in range(3):
                ps.execute(f, runtime=1., dt=1.)
                res += [float(ps[0].d), float(ps[0].x)]
            out[mode] = res
        ctx.step(3)
        ctx.trace()
        ctx.distinct(vals)
        ctx.state(vals)
        ctx.outcome('const')
        ctx.expect(close(['c'] + out['scipy'], ['c'] + out['jit']), 'const %s' % (vals,), 'interpreted %s, compiled %s' % (out['scipy'], out['jit']))


def padding(ctx):
    """Names of locals, attributes and constants: the generated program must keep them apart."""
    fs0 = fieldset()
    names = ['lon', 'lat', 'x', 'n', 'u', 'v', 'F', 'c', 'a1', 'dt', 'i', 'index', 'endtime', 'res', 'p', 'args', 'grid', 'xi', 'y', 'y1', 'j0', 'gamma', 'signgam', 'data', 'num_particles', 'sign_dt', 'pnum2',
             'ngrid', 'S', 'state', 'id', 'sel', 'sum', 'E', 'I', 'min_', 'rtol', 'err', 'U', 'fset', 'particle_backup', 'exp', 'short', 'int', 'double', 'float_', 'register', 'K', 'SUCCESS', 'NULL']
    r = Runner(fs0)
    for nm in names:
        if not ctx.case({'local': nm}):
            continue
        src = ('def K(particle, fieldset, time):\n    %s = particle.x * 2\n    %s += fieldset.c\n    if %s > 1:\n        particle.d = %s + fieldset.F[time, particle.depth, particle.lat, particle.lon]\n' % ((nm,) * 4))
        parts = [dict(lon=1.25, lat=1.5, x=x, n=1, d=0.25) for x in XS]
        ref = r.run('scipy', src, parts)
        try:
            got = r.run('jit', src, parts)
        except Exception:
            ctx.outcome('refused')
            continue
        ctx.distinct(('local', nm))
        ctx.step(3)
        ctx.state(nm)
        ctx.outcome('named')
        for a, b in zip(ref, got):
            ctx.expect(close(a, b), 'local %s' % nm, 'interpreted %s, compiled %s' % (a, b))
