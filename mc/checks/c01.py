"""C01: contents, alignment and identity of particle sets under all short histories of operations."""
import itertools

import numpy as np

from pk import MODES, KernelCache, ParticleSet, Variable, flat_fieldset, func, pclass
from operator import attrgetter

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('every sequence of operations up to the depth, from every initial pool of sets; after the sequence every set is compared '
        'with a list model through all access paths (iteration, index, attribute arrays, reversed iteration, lookup of every id, of every '
        'set of ids, of missing ids, selection by value); plus every combination of argument forms for creating a set; non-trivial: at '
        'least one operation changed a set; distinct by (pool, mode, model state)')
BOUNDS = ('pools of 2-3 sets with 0-3 particles, up to 3 sets created on the way; operations: add, new set, remove by index list/array/'
          'boolean vector/int, remove by id, by object, by several ids, execute with deletions; depth 3 (thorough: 4)')
ASSUMPTIONS = ['a set is not added to itself nor twice to the same set', 'the relative order of a set\'s particles is kept; whether an added set goes '
               'before or after the existing particles is not specified']

SRC = """
def step(particle, fieldset, time):
    particle.x += particle.dt
    particle.n += 1
    particle.lon += 0.125
    if particle.key == 1 and particle.n == 1:
        particle.delete()
    if particle.key == 4 and particle.n == 2:
        particle.delete()
"""
VARS = [('x', np.float64, 0.), ('key', np.int32, -1), ('n', np.int32, 0), ('big', np.int64, 0), ('f', np.float32, 3.5)]
POOLS = {'two': [('A', 3, None), ('B', 2, None)],
         'empty': [('A', 2, None), ('E', 0, None), ('B', 2, None)],
         'unsorted': [('A', 3, (2, 0, 1)), ('B', 2, None)]}


def units(tier):
    u = []
    for mode in MODES:
        for pool in POOLS:
            m = Model(POOLS[pool])
            for first in m.ops():
                u.append({'kind': 'ops', 'mode': mode, 'pool': pool, 'first': list(first), 'depth': 4 if tier == 'thorough' else 3})
    u += [{'kind': 'create', 'mode': m} for m in MODES]
    return u


class MP(object):
    """model particle"""

    def __init__(self, key):
        self.key, self.n, self.t = key, 0, 0

    def vals(self):
        return (self.key, self.n, float(self.n), .5 + .0625 * self.key + .125 * self.n, 1. + .03125 * self.key, float(self.key) / 4,
                2 ** 40 + self.key, 3.5, float(self.t))


class Model(object):
    def __init__(self, pool):
        self.sets = []
        self.nkey = 0
        self.nnew = 0
        for name, n, order in pool:
            self.create(n)
        self.removed = []

    def create(self, n):
        s = [MP(self.nkey + i) for i in range(n)]
        self.nkey += n
        self.sets.append(s)

    def ops(self):
        """operations that are meaningful now, in a fixed order"""
        out = []
        for a in range(len(self.sets)):
            for b in range(len(self.sets)):
                if a != b and not ({p.key for p in self.sets[a]} & {p.key for p in self.sets[b]}):
                    out.append(('add', a, b))
        if self.nnew < 2:
            out.append(('new', 1))
            out.append(('new', 0))
        for a, s in enumerate(self.sets):
            n = len(s)
            if n:
                out.append(('rm', a, 'int', (0,)))
                out.append(('rm', a, 'list', (n - 1,)))
                if n > 1:
                    out.append(('rm', a, 'array', (0, n - 1)))
                    out.append(('rm', a, 'dup', (n - 1,)))
                    out.append(('rm', a, 'bool', tuple(range(1, n))))
                out.append(('rmid', a, n // 2))
                out.append(('rmobj', a, 0))
                out.append(('rmids', a, tuple(range(n)), False))
                if n > 1:
                    out.append(('rmids', a, (0, n - 1), True))
                    out.append(('rmids', a, tuple(range(1, n)), False))
                out.append(('exec', a))
        return out

    def apply(self, op):
        k = op[0]
        if k == 'add':
            # the same particles continue independently in both sets
            new = []
            for p in self.sets[op[2]]:
                q = MP(p.key)
                q.n, q.t = p.n, p.t
                new.append(q)
            self.sets[op[1]] = self.sets[op[1]] + new
        elif k == 'new':
            self.nnew += 1
            self.create(op[1])
        elif k == 'rm':
            self.sets[op[1]] = [p for i, p in enumerate(self.sets[op[1]]) if i not in op[3]]
        elif k in ('rmid', 'rmobj'):
            self.sets[op[1]] = [p for i, p in enumerate(self.sets[op[1]]) if i != op[2]]
        elif k == 'rmids':
            self.sets[op[1]] = [p for i, p in enumerate(self.sets[op[1]]) if i not in op[2]]
        elif k == 'exec':
            s = self.sets[op[1]]
            end = min(p.t for p in s) + 1
            keep = []
            for p in s:
                if p.t < end:
                    p.t += 1
                    p.n += 1
                if not ((p.key == 1 and p.n == 1) or (p.key == 4 and p.n == 2)):
                    keep.append(p)
            self.sets[op[1]] = keep

    def key(self):
        return [[(p.key, p.n, p.t) for p in s] for s in self.sets]


class Impl(object):
    def __init__(self, pool, fs, P, cache, step):
        self.fs, self.P, self.cache, self.stepf = fs, P, cache, step
        self.sets = []
        self.nkey = 0
        self.ids = {}
        self.order = None
        self.errors = []
        for name, n, order in pool:
            self.create(n, order)

    def create(self, n, order=None):
        keys = np.arange(self.nkey, self.nkey + n)
        self.nkey += n
        kw = {}
        if order is not None:
            kw['pid_orig'] = np.array(order)
        ps = ParticleSet(self.fs, pclass=self.P, lon=.5 + .0625 * keys, lat=1. + .03125 * keys, depth=keys / 4., time=np.zeros(n),
                         key=keys, big=2 ** 40 + keys, **kw)
        for p in ps:
            k, i = int(p.key), int(p.id)
            if k in self.ids:
                self.errors.append('key %d created twice' % k)
            if i in self.ids.values():
                self.errors.append('identifier %d is reused for a new particle' % i)
            self.ids[k] = i
        self.sets.append(ps)

    def pos(self, a, model_index, model):
        """index in the real set of the model_index-th particle of the model's set"""
        key = model.sets[a][model_index].key
        for i, p in enumerate(self.sets[a]):
            if int(p.key) == key:
                return i
        raise KeyError('particle %d is missing' % key)

    def apply(self, op, model):
        k = op[0]
        if k == 'add':
            if (op[1] + op[2]) % 2:
                self.sets[op[1]].add(self.sets[op[2]])
            else:
                self.sets[op[1]] += self.sets[op[2]]
        elif k == 'new':
            self.create(op[1])
        elif k == 'rm':
            ps = self.sets[op[1]]
            idx = [self.pos(op[1], i, model) for i in op[3]]
            if op[2] == 'int':
                ps.remove_indices(idx[0])
            elif op[2] == 'list':
                ps.remove_indices(idx)
            elif op[2] == 'array':
                ps.remove_indices(np.array(idx))
            elif op[2] == 'dup':
                ps.remove_indices(np.array(idx + idx))
            else:
                b = np.zeros(len(ps), dtype=bool)
                b[idx] = True
                ps.remove_booleanvector(b)
        elif k == 'rmid':
            self.sets[op[1]].collection.remove_single_by_ID(np.int64(self.ids[model.sets[op[1]][op[2]].key]))
        elif k == 'rmobj':
            self.sets[op[1]].collection.remove_single_by_object(self.sets[op[1]][self.pos(op[1], op[2], model)])
        elif k == 'rmids':
            ids = [np.int64(self.ids[model.sets[op[1]][i].key]) for i in op[2]]
            if op[3]:
                ids = ids[::-1] + [np.int64(10 ** 6)]
            self.sets[op[1]].collection.remove_multi_by_IDs(ids)
        elif k == 'exec':
            self.cache.execute('k', self.sets[op[1]], self.stepf, runtime=1., dt=1.)


def vals(p):
    return (int(p.key), int(p.n), float(p.x), float(p.lon), float(p.lat), float(p.depth), int(p.big), float(p.f), float(p.time))


def verify(impl, model):
    bad = list(impl.errors)
    for a, (ps, ms) in enumerate(zip(impl.sets, model.sets)):
        want = {p.key: p.vals() for p in ms}
        got = [vals(p) for p in ps]
        if len(ps) != len(ms) or ps.size != len(ms):
            bad.append('set %d: length %d, expected %d' % (a, len(ps), len(ms)))
        if sorted(got) != sorted(want.values()):
            bad.append('set %d: particles %s, expected %s' % (a, got, sorted(want.values())))
            continue
        ids = [int(p.id) for p in ps]
        if ids != [impl.ids[v[0]] for v in got]:
            bad.append('set %d: ids %s do not belong to the particles %s' % (a, ids, [v[0] for v in got]))
            continue
        n = len(got)
        if [vals(ps[i]) for i in range(n)] != got:
            bad.append('set %d: access by index differs from iteration' % a)
        if n and [int(k) for k in ps.key] != [v[0] for v in got] or [float(x) for x in ps.lon] != [v[3] for v in got]:
            bad.append('set %d: attribute arrays differ from iteration' % a)
        if [vals(p) for p in reversed(ps.collection)] != got[::-1]:
            bad.append('set %d: reversed iteration differs' % a)
        for i in range(n):
            if vals(ps.collection.get_single_by_ID(np.int64(ids[i]))) != got[i]:
                bad.append('set %d: lookup of id %d gives another particle' % (a, ids[i]))
            if ps.data_indices('key', got[i][0]).tolist() != [i]:
                bad.append('set %d: selection by value gives %s' % (a, ps.data_indices('key', got[i][0])))
        missing = [i for i in impl.ids.values() if i not in ids][:2] + [10 ** 7]
        for m in missing:
            try:
                p = ps.collection.get_single_by_ID(np.int64(m))
                bad.append('set %d: lookup of missing id %d gives particle %s' % (a, m, vals(p)))
            except (ValueError, IndexError):
                pass
        pool = ids[:4] + missing[:2]
        for r in range(1, min(len(pool), 5) + 1):
            for sub in itertools.combinations(pool, r):
                it = ps.collection.get_multi_by_IDs([np.int64(i) for i in sub[::-1]])
                g = sorted(int(p.id) for p in it) if it is not None else []
                w = sorted(i for i in sub if i in ids)
                if g != w:
                    bad.append('set %d with ids %s: lookup of ids %s gives %s' % (a, ids, sub, g))
                    break
    return bad


def run(unit, ctx):
    if unit['kind'] == 'create':
        return create(unit, ctx)
    fs = flat_fieldset(n=4)
    P = pclass(unit['mode'], VARS)
    cache = KernelCache()
    step = func(SRC, 'step')
    pool = POOLS[unit['pool']]
    jit = unit['mode'] == 'jit'

    def explore(seq):
        if not jit or any(o[0] == 'exec' for o in seq):
            one(seq)
        if len(seq) < unit['depth']:
            m = Model(pool)
            for o in seq:
                m.apply(o)
            for o in m.ops():
                explore(seq + [o])

    def one(seq):
        if not ctx.case(dict(unit, seq=seq)):
            return
        P.setLastID(0)
        model = Model(pool)
        sig = '%s %s %s' % (unit['mode'], unit['pool'], seq)
        try:
            impl = Impl(pool, fs, P, cache, step)
            for o in seq:
                impl.apply(o, model)
                model.apply(o)
            bad = verify(impl, model)
        except Exception as e:
            import traceback
            bad = ['raised %r: %s' % (e, traceback.format_exc()[-600:])]
        ctx.step(len(seq))
        ctx.trace()
        ctx.state((unit['pool'], model.key()))
        if seq:
            ctx.distinct((unit['mode'], unit['pool'], model.key()))
        ctx.outcome(seq[-1][0])
        ctx.sample({'pool': unit['pool'], 'sequence': seq, 'sets': model.key()})
        for b in bad[:2]:
            ctx.violate(sig, b)

    tup = [tuple(x) if isinstance(x, list) else x for x in unit['first']]
    explore([tuple(tup)])


def create(unit, ctx):
    """All argument forms of creating a set."""
    lon = np.arange(6, dtype=np.float64).reshape(2, 3) / 4 + .25
    t = np.array([0., 10.])
    from pk import FieldSet
    fs = FieldSet.from_data({'U': np.zeros((2, 4, 4), np.float32), 'V': np.zeros((2, 4, 4), np.float32),
                             'Q': np.arange(32, dtype=np.float32).reshape(2, 4, 4)},
                            {'lon': np.arange(4, dtype=np.float32), 'lat': np.arange(4, dtype=np.float32), 'time': t}, mesh='flat')
    base = {'scalar': lambda a: float(a.flat[0]), 'npscalar': lambda a: np.float32(a.flat[0]), 'list': lambda a: a.ravel().tolist(),
            'array': lambda a: a.ravel(), 'array2d': lambda a: a, 'fortran2d': lambda a: np.asfortranarray(a), 'tuplelist': lambda a: tuple(a.ravel())}
    for lf, df, tf, kf, dtype in itertools.product(base, (None, 'list', 'array'), (None, 'scalar', 'list', 'array'), (None, 'list', 'array', 'array2d'),
                                                   (None, np.float32, np.float64)):
        n = 1 if lf in ('scalar', 'npscalar') else 6
        src = lon if n == 6 else lon[:1, :1]
        case = dict(unit, lon=lf, depth=df, time=tf, kw=kf, dtype=str(dtype))
        if not ctx.case(case):
            continue
        d = {}
        d['initial_q'] = Variable('q', dtype=np.float32, initial=fs.Q)
        d['initial_c'] = Variable('c', dtype=np.float64, initial=attrgetter('lon'))
        from pk import PBASE
        P = type('PC', (PBASE[unit['mode']],), {'q': d['initial_q'], 'c': d['initial_c'], 'k': Variable('k', dtype=np.int32, initial=4),
                                               's': Variable('s', dtype=np.float32, initial=1.5)})
        if tf is None:
            P = type('PD', (PBASE[unit['mode']],), {'c': d['initial_c'], 'k': Variable('k', dtype=np.int32, initial=4),
                                                   's': Variable('s', dtype=np.float32, initial=1.5)})
        kw = {}
        flat = src.ravel()
        if df:
            kw['depth'] = base[df](src * 2)
        if tf:
            kw['time'] = 4. if tf == 'scalar' else base[tf](src * 3)
        if kf:
            kw['k'] = base[kf]((src * 4).astype(np.int32))
        if dtype:
            kw['lonlatdepth_dtype'] = dtype
        ps = ParticleSet.from_list(fs, pclass=P, lon=base[lf](src), lat=base[lf](src + 1), **kw)
        got = [(float(p.lon), float(p.lat), float(p.depth), float(p.time), int(p.k), float(p.s), float(p.c)) for p in ps]
        want = []
        for i, x in enumerate(flat):
            want.append((x, x + 1, x * 2 if df else 0., {None: np.nan, 'scalar': 4.}.get(tf, x * 3), int(x * 4) if kf else 4, 1.5, x))
        nm = '%s create lon=%s depth=%s time=%s kw=%s dtype=%s' % (unit['mode'], lf, df, tf, kf, dtype)
        same = len(got) == n and all(np.array_equal(g, w, equal_nan=True) for g, w in zip(got, want))
        ctx.expect(same, nm, lambda: 'created %s, expected %s' % (got, want))
        if tf:
            for p, x in zip(ps, flat):
                tt = 4. if tf == 'scalar' else x * 3
                # bilinear in space, linear in time (periodic or constant beyond are not reached)
                e = 16 * tt / 10 + 4 * (x + 1) + x
                ctx.expect(abs(float(p.q) - e) < 1e-4, nm, lambda: 'variable initialised from a field is %r, expected %r' % (float(p.q), e))
        ids = [int(p.id) for p in ps]
        ctx.expect(len(set(ids)) == n, nm, 'ids %s' % ids)
        ctx.distinct(case)
        ctx.outcome('create')
        ctx.trace()
        ctx.state(('create', n, df, tf, kf))
    for n in (1, 2, 5):
        for dep in (None, 2., 3):
            if not ctx.case(dict(unit, line=n, depth=dep)):
                continue
            P = pclass(unit['mode'])
            ps = ParticleSet.from_line(fs, pclass=P, start=(.25, .5), finish=(1.25, 2.5), size=n, depth=dep, time=1.)
            g = [(float(p.lon), float(p.lat), float(p.depth), float(p.time)) for p in ps]
            w = [(.25 + (i / (n - 1) if n > 1 else 0), .5 + (2 * i / (n - 1) if n > 1 else 0), float(dep or 0), 1.) for i in range(n)]
            ctx.expect(g == w, '%s line %d %s' % (unit['mode'], n, dep), 'from_line gave %s, expected %s' % (g, w))
            ctx.outcome('create')
