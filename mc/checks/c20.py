"""C20: random numbers are reproducible and in range."""
import itertools
import math
import os
import subprocess

import numpy as np

from pk import MODES, KernelCache, ParcelsRandom, ParticleSet, flat_fieldset, func, pclass
from parcels.compilation.codecompiler import GNUCompiler
from parcels.tools import get_package_dir

ID = 'C20'
LEVEL = 'model_checking'
RULE = ('histories: every sequence of 2 (thorough: 3) draws and seedings out of 10 as a kernel, in both modes, x seed x what was drawn before x how the '
        'steps are spread over execute calls and particle sets, against the sequence drawn directly; ranges: the functions as compiled for kernels, '
        'driven with every possible outcome of the underlying generator (2^31 values; for functions of several draws all tuples of boundary values); '
        'non-trivial: at least two draws; distinct by (sequence, mode, seed, prior, schedule) or (function, parameters)')
BOUNDS = '2 particles, 2 steps; parameters of the distributions as listed'
ASSUMPTIONS = ['ranges are attained up to the rounding of a float']

D = {'random': ('random()', []), 'uniform': ('uniform(-2., 3.)', [-2., 3.]), 'uniform2': ('uniform(5, 6)', [5, 6]), 'randint': ('randint(2, 9)', [2, 9]), 'normal': ('normalvariate(1., 2.)', [1., 2.]),
     'expo': ('expovariate(.5)', [.5]), 'mises': ('vonmisesvariate(2., .75)', [2., .75]), 'mises0': ('vonmisesvariate(1., 0.)', [1., 0.])}
SEEDS = (0, 1, 1234, 2**31 - 1)
SCHED = ('one run', 'two runs', 'two sets', 'output steps')


def pyname(d):
    return d[0].split('(')[0]


def direct(op):
    if op == 'seed':
        ParcelsRandom.seed(3)
        return None
    d = D[op]
    return float(getattr(ParcelsRandom, pyname(d))(*d[1]))


def units(tier):
    u = []
    ops = list(D) + ['seed']
    n = 2 if tier == 'quick' else 3
    seqs = [list(s) for s in itertools.product(ops, repeat=n) if any(q != 'seed' for q in s)]
    step = 5 if tier == 'quick' else 24
    for i in range(0, len(seqs), step):
        u.append({'what': 'histories', 'seqs': seqs[i:i + step]})
    r = [('random', ()), ('uniform', (0., 1.)), ('uniform', (-2., 3.)), ('uniform', (100., 101.)), ('randint', (0, 2)), ('randint', (-3, 4)), ('randint', (0, 1000)),
         ('expovariate', (1.,)), ('expovariate', (.01,))]
    if tier != 'quick':
        r += [('uniform', (0., 1e-3)), ('uniform', (-1e6, 1e6)), ('uniform', (2., 2.5)), ('randint', (5, 6)), ('randint', (0, 2**31 - 1)), ('expovariate', (100.,))]
    r += [('normalvariate', (0., 1.)), ('normalvariate', (5., .1)), ('normalvariate', (0., 0.))]
    r += [('vonmisesvariate', (m, k)) for m in (0., 1., 3.14159265, 6.28318530) for k in (0., 1e-7, 1e-5, 1e-3, .5, 4., 1000., 1e6)]
    return [{'what': 'range', 'f': f, 'args': a} for f, a in r] + u


def run(unit, ctx):
    globals()['run_' + unit['what']](unit, ctx)


def run_histories(unit, ctx):
    fs = flat_fieldset()
    for seq, mode in itertools.product(unit['seqs'], MODES):
        if not ctx.case({'what': 'histories', 'seqs': [seq], 'mode': mode}):
            continue
        vs = [('o%d' % i, np.float32, -9.) for i in range(2 * len(seq))] + [('n', np.int32, 0)]
        lines = []
        for k in range(2):      # the first and the second step keep their draws apart
            lines.append('    %sif particle.n == %d:' % ('el' if k else '', k))
            for i, op in enumerate(seq):
                lines.append('        ParcelsRandom.seed(3)' if op == 'seed' else '        particle.o%d = ParcelsRandom.%s' % (k * len(seq) + i, D[op][0]))
        step = func('def step(particle, fieldset, time):\n' + '\n'.join(lines) + '\n    particle.n += 1\n', 'step')
        other = func('def other(particle, fieldset, time):\n    particle.o0 = ParcelsRandom.random() + ParcelsRandom.normalvariate(0, 1)\n', 'other')
        P = pclass(mode, vs, name='VP20' + mode)
        cache = KernelCache()
        for seed, prior, sched in itertools.product(SEEDS, ('nothing', 'draws', 'kernel'), SCHED):
            if ctx.tier == 'quick' and (SEEDS.index(seed) + ('nothing', 'draws', 'kernel').index(prior) + SCHED.index(sched)) % 2:
                continue
            if prior == 'kernel' and mode == 'jit' and seq != unit['seqs'][0]:
                continue
            # the order in which particles and steps draw
            order = [(0, 0), (0, 1), (1, 0), (1, 1)] if sched in ('one run', 'two sets') else [(0, 0), (1, 0), (0, 1), (1, 1)]
            ParcelsRandom.seed(seed)
            want = {}
            for p, k in order:
                for i, op in enumerate(seq):
                    v = direct(op)
                    if v is not None:
                        want[(p, k * len(seq) + i)] = v
            sets = [ParticleSet(fs, pclass=P, lon=[1.] * n, lat=[1.] * n, time=[0.] * n) for n in ((1, 1) if sched == 'two sets' else (2,))]
            if prior == 'draws':
                for op in ('random', 'normal', 'mises', 'randint'):
                    direct(op)
            elif prior == 'kernel':
                cache.execute('other', ParticleSet(fs, pclass=P, lon=[1.], lat=[1.], time=[0.]), other, runtime=1., dt=1.)
            ParcelsRandom.seed(seed)
            if sched in ('one run', 'two sets'):
                for ps in sets:
                    cache.execute('k', ps, step, runtime=2., dt=1.)
            elif sched == 'two runs':
                cache.execute('k', sets[0], step, runtime=1., dt=1.)
                cache.execute('k', sets[0], step, runtime=1., dt=1.)
            else:
                cache.execute('k', sets[0], step, runtime=2., dt=1., postIterationCallbacks=[lambda: None], callbackdt=1.)
            parts = [p for ps in sets for p in ps]
            got = {(i, j): float(getattr(p, 'o%d' % j)) for i, p in enumerate(parts) for j in range(2 * len(seq))}
            ctx.expect(all(abs(got[k] - w) <= 2e-6 * max(1, abs(w)) for k, w in want.items()), '%s %s' % (mode, seq),
                       lambda: 'seed %s after %s, %s: expected %s, got %s' % (seed, prior, sched, sorted(want.items()), sorted(got.items())))
            ctx.step(4 * len(seq))
            ctx.trace()
            ctx.outcome(sched)
            ctx.state((mode, tuple(seq), seed))
            if len(want) > 4:
                ctx.distinct((mode, tuple(seq), seed, prior, sched))
    ctx.sample(unit)


HARNESS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <float.h>
#include <string.h>
static int vmc_v[8]; static long vmc_n; static int vmc_len;
static int vmc_rand(void) { int r = vmc_n < vmc_len ? vmc_v[vmc_n] : (int)((1103515245u * (unsigned)(vmc_n + 12345) + 12345u) & 0x7fffffff); vmc_n++; return r; }
#define rand vmc_rand
#include "parcels.h"
#undef rand
static const double LO = %(lo)s, HI = %(hi)s;
static int bad(double x) { return !(x >= LO && x <= HI); }
static long nbad, calls, drawn, acc; static double s1, s2, sc, ss; static double mn = INFINITY, mx = -INFINITY;
static int stat;
static void one(void) {
  vmc_n = 0; double x = parcels_%(f)s(%(args)s); calls++; drawn += vmc_n;
  if (bad(x)) { if (nbad++ < 3) { printf("BAD %%.9g from", x); for (int i = 0; i < vmc_len; i++) printf(" %%d", vmc_v[i]); printf("\n"); } }
  if (stat && vmc_n <= vmc_len) { acc++; s1 += x; s2 += x * x; if (vmc_len == 3) { sc += cos(x); ss += sin(x); } }
  if (x < mn) mn = x; if (x > mx) mx = x;
}
int %(main)s(void) {
  int depth = %(depth)d;
  if (depth == 1) { vmc_len = 1; stat = 1; for (long v = 0; v <= RAND_MAX; v += %(stride)d) { vmc_v[0] = (int)v; one(); } }
  else {
    static int g[4096]; int n = 0;
    for (int b = 0; b < 31; b++) for (int d = -2; d <= 2; d++) { long v = (1L << b) + d; if (v >= 0) g[n++] = (int)v; }
    for (int k = 0; k <= %(grid)d; k++) for (int d = -1; d <= 1; d++) { long v = (long)((double)RAND_MAX * k / %(grid)d) + d * 64; if (v >= 0 && v <= RAND_MAX) g[n++] = (int)v; }
    for (int d = 0; d < 140; d += 3) g[n++] = RAND_MAX - d;
    vmc_len = depth; long tot = 1; for (int i = 0; i < depth; i++) tot *= n;
    for (long c = 0; c < tot; c++) { long q = c; for (int i = 0; i < depth; i++) { vmc_v[i] = g[q %% n]; q /= n; } one(); }
    long m = depth == 2 ? 2000 : 140; stat = 1; tot = 1; for (int i = 0; i < depth; i++) tot *= m;
    for (long c = 0; c < tot; c++) { long q = c; for (int i = 0; i < depth; i++) { vmc_v[i] = (int)(((double)(q %% m) + .5) / m * RAND_MAX); q /= m; } one(); }
  }
  printf("DONE %%ld %%ld %%ld %%.9g %%.9g %%ld %%.12g %%.12g %%.12g %%.12g\n", calls, nbad, drawn, mn, mx, acc, s1 / acc, s2 / acc, sc / acc, ss / acc); return 0;
}
'''
DEPTH = {'random': 1, 'uniform': 1, 'randint': 1, 'expovariate': 1, 'normalvariate': 2, 'vonmisesvariate': 3}


def bounds(f, a):
    """Documented range, widened by one rounding of a float."""
    up = lambda x: float(np.nextafter(np.float32(x), np.float32(np.inf)))  # noqa: E731
    dn = lambda x: float(np.nextafter(np.float32(x), np.float32(-np.inf)))  # noqa: E731
    if f == 'random':
        return 0., 1.
    if f == 'uniform':
        return dn(a[0]), up(a[1])
    if f == 'randint':
        return a[0], a[1] - 1
    if f == 'expovariate':
        return 0., 3e38
    if f == 'normalvariate':
        return (-3e38, 3e38)
    return 0., up(2 * math.pi)


def moments(f, a):
    """Mean and variance (of an angle: mean cosine and sine) of the named distribution, and the accuracy of the enumeration."""
    if f in ('random', 'uniform'):
        lo, hi = a or (0., 1.)
        return ((lo + hi) / 2, (hi - lo)**2 / 12), 1e-5
    if f == 'randint':
        n = a[1] - a[0]
        return ((a[0] + a[1] - 1) / 2, (n * n - 1) / 12), 1e-5
    if f == 'expovariate':
        return (1 / a[0], 1 / a[0]**2), 1e-5
    if f == 'normalvariate':
        return (a[0], a[1]**2), 2e-3
    m, k = a

    def bessel(n):
        t = np.linspace(0, np.pi, 20001)
        e = np.exp(k * (np.cos(t) - 1)) * np.cos(n * t)
        return float(np.sum((e[1:] + e[:-1]) / 2))
    r = bessel(1) / bessel(0)
    return (r * math.cos(m), r * math.sin(m)), .03


def run_range(unit, ctx):
    f, a = unit['f'], unit['args']
    if not ctx.case(unit):
        return
    lo, hi = bounds(f, a)
    src = os.path.join(ctx.scratch, 'range.c')
    lib = os.path.join(ctx.scratch, 'range.so')
    par = dict(f=f, args=', '.join('%r' % x if f == 'randint' else '%rf' % float(x) for x in a), lo=repr(float(lo)), hi=repr(float(hi)), depth=DEPTH[f],
               grid=(40 if DEPTH[f] == 2 else 8) if ctx.tier == 'quick' else (600 if DEPTH[f] == 2 else 40), stride=1, main='vmc_main')
    with open(src, 'w') as s:
        s.write(HARNESS % par)
    # compiled as kernels are, then called from a small program
    GNUCompiler(cppargs=[], incdirs=[os.path.join(get_package_dir(), 'include')]).compile(src, lib, os.path.join(ctx.scratch, 'range.log'))
    prog = os.path.join(ctx.scratch, 'range.exe')
    with open(src, 'w') as s:
        s.write('int vmc_main(void); int main(void) { return vmc_main(); }\n')
    subprocess.run(['gcc', src, lib, '-o', prog, '-lm', '-Wl,-rpath,' + ctx.scratch], check=True)
    r = subprocess.run([prog], capture_output=True, text=True)
    done = [ln for ln in r.stdout.splitlines() if ln.startswith('DONE')]
    if not done:
        ctx.violate('range %s%s' % (f, a), 'ended with %s %s' % (r.returncode, r.stderr[-300:]))
        return
    calls, nbad, drawn, mn, mx, acc, s1, s2, sc, ss = [float(x) for x in done[0].split()[1:]]
    ctx.expect(int(nbad) == 0, 'range %s%s' % (f, tuple(a)), lambda: '%s of %s outcomes outside [%s, %s]: %s' % (nbad, calls, lo, hi, [ln for ln in r.stdout.splitlines() if ln.startswith('BAD')]))
    if drawn and acc:
        got = (sc, ss) if f == 'vonmisesvariate' else (s1, s2 - s1**2)
        want, tol = moments(f, a)
        ctx.expect(all(abs(g - w) <= (tol if f == 'vonmisesvariate' else tol * max(1e-9, abs(want[1]), abs(w))) for g, w in zip(got, want)), 'distribution %s%s' % (f, tuple(a)),
                   lambda: 'moments %s instead of %s over %s equally likely outcomes' % (got, want, acc))
    ctx.step(int(calls))
    ctx.state((f, tuple(a)))
    ctx.distinct((f, tuple(a)))
    ctx.outcome('%s: %s in [%.9g, %.9g]%s' % (f, tuple(a), mn, mx, '' if int(drawn) else ' (not driven)'))
    ctx.trace()
