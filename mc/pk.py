"""Small helpers around the public parcels API used by all checks."""
import contextlib
import itertools
import linecache
import logging
import math

import numpy as np

import parcels
from parcels import (ErrorCode, FieldSet, Field, JITParticle, OperationCode, ParticleFile, ParticleSet,  # noqa: F401
                     ScipyParticle, StateCode, Variable, VectorField)
import parcels.rng as ParcelsRandom  # noqa: F401

logging.getLogger('parcels.tools.loggers').setLevel(logging.ERROR)

MODES = ('scipy', 'jit')
PBASE = {'scipy': ScipyParticle, 'jit': JITParticle}
_cnt = itertools.count()


def pclass(mode, variables=(), name=None):
    """Particle class with extra variables: iterable of (name, dtype, initial[, to_write])."""
    d = {}
    for v in variables:
        d[v[0]] = Variable(v[0], dtype=v[1], initial=v[2], to_write=v[3] if len(v) > 3 else True)
    return type(name or 'VP' + mode, (PBASE[mode],), d)


def func(src, name, extra=None):
    """Python function from source text, with source available to inspect.getsource."""
    fn = '<vmc-%d>' % next(_cnt)
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    g = {'math': math, 'ErrorCode': ErrorCode, 'OperationCode': OperationCode, 'StateCode': StateCode,
         'ParcelsRandom': ParcelsRandom}
    if extra:
        g.update(extra)
    exec(compile(src, fn, 'exec'), g)
    return g[name]


def flat_fieldset(u=0., v=0., n=3, scale=1., time=None, **kw):
    """Constant velocity on a small flat grid [0, (n-1)*scale]^2."""
    lon = np.arange(n, dtype=np.float32) * scale
    lat = np.arange(n, dtype=np.float32) * scale
    dims = {'lon': lon, 'lat': lat}
    shape = (n, n)
    if time is not None:
        dims['time'] = np.asarray(time, dtype=np.float64)
        shape = (len(time),) + shape
    data = {'U': np.full(shape, u, dtype=np.float32), 'V': np.full(shape, v, dtype=np.float32)}
    return FieldSet.from_data(data, dims, mesh='flat', **kw)


class KernelCache(object):
    """Compile a kernel once and use it for every particle set of the same shape.

    ParticleSet.execute only compiles when its `kernel` is not the one handed in, so handing the compiled
    one to the new set saves a compiler run; if that convention ever changes, the kernel is simply compiled
    again."""

    def __init__(self):
        self.k = {}

    def execute(self, key, pset, pyfunc, **kw):
        k = self.k.get(key)
        if k is not None:
            pset.kernel = k
            pset.execute(k, **kw)
        else:
            pset.execute(pyfunc, **kw)
            k = getattr(pset, 'kernel', None)
            if k is not None:
                self.k[key] = k


@contextlib.contextmanager
def raises_info():
    """Collects the exception raised in the block, if any: info[0] is the exception or None."""
    info = [None]
    try:
        yield info
    except Exception as e:
        info[0] = e


def col(pset, name):
    """All values of one variable, by public per-particle access, in iteration order."""
    return [getattr(p, name) for p in pset]


def f32(x):
    return float(np.float32(x))


ERRS = {'oob': ErrorCode.ErrorOutOfBounds, 'surface': ErrorCode.ErrorThroughSurface, 'time': ErrorCode.ErrorTimeExtrapolation,
        'interp': ErrorCode.ErrorInterpolation, 'error': ErrorCode.Error}


def sample(fieldset, mode, pts, body, nout=1, dtype=np.float64, cache=None, key=None, ptime=0., extra=()):
    """Executes a kernel body once on one particle per point (t, z, y, x) and returns per point the tuple of
    outputs particle.o0, o1, ... or the name of the error. The body reads particle.ts/depth/lat/lon."""
    vs = [('k', np.int32, 0.), ('ts', np.float64, 0.)] + [('o%d' % i, np.float64 if mode == 'scipy' else np.float32, 0.) for i in range(nout)]
    vs += list(extra)
    P = pclass(mode, vs, name="VPsample" + mode)
    res = [None] * len(pts)
    pset = ParticleSet(fieldset, pclass=P, lon=[p[3] for p in pts], lat=[p[2] for p in pts], depth=[p[1] for p in pts],
                       time=[ptime] * len(pts), lonlatdepth_dtype=dtype, k=list(range(len(pts))), ts=[float(p[0]) for p in pts])

    def handler(name):
        def f(particle, fieldset, time):
            res[int(particle.k)] = name
            particle.delete()
        return f
    src = 'def K(particle, fieldset, time):\n' + ''.join('    %s\n' % ln for ln in body)
    kw = dict(runtime=1., dt=1., recovery={c: handler(n) for n, c in ERRS.items()})
    if cache is not None:
        cache.execute((mode, src, key), pset, func(src, 'K'), **kw)
    else:
        pset.execute(func(src, 'K'), **kw)
    for p in pset:
        res[int(p.k)] = tuple(float(getattr(p, 'o%d' % i)) for i in range(nout))
    return res
