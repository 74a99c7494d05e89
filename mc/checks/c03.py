"""C03: whatever was written completely before a crash is recovered by the conversion tool."""
import builtins
import io
import itertools
import mmap
import os
import shutil
import struct

import netCDF4
import numpy as np

from pk import MODES, KernelCache, ParticleSet, flat_fieldset, func, pclass
import parcels.particlefile  # noqa: F401
from parcels.scripts.convert_npydir_to_netcdf import convert_npydir_to_netcdf

ID = 'C03'
LEVEL = 'fault_enumeration'
RULE = ('for every run configuration, phase (run / closing export / conversion tool) and every file-system operation of that phase '
        '(create, write, close, rename, remove, directory operations, netCDF open/define/close): the process is ended at that operation, '
        'with unflushed data kept, lost or torn in half; then the real conversion tool is applied to what is left and the result '
        'compared with what had been written; non-trivial: at least one write call had completed; distinct by (configuration, '
        'phase, operation, tear)')
BOUNDS = ('runs of 2-3 particles and 3-6 writes; configurations: plain, deletions, once-variables, write on delete, two calls, existing '
          'output file; tears: nothing lost, all unflushed bytes lost, half of them lost')
ASSUMPTIONS = ['a crash ends the process; files closed and operations completed before it persist (no loss of completed operations, i.e. '
               'no power failure without fsync)']
CASE_TIMEOUT = 60

SRC = """
def move(particle, fieldset, time):
    particle.x += particle.dt
    particle.n += 1
    particle.lon += 0.0625 * particle.dt
    if particle.n == particle.kd:
        particle.delete()
"""
CONFIGS = {
    'plain': dict(rel=(0., 0.), kd=(-1, -1), once=False, wod=False, odt=1., calls=(3.,)),
    'delete': dict(rel=(0., 0., 1.), kd=(2, -1, 1), once=False, wod=False, odt=1., calls=(3.,)),
    'once': dict(rel=(0., 1., 2.), kd=(-1, 2, -1), once=True, wod=False, odt=1., calls=(3.,)),
    'ondelete': dict(rel=(0., 0., 0.), kd=(1, 2, 3), once=True, wod=True, odt=2., calls=(4.,)),
    'twocalls': dict(rel=(0., 0.), kd=(-1, 3), once=True, wod=False, odt=2., calls=(2., 2.)),
    'overwrite': dict(rel=(0., 0.), kd=(-1, -1), once=False, wod=False, odt=2., calls=(2.,), existing=True),
}


def units(tier):
    names = list(CONFIGS)
    u = [{'config': c, 'mode': 'scipy', 'phase': ph} for c in names for ph in ('run', 'close', 'convert', 'convert-delete')]
    if tier == 'thorough':
        u += [{'config': c, 'mode': 'jit', 'phase': ph} for c in names for ph in ('run', 'close')]
    return u


class Ops(object):
    """Interposes on the file-system operations below one directory."""

    def __init__(self, root, crash=None, tear='keep'):
        self.root = os.path.realpath(root)
        self.crash = crash
        self.tear = tear
        self.log = []
        self.open = []
        self.saved = []
        self.on = True

    def below(self, path):
        try:
            return os.path.realpath(os.fspath(path)).startswith(self.root)
        except TypeError:
            return False

    def op(self, what):
        if not self.on:
            return
        k = len(self.log)
        self.log.append((what, bool(self.open)))
        if self.crash == k:
            for f in self.open:
                f.tear(self.tear)
            os._exit(77)

    def __enter__(self):
        ops = self
        real_open = builtins.open

        def fopen(file, mode='r', *a, **k):
            if ops.on and isinstance(file, (str, bytes, os.PathLike)) and ('w' in mode or 'a' in mode or 'x' in mode or '+' in mode) \
                    and 'b' in mode and ops.below(file):
                ops.op('open %s' % os.path.basename(os.fspath(file)))
                return FProxy(ops, real_open(file, mode, buffering=0))
            return real_open(file, mode, *a, **k)
        self._set(builtins, 'open', fopen)
        self._set(io, 'open', fopen)
        for name in ('rename', 'replace', 'remove', 'unlink', 'rmdir', 'mkdir', 'link', 'symlink', 'truncate'):
            def mk(real, name):
                def f(*a, **k):
                    # below a directory file descriptor the path is relative: those come from removing our own tree
                    if ops.on and (k.get('dir_fd') is not None or ops.below(a[0])):
                        ops.op('%s %s' % (name, os.path.basename(os.fspath(a[0]))))
                    return real(*a, **k)
                return f
            self._set(os, name, mk(getattr(os, name), name))
        real_ds = netCDF4.Dataset

        class DS(real_ds):
            def __init__(s, fname, *a, **k):
                s_on = ops.below(fname)
                if s_on:
                    ops.op('nc-open')
                real_ds.__init__(s, fname, *a, **k)
                if s_on:
                    ops.op('nc-opened')

            def createVariable(s, *a, **k):
                ops.op('nc-var')
                return real_ds.createVariable(s, *a, **k)

            def close(s):
                ops.op('nc-close')
                r = real_ds.close(s)
                ops.op('nc-closed')
                return r
        self._set(netCDF4, 'Dataset', DS)
        return self

    def _set(self, mod, name, val):
        self.saved.append((mod, name, getattr(mod, name)))
        setattr(mod, name, val)

    def __exit__(self, *a):
        for mod, name, val in reversed(self.saved):
            setattr(mod, name, val)


class FProxy(object):
    def __init__(self, ops, f):
        self.ops = ops
        self.f = f
        self.safe = f.tell()
        ops.open.append(self)

    def write(self, data):
        data = bytes(data)
        self.ops.op('write')
        self.f.write(data)
        return len(data)

    def tear(self, how):
        end = self.f.seek(0, 2)
        if how == 'lost':
            self.f.truncate(self.safe)
        elif how == 'half':
            self.f.truncate(self.safe + (end - self.safe) // 2)

    def flush(self):
        self.ops.op('flush')
        self.safe = self.f.tell()

    def fileno(self):
        return self.f.fileno()

    def tell(self):
        return self.f.tell()

    def seek(self, *a):
        return self.f.seek(*a)

    def close(self):
        if not self.f.closed:
            self.ops.op('close')
            self.f.close()
            self.ops.open.remove(self)

    @property
    def closed(self):
        return self.f.closed

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


def read(ncfile):
    """Content of an output file as {id: {var: [values]}}"""
    with netCDF4.Dataset(ncfile) as ds:
        got = {k: np.ma.filled(np.ma.asarray(ds.variables[k][:]).astype(np.float64), np.nan) for k in ds.variables}
    out = {}
    for r in range(got['trajectory'].shape[0]):
        t = got['time'][r]
        m = int(np.isfinite(t).sum())
        ids = got['trajectory'][r][np.isfinite(got['trajectory'][r])]
        if not len(ids):
            return {'bad': 'row without id'}
        d = {}
        for v in got:
            d[v] = got[v][r][:m].tolist() if got[v].ndim == 2 else [got[v][r]]
        out[int(ids[0])] = d
    return out


def drive(cfg, P, fs, step, cache, base, onwrite, phase_begin):
    """One complete run: execute, close. phase_begin(name) is called when a phase starts."""
    P.setLastID(0)
    n = len(cfg['rel'])
    kw = {'o': [5. + i for i in range(n)]} if cfg['once'] else {}
    ps = ParticleSet(fs, pclass=P, lon=[.5 + .125 * i for i in range(n)], lat=[1.] * n, time=list(cfg['rel']), kd=list(cfg['kd']), **kw)
    os.makedirs(base, exist_ok=True)
    if cfg.get('existing'):
        with netCDF4.Dataset(os.path.join(base, 'res.nc'), 'w') as ds:
            ds.createDimension('q', 1)
    phase_begin('run')
    pf = ps.ParticleFile(os.path.join(base, 'res.nc'), outputdt=cfg['odt'], write_ondelete=cfg['wod'], convert_at_end=False,
                         tempwritedir=os.path.join(base, 'tmp'))
    real = pf.write

    def write(*a, **k):
        r = real(*a, **k)
        onwrite(pf)
        return r
    pf.write = write
    for L in cfg['calls']:
        cache.execute('k', ps, step, runtime=L, dt=1., output_file=pf)
    phase_begin('close')
    pf.close()
    phase_begin('done')
    return pf


def run(unit, ctx):
    cfg = CONFIGS[unit['config']]
    vars = [('x', np.float32, 0.), ('n', np.int32, 0), ('kd', np.int32, -1, False)]
    if cfg['once']:
        vars.append(('o', np.float32, 0., 'once'))
    P = pclass(unit['mode'], vars)
    fs = flat_fieldset(n=5)
    step = func(SRC, 'move')
    cache = KernelCache()
    P.setLastID(0)
    n = len(cfg['rel'])
    warm = ParticleSet(fs, pclass=P, lon=[.5], lat=[1.], time=[0.])
    cache.execute('k', warm, step, runtime=1., dt=1.)
    # dry run: number of operations of each phase, and what can be recovered after every completed write
    base = os.path.join(ctx.scratch, 'dry')
    S = [None]
    dry = {}

    with Ops(base) as ops:
        def onwrite(pf):
            ops.on = False
            keep = os.path.join(base, 'tmp-copy')
            shutil.copytree(os.path.join(base, 'tmp'), keep)
            convert(os.path.join(base, 'tmp'))
            S.append(read(os.path.join(base, 'res.nc')))
            os.remove(os.path.join(base, 'res.nc'))
            shutil.rmtree(keep)
            ops.on = True

        def begin(name):
            dry[name] = len(ops.log)
            if name == 'close':
                shutil.copytree(os.path.join(base, 'tmp'), base + '-full')
                # the copied tree must hold paths of its own
        pf = drive(cfg, P, fs, step, cache, base, onwrite, begin)
        log = list(ops.log)
        ops.on = False
    final = read(os.path.join(base, 'res.nc'))
    if not ctx.expect(final == S[-1], unit['config'] + ' final', 'closing exports %s, conversion after the last write gives %s' % (final, S[-1])):
        return
    shutil.rmtree(base)
    shutil.rmtree(base + '-full', ignore_errors=True)
    counter = mmap.mmap(-1, 4096)
    phase = unit['phase']
    if phase == 'run':
        points = range(dry['run'], dry['close'])
    elif phase == 'close':
        points = range(dry['close'], dry['done'] + 1)
    else:
        # operations of the conversion tool: count them on a fresh complete run
        base = os.path.join(ctx.scratch, 'cv')
        runto(cfg, P, fs, step, cache, base, close=False)
        with Ops(base) as ops:
            convert_npydir_to_netcdf(os.path.join(base, 'tmp'), delete_tempfiles=phase == 'convert-delete')
            log = list(ops.log)
            ops.on = False
        shutil.rmtree(base)
        points = range(0, len(log) + 1)
    for k in points:
        what, hasopen = log[k] if k < len(log) else ('end', False)
        for tear in (('keep', 'lost', 'half') if hasopen else ('keep',)):
            case = dict(unit, op=k, what=what, tear=tear)
            if not ctx.case(case):
                continue
            base = os.path.join(ctx.scratch, 'c%d%s' % (k, tear))
            counter.seek(0)
            counter.write(struct.pack('q', 0))
            if phase in ('convert', 'convert-delete'):
                runto(cfg, P, fs, step, cache, base, close=False)
            pid = os.fork()
            if pid == 0:
                try:
                    with Ops(base, crash=k, tear=tear):
                        if phase in ('run', 'close'):
                            def onwrite(pf):
                                counter.seek(0)
                                c = struct.unpack('q', counter.read(8))[0]
                                counter.seek(0)
                                counter.write(struct.pack('q', c + 1))
                            drive(cfg, P, fs, step, cache, base, onwrite, lambda name: None)
                        else:
                            convert_npydir_to_netcdf(os.path.join(base, 'tmp'), delete_tempfiles=phase == 'convert-delete')
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    os._exit(5)
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(status)
            sig = '%s %s %s op=%s(%s) tear=%s' % (unit['config'], unit['mode'], phase, k, what, tear)
            if not ctx.expect(code in (77, 0), sig, 'run ended with status %s instead of the injected crash' % code):
                continue
            counter.seek(0)
            done = struct.unpack('q', counter.read(8))[0]
            if phase in ('convert', 'convert-delete'):
                done = len(S) - 1
            judge(ctx, case, sig, base, S, done, phase)
            shutil.rmtree(base, ignore_errors=True)


def runto(cfg, P, fs, step, cache, base, close):
    class Stop(Exception):
        pass

    def begin(name):
        if name == 'close':
            raise Stop()
    try:
        drive(cfg, P, fs, step, cache, base, lambda pf: None, begin)
    except Stop:
        pass


def convert(tmp):
    convert_npydir_to_netcdf(tmp)


def judge(ctx, case, sig, base, S, done, phase):
    nc = os.path.join(base, 'res.nc')
    tmp = os.path.join(base, 'tmp')
    final = S[-1]
    err = None
    got = None
    if phase != 'run' and os.path.exists(nc):
        # a complete file may already be there
        try:
            g = read(nc)
            if g == final:
                got = g
        except Exception:
            pass
    if got is None:
        if os.path.exists(nc):
            os.remove(nc)
        try:
            convert(tmp)
            got = read(nc)
        except Exception as e:
            err = e
    if done == 0:
        ctx.outcome('nothing-written')
        if got is None:
            return
    else:
        ctx.distinct(case)
    if got is None:
        ctx.outcome('lost')
        ctx.violate(sig, '%d write calls had completed, but the conversion tool fails: %r' % (done, err))
        return
    ctx.outcome('recovered')
    lo = S[done] or {}
    hi = S[min(done + 1, len(S) - 1)]
    for pid in set(lo) | set(got):
        g = got.get(pid)
        L = lo.get(pid, {'time': []})
        H = hi.get(pid)
        ok = g is not None and H is not None and len(L['time']) <= len(g['time']) <= len(H['time']) and g.keys() == H.keys()
        if ok:
            for v in g:
                m = len(g[v])
                ok = ok and len(H[v]) >= m and np.array_equal(np.array(g[v]), np.array(H[v][:m]), equal_nan=True) and \
                    (v in L and len(L[v]) <= m or v not in L)
        if not ctx.expect(ok, sig, 'after %d completed writes particle %d is recovered as %s; expected at least %s and at most %s' % (done, pid, g, L, H)):
            return
    ctx.sample({'crash': case, 'completed_writes': done, 'recovered_rows': {k: len(v['time']) for k, v in got.items()}})
