"""Exploration harness shared by all checks.

A check module (checks/<id>.py) defines

    ID, LEVEL, RULE           property id, evidence level, how cases are made
    units(tier) -> [unit]     deterministic list of work units (small JSON values), simplest first
    run(unit, ctx)            explores every case of the unit on the real code

Every unit is explored in its own forked process, so a crash, an abort or an endless loop of the code
under test ends that unit only and is reported as a violation of the case that was being executed.
Nothing is sampled: the set of cases is a function of the tier alone.
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
WORKERS = int(os.environ.get('VMC_WORKERS', '8'))
CASE_TIMEOUT = float(os.environ.get('VMC_CASE_TIMEOUT', '150'))
MAX_VIOL = int(os.environ.get("VMC_MAXV", "25"))


class Abort(Exception):
    pass


class Ctx(object):
    """Collects what one unit covered."""

    def __init__(self, unit, shm=None, only=None):
        self.unit = unit
        self.evaluations = 0
        self.nontrivial = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.notes = {}
        self.outcomes = {}
        self._shm = shm
        self._case = None
        self._seq = 0
        self.only = only
        self.scratch = None

    # -- per case ---------------------------------------------------------------------------------
    def case(self, desc):
        """Announce the case about to be executed. Returns False if a replay wants to skip it."""
        self._case = desc
        self.evaluations += 1
        self._seq += 1
        if self._shm is not None:
            txt = json.dumps(desc, default=str)[:60000].encode()
            self._shm.seek(0)
            self._shm.write(self._seq.to_bytes(8, 'little') + len(txt).to_bytes(8, 'little') + txt)
        if self.only is not None and json.loads(json.dumps(desc, default=str)) != self.only:
            return False
        return True

    def tick(self):
        """Long case still making progress."""
        self._seq += 1
        if self._shm is not None:
            self._shm.seek(0)
            self._shm.write(self._seq.to_bytes(8, 'little'))

    def distinct(self, key):
        self.nontrivial.add(h(key))

    def state(self, key):
        k = h(key)
        new = k not in self.states
        self.states.add(k)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def violate(self, sig, what, case=None):
        """sig: short stable identification of the failing input; what: what is wrong."""
        self.violations.append({'sig': sig, 'what': what,
                                'case': json.loads(json.dumps(self._case if case is None else case, default=str)),
                                'unit': self.unit})
        if len([v for v in self.violations]) >= MAX_VIOL * 40:
            raise Abort()

    def expect(self, cond, sig, what):
        if not cond:
            self.violate(sig, what() if callable(what) else what)
        return cond


def h(key):
    return hashlib.blake2b(repr(key).encode(), digest_size=10).digest()


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line:
                continue
            e = json.loads(line)
            if e.get('property') == pid and e.get('status') == 'known':
                out[e['signature']] = e
    return out


def quiet_child(logpath):
    fd = os.open(logpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    dn = os.open('/dev/null', os.O_RDONLY)
    os.dup2(dn, 0)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def child(mod, unit, shm, respath, scratch, tier):
    ctx = Ctx(unit, shm)
    ctx.tier = tier
    ctx.scratch = scratch
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    try:
        mod.run(unit, ctx)
    except Abort:
        pass
    except BaseException as e:  # on the unchanged tree no unit raises
        tb = traceback.format_exc()
        ctx.violate('exception:%s:%s' % (type(e).__name__, json.dumps(unit, default=str)[:200]),
                    'unexpected %s while executing the case: %s' % (type(e).__name__, tb[-1500:]))
    res = {k: getattr(ctx, k) for k in ('evaluations', 'nontrivial', 'states', 'transitions', 'traces',
                                        'samples', 'violations', 'notes', 'outcomes')}
    tmp = respath + '.tmp'
    with open(tmp, 'wb') as f:
        pickle.dump(res, f)
    os.rename(tmp, respath)


def explore(mod, units, tier, deadline):
    """Run all units in forked children, WORKERS at a time. Returns list of results (None: not run)."""
    base = os.environ.get('VMC_SCRATCH') or tempfile.mkdtemp()
    pending = list(enumerate(units))[::-1]
    live = {}
    results = [None] * len(units)
    stop = False
    while pending or live:
        while pending and len(live) < WORKERS and not stop:
            i, unit = pending.pop()
            shm = mmap.mmap(-1, 65536)
            respath = os.path.join(base, 'u%d.res' % i)
            scratch = os.path.join(base, 'u%d' % i)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    quiet_child(os.path.join(base, 'u%d.log' % i))
                    child(mod, unit, shm, respath, scratch, tier)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            live[pid] = dict(i=i, unit=unit, shm=shm, res=respath, scratch=scratch, seq=0,
                             t=time.time(), t0=time.time(), log=os.path.join(base, 'u%d.log' % i))
        if stop and not live:
            break
        # reap
        done = None
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid and pid in live:
            done = (pid, status, None)
        else:
            now = time.time()
            for p, w in live.items():
                w['shm'].seek(0)
                seq = int.from_bytes(w['shm'].read(8), 'little')
                if seq != w['seq']:
                    w['seq'], w['t'] = seq, now
                elif now - w['t'] > getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT):
                    killpg(p)
                    try:
                        os.waitpid(p, 0)
                    except ChildProcessError:
                        pass
                    done = (p, None, 'hang')
                    break
            if done is None and now > deadline:
                for p in list(live):
                    killpg(p)
                    try:
                        os.waitpid(p, 0)
                    except ChildProcessError:
                        pass
                    live.pop(p)
                stop = True
                break
        if done is None:
            time.sleep(0.01)
            continue
        pid, status, why = done
        w = live.pop(pid)
        killpg(pid)
        if os.environ.get('VMC_TIMES'):     # debugging only
            sys.stderr.write('UNITTIME %.1f %s\n' % (time.time() - w['t0'], json.dumps(w['unit'])))
        r = None
        if os.path.exists(w['res']):
            with open(w['res'], 'rb') as f:
                r = pickle.load(f)
            os.remove(w['res'])
        if r is None or why == 'hang':
            w['shm'].seek(0)
            raw = w['shm'].read()
            n = int.from_bytes(raw[8:16], 'little')
            try:
                case = json.loads(raw[16:16 + n])
            except ValueError:
                case = None
            tail = ''
            try:
                tail = open(w['log'], errors='replace').read()[-800:]
            except OSError:
                pass
            kind = 'hang' if why == 'hang' else 'crash(status=%s)' % status
            r = dict(evaluations=w['seq'], nontrivial=set(), states=set(), transitions=0, traces=0, samples=[],
                     notes={}, outcomes={kind: 1},
                     violations=[{'sig': '%s:%s' % (kind.split('(')[0], json.dumps(case)[:300]),
                                  'what': '%s of the code under test; %s' % (kind, tail), 'case': case,
                                  'unit': w['unit']}])
        results[w['i']] = r
        shutil.rmtree(w['scratch'], ignore_errors=True)
    return results


def killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run_check(pid, tier):
    t0 = time.time()
    pid = pid.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get('VMC_BUDGET', '840' if tier == 'quick' else '7200'))
    mod = load(pid)
    import parcels
    assert os.path.realpath(os.path.dirname(parcels.__file__)) == '/repo/parcels', parcels.__file__
    import logging
    logging.getLogger('parcels.tools.loggers').setLevel(logging.ERROR)
    from parcels.tools.loggers import logger
    logger.setLevel(logging.ERROR)
    if hasattr(mod, 'warm'):
        mod.warm()
    units = mod.units(tier)
    if os.environ.get('VMC_ONLY'):     # debugging only
        units = [u for u in units if os.environ['VMC_ONLY'] in json.dumps(u)]
    results = explore(mod, units, tier, t0 + budget)
    known = known_findings(pid)
    ran = [r for r in results if r is not None]
    nontrivial = set().union(*[r['nontrivial'] for r in ran]) if ran else set()
    states = set().union(*[r['states'] for r in ran]) if ran else set()
    tot = {k: sum(r[k] for r in ran) for k in ('evaluations', 'transitions', 'traces')}
    outcomes, notes = {}, {}
    for r in ran:
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v if isinstance(v, (int, float)) else v
    samples = [s for r in ran for s in r['samples']][:6]
    fresh, seen_known = [], {}
    for r in ran:
        for v in r['violations']:
            if v['sig'] in known:
                seen_known.setdefault(v['sig'], v)
            else:
                fresh.append(v)
    cov = {'units': len(units), 'units_completed': len(ran), 'evaluations': tot['evaluations'],
           'distinct_nontrivial': len(nontrivial), 'rule': mod.RULE, 'samples': samples,
           'exhaustive': len(ran) == len(units), 'outcomes': outcomes, 'bounds': getattr(mod, 'BOUNDS', ''),
           'known_findings_seen': sorted(seen_known)}
    if mod.LEVEL == 'model_checking':
        cov['states'] = len(states)
        cov['transitions'] = tot['transitions']
        cov['traces_validated_against_impl'] = tot['traces']
    cov.update({('note_' + k): v for k, v in notes.items()})
    if len(ran) != len(units):
        cov['cap'] = 'time budget of %g s reached: %d of %d units completed' % (budget, len(ran), len(units))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', []))}
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for sig in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[sig]['what']))
    print('%s %s: %d/%d units, %d executions, %d distinct, %d states, %d transitions, %.1f s, outcomes %s'
          % (pid, tier, len(ran), len(units), tot['evaluations'], len(nontrivial), len(states),
             tot['transitions'], time.time() - t0, outcomes))
    if fresh:
        rep = os.path.join(evdir, 'replay-%s.json' % pid)
        with open(rep, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'violations': fresh[:MAX_VIOL]}, f, indent=1, default=str)
        for v in fresh[:10]:
            print('  violated: [%s] %s' % (v['sig'], v['what'][:1200]))
        print('  (%d violations in all)' % len(fresh))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if not ran or tot['evaluations'] == 0:
        print('nothing was explored')
        return 3
    return 0


def replay(path):
    """Re-execute, without the explorer, the first case of a replay file; twice, to show it is deterministic."""
    d = json.load(open(path))
    mod = load(d['property'])
    import parcels  # noqa: F401
    if hasattr(mod, 'warm'):
        mod.warm()
    v = d['violations'][0]
    outs = []
    for k in range(2):
        ctx = Ctx(v['unit'], only=v['case'])
        ctx.tier = d['tier']
        ctx.scratch = os.path.join(os.environ.get('VMC_SCRATCH', tempfile.mkdtemp()), 'replay%d' % k)
        os.makedirs(ctx.scratch)
        os.chdir(ctx.scratch)
        try:
            mod.run(v['unit'], ctx)
        except Abort:
            pass
        outs.append([x for x in ctx.violations if x['case'] == v['case']] or ctx.violations)
    for x in outs[0][:3]:
        print('[%s] %s' % (x['sig'], x['what']))
    print('reproduced: %s' % [len(o) > 0 for o in outs])
    return 1 if outs[0] else 0
