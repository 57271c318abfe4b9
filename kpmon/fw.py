"""Runner: cases in worker processes, verdicts, evidence, replay files."""
import collections
import concurrent.futures
import errno
import faulthandler
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import random
import re
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KPMON_REPO', '/repo')      # overridden only while developing the checks
CASE_TIMEOUT = 900 if os.environ.get('VERIF_TIER') == 'thorough' else 240


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg, self.detail = msg, detail or {}


class Foreign(Exception):
    """a deviation that another property is responsible for: ends the case without a verdict"""


class Timeout(BaseException):
    pass


def in_repo(tb):
    return any(f.filename.startswith(os.path.join(REPO, 'pykeepass')) for f in traceback.extract_tb(tb))


class Ctx:
    def __init__(self, prop, tier, seed, index, scratch):
        self.prop, self.tier, self.seed, self.index, self.scratch = prop, tier, seed, index, scratch
        self.rng = random.Random('%s/%s/%d' % (prop, seed, index))
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self._n = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def fresh(self):
        self._n += 1
        return self._n

    def count(self, k, n=1):
        self.counts[k] += n

    def eval(self, sig=None, nontrivial=True):
        """one oracle verdict"""
        self.counts['evaluations'] += 1
        if nontrivial and sig is not None:
            self.sigs.add(hashlib.blake2b(repr(sig).encode('utf-8', 'surrogatepass'), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def check(self, ok, msg, **detail):
        if not ok:
            raise Violation(msg, detail)


def limited(fn, seconds, memory=4 << 30):
    """fn() in a forked child with a memory limit: its (picklable) result, or None if it gave none in time.
    Native code that runs for ever (a key derivation) cannot be interrupted otherwise."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        data, end = b'', time.monotonic() + seconds
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                return None
            d = os.read(r, 1 << 20)
            if not d:
                return pickle.loads(data) if data else None
            data += d
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)


def run_one(prop, tier, seed, index):
    mod = importlib.import_module('kpmon.checks.' + prop.lower())
    base = os.environ.get('KPMON_SCRATCH') or tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix='kpmon-', dir=base)
    ctx = Ctx(prop, tier, seed, index, scratch)
    out = {'index': index, 'violation': None, 'foreign': None, 'error': None}

    def on_alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_TIMEOUT)
    # last resort for native code that never returns: end the process, leaving the stack behind
    stuck = os.path.join(base, 'kpmon-stuck-%d-%d' % (os.getppid(), index))
    stuck_f = open(stuck, 'w')
    faulthandler.dump_traceback_later(CASE_TIMEOUT + 60, exit=True, file=stuck_f)
    cwd = os.getcwd()
    t0 = time.time()
    try:
        mod.case(ctx)
    except Violation as e:
        out['violation'] = (e.msg, e.detail)
    except Foreign as e:
        out['foreign'] = str(e)
    except Timeout:
        tb = sys.exc_info()[2]
        if in_repo(tb):
            out['violation'] = ('no answer within %d s' % CASE_TIMEOUT, {'traceback': traceback.format_exc()[-3000:]})
        else:
            out['error'] = 'case timed out outside the library\n' + traceback.format_exc()[-2000:]
    except (MemoryError, ImportError):
        out['error'] = traceback.format_exc()[-3000:]
    except Exception as e:
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN) and not in_repo(sys.exc_info()[2]):
            out['error'] = traceback.format_exc()[-3000:]
        else:
            tr = getattr(ctx, 'trace', None)
            out['violation'] = ('unexpected %s: %s' % (type(e).__name__, str(e)[:300]), {'traceback': traceback.format_exc()[-4000:], 'operations': (tr or [])[-40:]})
    finally:
        signal.alarm(0)
        faulthandler.cancel_dump_traceback_later()
        stuck_f.close()
        os.remove(stuck)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    out['t'] = time.time() - t0
    out['counts'], out['sigs'], out['samples'] = dict(ctx.counts), ctx.sigs, ctx.samples
    return out


def findings(prop):
    """committed findings: lines 'finding: property=<id> match=<regex> :: <what fails>'"""
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt'), encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) match=(.*?) :: (.*)', l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    except FileNotFoundError:
        pass
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    sys.path.insert(0, REPO)
    import pykeepass
    if os.path.dirname(os.path.dirname(os.path.realpath(pykeepass.__file__))) != os.path.realpath(REPO):
        print('pykeepass is imported from %s' % pykeepass.__file__)
        return 2
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('kpmon.checks.' + prop.lower())
    if getattr(mod, 'SHIM', False):
        from . import shim
        shim.ensure()
    if len(argv) > 2 and argv[1] == '--replay':
        r = json.load(open(argv[2]))
        o = run_one(prop, r['tier'], r['seed'], r['case'])
        print(json.dumps({k: o[k] for k in ('violation', 'foreign', 'error')}, indent=1, default=repr))
        if o['violation']:
            print('VIOLATION property=%s replay=%s' % (prop, argv[2]))
        return 1 if o['violation'] else 2 if o['error'] else 0
    if len(argv) > 2 and argv[1] == '--solo':
        o = run_one(prop, tier, seed, int(argv[2]))
        print(o['violation'], o['foreign'], o['error'])
        return 1 if o['violation'] or o['foreign'] else 2 if o['error'] else 0
    n = mod.THOROUGH if tier == 'thorough' else mod.QUICK
    if len(argv) > 2 and argv[1] == '--cases':
        n = int(argv[2])
    cap = float(os.environ.get('KPMON_CAP', '1500' if tier == 'thorough' else '300'))
    if hasattr(mod, 'prepare'):
        mod.prepare()
    counts, sigs, samples, viol, foreign, errors = collections.Counter(), set(), [], [], [], []
    slow = (0, None)
    procs = int(os.environ.get('KPMON_PROCS', '0')) or min(8, os.cpu_count() or 1)
    ctxm = multiprocessing.get_context('fork')
    done = 0
    try:
        with concurrent.futures.ProcessPoolExecutor(procs, mp_context=ctxm) as ex:
            it = iter(range(n))
            pending = set()

            def feed():
                for i in it:
                    pending.add(ex.submit(run_one, prop, tier, seed, i))
                    if len(pending) >= procs * 3:
                        break
            feed()
            stop = False
            while pending:
                fin, pending_ = concurrent.futures.wait(pending, return_when=concurrent.futures.FIRST_COMPLETED)
                pending = pending_
                for f in fin:
                    o = f.result()
                    done += 1
                    counts.update(o['counts'])
                    sigs |= o['sigs']
                    if len(samples) < 4:
                        samples += o['samples'][:2]
                    if o['t'] > slow[0]:
                        slow = (o['t'], o['index'])
                    if o['violation']:
                        viol.append((o['index'],) + tuple(o['violation']))
                    if o['foreign']:
                        foreign.append((o['index'], o['foreign']))
                    if o['error']:
                        errors.append((o['index'], o['error']))
                if len(viol) >= 3 or len(errors) >= 3 or time.time() - t0 > cap:
                    stop = True
                if not stop:
                    feed()
    except concurrent.futures.process.BrokenProcessPool as e:
        errors.append((-1, 'a worker process died: %r' % e))
    base = os.environ.get('KPMON_SCRATCH') or tempfile.gettempdir()
    for name in os.listdir(base):
        m = re.fullmatch('kpmon-stuck-%d-([0-9]+)' % os.getpid(), name)
        if m:
            with open(os.path.join(base, name)) as f:
                stack = f.read()
            os.remove(os.path.join(base, name))
            if os.path.join(REPO, 'pykeepass') in stack:
                viol.append((int(m.group(1)), 'no answer within %d s' % CASE_TIMEOUT, {'stack': stack}))
    known = findings(prop)
    fresh = []
    seen = set()
    for v in sorted(viol, key=lambda v: v[0]):
        for rx, what in known:
            if rx.search(v[1]):
                if what not in seen:
                    print('KNOWN-FINDING: property=%s %s' % (prop, what))
                seen.add(what)
                break
        else:
            fresh.append(v)
    rc = 0
    for i, msg, detail in fresh[:3]:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%d-%d.json' % (prop, tier, seed, i))
        with open(p, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'case': i, 'message': msg, 'detail': detail}, f, indent=1, default=repr)
        print('  %s' % msg.encode('ascii', 'backslashreplace').decode()[:600])
        print('VIOLATION property=%s replay=%s' % (prop, p))
        rc = 1
    ev = counts.pop('evaluations', 0)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {'evaluations': ev, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE, 'samples': samples or ['(none)'],
                     'cases_run': done, 'cases_planned': n, 'observed': dict(sorted(counts.items())), 'foreign_deviations': len(foreign)},
        'assumptions': getattr(mod, 'ASSUME', []) + ['the reference KDBX codec and XML extraction in kpmon/ are right (cross-checked with the fixtures and libgcrypt)'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
    print('%s %s seed %d: %d cases, %d evaluations, %d distinct, %d foreign, %d errors, slowest case %s: %.1f s, %.1f s' % (
        prop, tier, seed, done, ev, len(sigs), len(foreign), len(errors), slow[1], slow[0], time.time() - t0))
    if os.environ.get('KPMON_VERBOSE'):
        print(json.dumps(evidence['coverage'], indent=1, default=repr)[:3000])
        for x in foreign[:3]:
            print('foreign', x)
    if rc == 0:
        for i, e in errors[:2]:
            print('ERROR in case %s:\n%s' % (i, e))
        if errors or not ev:
            rc = 2
        need = getattr(mod, 'MUST_OBSERVE', [])
        missing = [k for k in need if not counts.get(k)]
        if rc == 0 and missing and done == n and not foreign:
            print('ERROR: never observed: %s' % missing)
            rc = 2
    return rc
