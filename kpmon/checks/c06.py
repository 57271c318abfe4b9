"""C06: a failed or interrupted save never damages the stored database"""
import errno
import io
import os
import pathlib
import pickle
import resource
import shutil
import signal
import sys
import traceback

from .. import engine, gen, model as M, refkdbx as R, shim
from ..fw import Violation

SHIM = True
LEVEL = 'fault_enumeration'
QUICK, THOROUGH = 64, 700
RULE = ('One evaluation is one save in a child process in which one file-system call below the target directory was made to fail, was shortened, or '
        'killed the process (every call x every mode is enumerated per database, counted from a fault-free run, and after a failed call a second fault at each of the calls that follow), or in which the save fails for another reason '
        '(missing key file, unencodable credentials, missing directory, file size limit, signal); the directory, the file and the in-memory database are judged '
        'afterwards. Distinct by (database, target kind, call, mode, error); non-trivial if the fault fired.')
ASSUME = ['faults are process death and failing libc calls, not power loss after a completed write', 'nobody else writes to the directory meanwhile']
MUST_OBSERVE = ['faults fired', 'killed', 'failed saves', 'completed saves', 'mode: fail', 'mode: kill before', 'mode: kill after', 'mode: short write', 'mode: interrupt', 'two faults']

NAMES = ['db.kdbx', 'db', 'db.tmp', 'my db.kdbx', '.hidden', '\xfc\u4e2d.kdbx', 'a.b.c', '-x', 'db.kdbx.tmp', 'x' * 200, 'db.bak', 'n\nl.kdbx', 'tail.']


def tree_of(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d)] = None
        for n in files:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def restore(d, files):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, b in sorted(files.items()):
        p = os.path.join(d, n)
        if b is None:
            os.makedirs(p, exist_ok=True)
        else:
            with open(p, 'wb') as f:
                f.write(b)


class Db:
    pass


def child(fn):
    """run fn in a forked child -> (exit status, unpickled result or None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(60)
            sys.unraisablehook = lambda *_: None
            out = fn()
            shim.disarm()
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(out))
            code = 0
        except BaseException:
            shim.disarm()
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps({'crash': traceback.format_exc()}))
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        raw = f.read()
    _, st = os.waitpid(pid, 0)
    return st, pickle.loads(raw) if raw else None


def case(ctx):
    rng = ctx.rng
    pw, kf = rng.choice([('pw', None), ('pw', b'kf'), (None, rng.randbytes(32)), ('p\xe4', None)])
    o = gen.Opt(groups=2, entries=4, nbin=2)
    big = rng.random() < .3
    e = engine.start(ctx, rng, '*', o, pw=pw, keyfile=kf, cfg=gen.config(rng, cipher=rng.choice(['aes256', 'chacha20', 'twofish'] if not big else ['aes256', 'chacha20']), compressed=rng.random() < .5))
    kp = e.kp
    d = os.path.join(ctx.scratch, 'd')
    name = rng.choice(NAMES)
    # bystanders: other databases, temporary-looking names
    files = {}
    stem = name.rsplit('.', 1)[0] if '.' in name[1:] else name
    for n in {name + '.tmp', stem + '.tmp', 'other.kdbx', 'tmp', '.tmp', stem + '.bak', name + '~', name + '.bak', stem + '.kdbx.tmp', 'notes.txt', name + '.old', name + '.lock', '.' + name + '.tmp', '.' + name, name + '.new', stem + '.new', stem, stem + '.kdbx', 'subdir'}:
        if n != name and rng.random() < .7 and len(n) < 250:
            files[n] = b'bystander ' + rng.randbytes(12)
    if rng.random() < .5:
        files['sub'] = None
    if kf is not None:
        files['key.bin'] = kf
    old = e.data0
    old_snap = M.from_doc(R.decode(old, password=pw, keyfile=kf))
    target_kind = rng.choice(['own', 'own', 'own', 'other existing', 'new'])
    if target_kind != 'new':
        files[name] = old if target_kind == 'own' else rng.choice([old, b'something else', b''])
    restore(d, files)
    if target_kind == 'own':
        # reopen from the watched directory
        kp = e.kp = e.P.PyKeePass(os.path.join(d, name), password=pw, keyfile=os.path.join(d, 'key.bin') if kf is not None else None)
        e.drop_handles()
    e.run(engine.mix(SET=3, TREE=2, HIST=1, BIN=1), rng.randint(1, 5))
    if big:
        if not e.m.entries():
            e.step([(1, 'add_entry')])
        n = e.entry()
        v = ''.join(rng.choices('abcdef0123456789', k=rng.choice([30000, 200000, 1200000])))
        e.real(n).set_custom_property('fill', v)
        n.fields.pop('fill', None)
        n.fields['fill'] = (v, False)
    new_snap = e.m.snap()
    path = os.path.join(d, name)
    own = target_kind == 'own'
    how = rng.choice(['default', 'str', 'path', 'relative']) if own else rng.choice(['str', 'path', 'relative'])
    ctx.trace = e.trace

    def do_save():
        if how == 'default':
            kp.save()
        elif how == 'str':
            kp.save(path)
        elif how == 'path':
            kp.save(pathlib.Path(path))
        else:
            os.chdir(d)
            kp.save(name)

    def attempt(prep):
        def run():
            res = {'raised': None}
            signal.signal(signal.SIGINT, signal.default_int_handler)
            prep()
            try:
                do_save()
            except BaseException as ex:
                res['raised'] = type(ex).__name__ + ': ' + str(ex)[:200]
            res['fired'], res['calls'], res['log'], res['later'] = shim.fired(), shim.calls(), shim.log(), shim.later()
            shim.disarm()
            res['dir'] = None
            return res
        return run

    def after(res):
        """in the child, after a failed save: memory unchanged and usable"""
        dd = M.diff(new_snap, M.from_tree(kp))
        if dd:
            return 'the database in memory changed: ' + M.fmt(dd[0])
        b = io.BytesIO()
        kp.save(b)
        dd = M.diff(new_snap, M.from_doc(R.decode(b.getvalue(), password=pw, keyfile=kf)))
        if dd:
            return 'a later save stores something else: ' + M.fmt(dd[0])
        p2 = os.path.join(ctx.scratch, 'retry.kdbx')
        kp.save(p2)
        with open(p2, 'rb') as f:
            dd = M.diff(new_snap, M.from_doc(R.decode(f.read(), password=pw, keyfile=kf)))
        if dd:
            return 'a later save stores something else: ' + M.fmt(dd[0])
        return None

    def judge(what, st, res, killed_ok=True, temp_ok=False, other_cred=None):
        got = tree_of(d)
        detail = {'fault': what, 'log': (res or {}).get('log'), 'raised': (res or {}).get('raised'), 'target': target_kind, 'name': name, 'operations': e.trace[-20:]}
        killed = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77 or os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL
        if not killed and res is None:
            raise Violation('the saving process died (status %d) at %s' % (st, what), detail)
        if res and 'crash' in res:
            raise Violation('after %s: %s' % (what, res['crash'].strip().splitlines()[-1]), dict(detail, crash=res['crash']))
        for n, b in files.items():
            if n == name:
                continue
            if n not in got:
                raise Violation('%s: the save removed another file %r' % (what, n), detail)
            if got[n] != b:
                raise Violation('%s: the save changed another file %r' % (what, n), detail)
        cur = got.get(name)
        state = None
        if cur is None:
            if name in files:
                raise Violation('%s: the database file is gone' % what, detail)
            state = 'absent'
        elif name in files and cur == files[name]:
            state = 'old'
        else:
            try:
                snap = M.from_doc(R.decode(cur, password=pw, keyfile=kf))
            except Exception as ex:
                raise Violation('%s: the database file is damaged (%d bytes, %r)' % (what, len(cur), ex), detail)
            dd = M.diff(new_snap, snap)
            if dd:
                raise Violation('%s: the database file holds neither the old nor the new database: %s' % (what, M.fmt(dd[0])), detail)
            state = 'new'
        ctx.count('state: ' + state)
        extra = set(got) - set(files) - {name}
        if killed:
            ctx.count('killed')
        elif res['raised'] is None:
            ctx.count('completed saves')
            if state != 'new' and not (name in files and files[name] == cur and M.diff(new_snap, old_snap) == []):
                raise Violation('%s: the save reported success but the file is %s' % (what, state), detail)
            if extra:
                raise Violation('%s: a completed save left %r behind' % (what, sorted(extra)), detail)
        else:
            ctx.count('failed saves')
            if extra and not temp_ok:
                raise Violation('%s: a failed save left %r behind' % (what, sorted(extra)), detail)
            if res.get('after'):
                raise Violation('%s: %s' % (what, res['after']), detail)
        return state

    def run_fault(what, prep, sig, **kw):
        restore(d, files)

        # the directory is judged as the save left it
        def body2():
            r = attempt(prep)()
            r['snapshot'] = None
            if r['raised']:
                keep = tree_of(d)
                r['after'] = after(r)
                restore(d, keep)
            return r
        st, res = child(body2)
        fired = res is None or res.get('fired') or kw.get('always')
        ctx.eval((ctx.index, target_kind, how) + sig, nontrivial=bool(fired))
        if fired:
            ctx.count('faults fired')
        kw.pop('always', None)
        judge(what, st, res, **kw)
        return res

    # a fault-free run gives the calls
    res = run_fault('no fault', lambda: shim.arm(d, shim.COUNT), ('none',))
    ctx.sample({'case': ctx.index, 'target': target_kind, 'name': name, 'calls of a save': res['log'][:12]})
    n = res['calls']
    log = res['log']
    if res['raised']:
        raise Violation('a save without any fault failed: %s' % res['raised'])
    ctx.count('file-system calls', n)
    ctx.check(n > 0, 'no file-system call was observed')
    points = list(range(n))
    if len(points) > 40:
        points = points[:12] + rng.sample(points[12:-12], 12) + points[-12:]
    for i in points:
        wr = log[i].startswith(('write', 'pwrite', 'sendfile', 'copy_file'))
        plans = [(shim.FAIL_ONCE, rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES, errno.EDQUOT]), False), (shim.KILL_BEFORE, 0, False), (shim.KILL_AFTER, 0, False), (shim.INTERRUPT, 0, False)]
        if log[i].startswith('rename'):
            plans += [(shim.FAIL_ONCE, errno.EXDEV, False), (shim.FAIL_ONCE, errno.EPERM, False)]
        if wr:
            plans += [(shim.SHORT, 0, False), (shim.SHORT_KILL, 0, False), (shim.FAIL_FROM, errno.ENOSPC, 'w')]
        for mode, err, w in plans:
            if w:
                k = len([x for x in log[:i] if x.startswith(('write', 'pwrite', 'sendfile', 'copy_file'))])
                prep = lambda mode=mode, k=k, err=err: shim.arm(d, mode, k, err, True)
            else:
                prep = lambda mode=mode, i=i, err=err: shim.arm(d, mode, i, err)
            ctx.count('mode: ' + shim.MODES[mode])
            what = '%s%s at call %d, %s' % (shim.MODES[mode], ' ' + errno.errorcode[err] if err else '', i, log[i][:60])
            res = run_fault(what, prep, (i, mode, err), temp_ok=log[i].startswith(('unlink', 'remove')))
            if mode not in (shim.FAIL_ONCE, shim.SHORT) or not res or w:
                continue
            # whatever the save does about the fault may be hit by another one
            more = list(range(res.get('later') or 0))
            if mode == shim.SHORT:
                more = more[:1]
            elif len(more) > 6:
                more = sorted(rng.sample(more, 6))
            for j in more:
                for mode2 in (shim.KILL_BEFORE, shim.KILL_AFTER, shim.SHORT_KILL, shim.FAIL_ONCE):
                    if mode2 != shim.KILL_AFTER and rng.random() < .4:
                        continue
                    err2 = errno.EIO if mode2 == shim.FAIL_ONCE else 0

                    def prep2(j=j, mode2=mode2, err2=err2):
                        prep()
                        shim.second(mode2, j, err2)
                    ctx.count('two faults')
                    run_fault('%s, then %s at call %d after it' % (what, shim.MODES[mode2], j), prep2, (i, mode, err, j, mode2), temp_ok=True)
    # the rename fails, and so does everything after it
    ctx.count('mode: persistent')
    run_fault('all calls fail from the last one on', lambda: shim.arm(d, shim.FAIL_FROM, n - 1, errno.EXDEV), ('from last',), temp_ok=True)
    for lim in (0, 1, 100, len(old) // 2):
        def prep3(lim=lim):
            shim.arm(d, shim.COUNT)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
        restore(d, files)

        def body(lim=lim):
            prep3(lim)
            r = {'raised': None}
            try:
                do_save()
            except BaseException as ex:
                r['raised'] = repr(ex)[:200]
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            r['log'] = shim.log()
            shim.disarm()
            if r['raised']:
                keep = tree_of(d)
                r['after'] = after(r)
                restore(d, keep)
            return r
        st, res = child(body)
        ctx.eval((ctx.index, 'limit', lim))
        ctx.count('file size limit')
        judge('file size limit %d' % lim, st, res)
    # interrupted by a signal handler that raises
    for _ in range(4):
        delay = rng.uniform(.0005, .02)

        def prep4(delay=delay):
            def boom(*_):
                raise KeyboardInterrupt
            signal.signal(signal.SIGALRM, boom)
            signal.setitimer(signal.ITIMER_REAL, delay)
            shim.arm(d, shim.COUNT)
        restore(d, files)

        def body3():
            r = {'raised': None}
            try:
                prep4()
                do_save()
                signal.setitimer(signal.ITIMER_REAL, 0)
            except BaseException as ex:
                r['raised'] = repr(ex)[:200]
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            r['log'] = shim.log()
            shim.disarm()
            return r
        st, res = child(body3)
        ctx.eval((ctx.index, 'interrupt'), nontrivial=False)
        ctx.count('interrupts')
        if res is not None and 'crash' not in res:
            judge('interrupt after %.1f ms' % (delay * 1000), st, res, temp_ok=True)
    # failures before or while building
    for what, setup in [('missing key file', lambda: setattr(kp, 'keyfile', os.path.join(d, 'nope.key'))), ('key file is a directory', lambda: setattr(kp, 'keyfile', d)),
                        ('unencodable password', lambda: setattr(kp, 'password', 'x\ud800')), ('password of a wrong type', lambda: setattr(kp, 'password', 5)),
                        ('bad transformed key', None)]:
        restore(d, files)

        def body4():
            r = {'raised': None}
            opw, okf = kp.password, kp.keyfile
            shim.arm(d, shim.COUNT)
            try:
                if setup is None:
                    kp.save(path, transformed_key=5)
                else:
                    setup()
                    do_save()
            except BaseException as ex:
                r['raised'] = repr(ex)[:200]
            r['log'] = shim.log()
            shim.disarm()
            keep = tree_of(d)
            # a failing save to a stream leaves what it holds
            s = io.BytesIO(b'previous content')
            s.seek(8)
            try:
                if setup is None:
                    kp.save(s, transformed_key=5)
                else:
                    kp.save(s)
                r['after'] = 'saving to a stream did not fail'
            except BaseException:
                if s.getvalue() != b'previous content':
                    r['after'] = 'a failed save to a stream changed the stream: %d bytes' % len(s.getvalue())
            if r.get('after') is None:
                kp.password, kp.keyfile = opw, okf
                chg = M.from_tree(kp)['meta']['changed']
                new_snap['meta']['changed'] = chg
                restore(d, files)
                r['after'] = after(r)
            restore(d, keep)
            return r
        st, res = child(body4)
        ctx.eval((ctx.index, what))
        ctx.count('fails: ' + what)
        if res and res.get('raised') is None and 'crash' not in res:
            raise Violation('%s: the save did not fail' % what, {'operations': e.trace[-10:]})
        judge(what, st, res)
    # a target in a directory that does not exist
    restore(d, files)
    before = tree_of(d)
    try:
        kp.save(os.path.join(d, 'no', 'such', 'x.kdbx'))
        raise Violation('saving into a missing directory did not fail')
    except OSError:
        pass
    ctx.eval((ctx.index, 'missing directory'))
    ctx.check(tree_of(d) == before, 'saving into a missing directory changed files')
    dd = M.diff(new_snap, M.from_tree(kp))
    ctx.check(not dd, 'the database in memory changed: %s' % dd[:1])
    # streams at their own position, and the stream the database came from
    b = io.BytesIO()
    b.write(old)
    b.seek(0)
    k2 = e.P.PyKeePass(b, password=pw, keyfile=io.BytesIO(kf) if kf is not None else None)
    k2.password = 'x\ud800'
    try:
        k2.save()
        raise Violation('a save with an unencodable password did not fail')
    except UnicodeEncodeError:
        pass
    ctx.eval((ctx.index, 'own stream'))
    ctx.check(b.getvalue() == old, 'a failed save to its own stream changed the stored database')
