"""C17: open databases do not influence each other"""
import io
import os
import random
import subprocess
import sys
import threading
import traceback

from .. import engine, gen, model as M, refkdbx as R
from ..fw import Ctx, Foreign, REPO, VERIF, Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 360, 3000
RULE = ('One evaluation compares one database (tree, getters, saved file) with its own shadow model after a step of an interleaving of 2-4 databases in one thread, or in '
        'concurrent threads with a switch interval of 10 us and saves into one directory; a deviation counts only if the same operations on the database alone, in a fresh '
        'process, do not show it. Distinct by (database, its operation history, what the others did); non-trivial if another database was used in between.')
ASSUME = ['one thread per database', 'no two databases save to the same path at the same time']
MUST_OBSERVE = ['interleaved steps', 'threaded cases', 'thread steps', 'same file twice', 'overwritten path', 'changed key file', 'saves', 'reopens', 'context switches seen', 'created databases']
OPS = dict(SET=3, TREE=3, HIST=1, BIN=2, TIME=1, TRASH=.5, READ=1, set_uuid=.2, save=1.2)


def sub(ctx, k, scratch):
    c = Ctx(ctx.prop, ctx.tier, ctx.seed, ctx.index, scratch)
    c.rng = random.Random('%s/%s/%d/db%d' % (ctx.prop, ctx.seed, ctx.index, k))
    c._n = 1000 * (k + 1)
    return c


CREDS = [('pw', None), ('pw', b'key'), ('other', None), (None, b'key'), ('', None), ('pw', b'key2')]


class Db:
    """one database with its own generator, context and operation sequence"""

    def __init__(self, ctx, k, plan, scratch):
        self.k = k
        self.ctx = sub(ctx, k, scratch)
        self.plan = plan
        rng = self.ctx.rng
        pw, kf = plan['creds'][k]
        cfg = gen.config(rng, cipher=rng.choice(['aes256', 'chacha20']))
        if plan['same']:
            # the same file for everyone
            self.ctx.rng = rng = random.Random('%s/%s/%d/same' % (ctx.prop, ctx.seed, ctx.index))
            cfg = gen.config(rng, cipher=rng.choice(['aes256', 'chacha20']))
        self.e = engine.start(self.ctx, rng, '*', gen.Opt(groups=3, entries=4, hist=.4, nbin=3), cfg=cfg, pw=pw, keyfile=kf)
        if plan['same']:
            self.e.rng = self.ctx.rng = random.Random('%s/%s/%d/db%d' % (ctx.prop, ctx.seed, ctx.index, k))
        self.e.outs = ['db.k%d' % k, 'out%d.kdbx' % k]
        self.e.re_name = 're.k%d' % k
        self.steps = plan['steps']
        self.ops = engine.mix(**OPS)

    def step(self):
        self.e.run(self.ops, 1)

    def idle(self):
        """nothing may have changed"""
        self.e.compare('idle')
        kp = self.e.kp
        if kp.password != self.e.pw:
            raise Violation('the password of the object changed to %r' % kp.password)

    def finish(self):
        self.e.log('final save')
        kind = self.e.op_save()
        self.e.compare(kind)


def make_plan(ctx):
    rng = random.Random('%s/%s/%d/plan' % (ctx.prop, ctx.seed, ctx.index))
    n = rng.choice([2, 2, 3, 4])
    same = rng.random() < .25
    creds = [rng.choice(CREDS) for _ in range(n)]
    if same:
        creds = [creds[0]] * n
    return dict(n=n, same=same, creds=creds, threads=rng.random() < .5, steps=rng.choice([8, 14]))


def solo(ctx, plan, k, scratch):
    d = Db(ctx, k, plan, scratch)
    for _ in range(d.steps):
        d.step()
    d.finish()


def deviation(ctx, k, msg, info):
    """a deviation of database k: is it there when the database is used alone?"""
    env = dict(os.environ, KPMON_SOLO=str(k))
    out = subprocess.run([sys.executable, '-B', '-m', 'kpmon.main', 'C17', '--solo', str(ctx.index)], env=env, cwd=VERIF, capture_output=True, text=True, timeout=200)
    if out.returncode == 0:
        raise Violation('database %d: %s (not when it is used alone)' % (k, msg), info)
    if out.returncode == 1:
        raise Foreign('also alone: ' + msg)
    raise RuntimeError('solo run: %s %s' % (out.returncode, out.stderr[-2000:]))


def guarded(fn, *a):
    """-> None or (message, info)"""
    try:
        fn(*a)
    except Violation as v:
        return v.msg, v.detail
    except Exception as e:
        return 'unexpected %r' % e, {'traceback': traceback.format_exc()[-3000:]}


def case(ctx):
    rng = ctx.rng
    if ctx.index % 8 == 5:
        return created(ctx, rng)
    plan = make_plan(ctx)
    if os.environ.get('KPMON_SOLO'):
        solo(ctx, plan, int(os.environ['KPMON_SOLO']), ctx.scratch)
        return
    dbs = []
    for k in range(plan['n']):
        dbs.append(Db(ctx, k, plan, ctx.scratch))
    if plan['same']:
        ctx.count('same file twice')
    log = ctx.trace = []
    if plan['threads']:
        threaded(ctx, plan, dbs)
    else:
        left = {k: plan['steps'] for k in range(plan['n'])}
        while left:
            k = rng.choice(list(left))
            left[k] -= 1
            if not left[k]:
                del left[k]
            log.append('step of %d' % k)
            ctx.count('interleaved steps')
            bad = guarded(dbs[k].step)
            if bad:
                deviation(ctx, k, bad[0], dict(bad[1], schedule=log[-40:]))
            for j in range(plan['n']):
                if j != k:
                    bad = guarded(dbs[j].idle)
                    if bad:
                        raise Violation('database %d changed during a step of database %d (%s): %s' % (j, k, dbs[k].e.trace[-1], bad[0]), dict(bad[1], schedule=log[-40:], other=dbs[k].e.trace[-10:]))
            ctx.eval((ctx.index, tuple(d.e.th for d in dbs)))
            if rng.random() < .12:
                aside(ctx, rng)
        for k, d in enumerate(dbs):
            bad = guarded(d.finish)
            if bad:
                deviation(ctx, k, bad[0], bad[1])
    for d in dbs:
        ctx.counts.update(d.ctx.counts)
        ctx.sigs |= d.ctx.sigs
    ctx.sample({'case': ctx.index, 'databases': plan['n'], 'threads': plan['threads'], 'operations of the first': dbs[0].e.trace[:8]})


def prepare():
    from . import c18
    c18.prepare()


def created(ctx, rng):
    """databases from create_database, made and edited in turn"""
    import pykeepass
    log = ctx.trace = []
    dbs = []
    first = None
    n = rng.choice([2, 3])
    steps = rng.choice([6, 12])
    while steps or len(dbs) < n:
        if len(dbs) < n and (not dbs or not steps or rng.random() < .4):
            k = len(dbs)
            tk = rng.randbytes(32)
            target = io.BytesIO() if rng.random() < .4 else os.path.join(ctx.scratch, 'made%d.kdbx' % k)
            log.append('create database %d' % k)
            kp = pykeepass.create_database(target, password='pw%d' % k, transformed_key=tk)
            snap = M.from_tree(kp)
            ctx.count('created databases')
            if first is None:
                first = blank_view(snap)
            d = M.diff(first, blank_view(snap))
            ctx.eval((ctx.index, len(log), 'new'), nontrivial=k > 0)
            if d:
                raise Violation('a new database depends on what was done with another one: ' + M.fmt(d[0]), {'operations': log[-40:]})
            e = engine.Engine(ctx, rng, kp, snap, kp.version, '*', scratch=ctx.scratch)
            e.trace = log
            e.known = set()
            dbs.append((e, target, tk))
        else:
            steps -= 1
            k = rng.randrange(len(dbs))
            log.append('-- database %d:' % k)
            bad = guarded(dbs[k][0].run, engine.mix(SET=4, TREE=4, BIN=2, TRASH=.5, HIST=.5, TIME=.5), 1)
            if bad:
                raise Foreign('database %d: %s' % (k, bad[0]))
        for j, (e, target, tk) in enumerate(dbs):
            if j != k:
                bad = guarded(e.compare, 'idle')
                if bad:
                    raise Violation('created database %d changed during a step of %d: %s' % (j, k, bad[0]), dict(bad[1], operations=log[-40:]))
                if e.kp.password != 'pw%d' % j:
                    raise Violation('the password of created database %d changed to %r' % (j, e.kp.password), {'operations': log[-40:]})
    for j, (e, target, tk) in enumerate(dbs):
        log.append('save database %d' % j)
        e.kp.save()
    for j, (e, target, tk) in enumerate(dbs):
        data = target.getvalue() if hasattr(target, 'getvalue') else open(target, 'rb').read()
        try:
            d = M.diff(e.m.snap(), M.from_doc(R.decode(data, transformed=tk)))
        except Exception as ex:
            raise Violation('created database %d is not stored at its target under its own key: %r' % (j, ex), {'operations': log[-40:]})
        ctx.eval((ctx.index, len(log), 'stored', j))
        if d:
            raise Violation('created database %d is stored with other content: %s' % (j, M.fmt(d[0])), {'operations': log[-40:]})


def blank_view(snap):
    """a new database without what may differ from one to the next (identity and times)"""
    s = dict(snap, root=dict(snap['root'], uuid='', times={}), meta=dict(snap['meta'], changed=None))
    return s


def threaded(ctx, plan, dbs):
    results = {}
    old = sys.getswitchinterval()
    seq = []
    go = threading.Barrier(plan['n'])

    def work(k, d):
        go.wait()
        for _ in range(d.steps):
            seq.append(k)
            bad = guarded(d.step)
            if bad:
                results[k] = bad
                return
        seq.append(k)
        bad = guarded(d.finish)
        if bad:
            results[k] = bad
    ts = [threading.Thread(target=work, args=(k, d)) for k, d in enumerate(dbs)]
    sys.setswitchinterval(1e-5)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.count('threaded cases')
    ctx.count('thread steps', len(seq))
    ctx.count('context switches seen', sum(1 for a, b in zip(seq, seq[1:]) if a != b))
    ctx.eval((ctx.index, tuple(seq)))
    for k, bad in sorted(results.items()):
        deviation(ctx, k, bad[0], dict(bad[1], operations=dbs[k].e.trace[-20:]))
    for k, d in enumerate(dbs):
        bad = guarded(d.idle)
        if bad:
            raise Violation('database %d: %s' % (k, bad[0]), bad[1])


def aside(ctx, rng):
    """unrelated databases come and go: at one path, with a changed key file, with other credentials"""
    import pykeepass
    path = os.path.join(ctx.scratch, 'aside.kdbx')
    keyp = os.path.join(ctx.scratch, 'aside.key')
    prev = None
    for i in range(rng.choice([2, 3])):
        pw = rng.choice(['pw', 'pw', None, 'x'])
        kf = rng.choice([b'key', b'key2', rng.randbytes(32)])
        data, cfg, root, bins = gen.build(rng, gen.Opt(groups=1, entries=2, nbin=2), pw=pw, keyfile=kf, cipher='aes256')
        want = M.from_doc(R.decode(data, password=pw, keyfile=kf))
        with open(path, 'wb') as f:
            f.write(data)
        with open(keyp, 'wb') as f:
            f.write(kf)
        info = {'opened in turn at one path': i}
        try:
            kp = pykeepass.PyKeePass(path, password=pw, keyfile=keyp)
        except Exception as e:
            raise Violation('a database at a path used before does not open: %r' % e, info)
        d = M.diff(want, M.from_tree(kp)) or M.diff(M.api_view(want), M.from_api(kp))
        if d:
            raise Violation('a database at a path used before opens to other content: ' + M.fmt(d[0]), info)
        if prev is not None:
            d = M.diff(prev[1], M.from_tree(prev[0]))
            if d:
                raise Violation('opening another file at the same path changed an open database: ' + M.fmt(d[0]), info)
            if prev[0].password != prev[2]:
                raise Violation('opening another file changed the password of an open object', info)
        prev = (kp, want, pw)
        ctx.count('overwritten path')
        if i:
            ctx.count('changed key file')
        kp.save()
        got = open(path, 'rb').read()
        try:
            w2 = M.from_doc(R.decode(got, password=pw, keyfile=kf))
        except Exception as e:
            raise Violation('a database saved at a path used before is not readable with its credentials: %r' % e, info)
        ctx.check(not M.diff(want, w2), 'a database saved at a path used before has other content')
        ctx.eval((ctx.index, 'aside', data[:100]))
