"""C18: create_database"""
import io
import os
import pathlib

import pykeepass

from .. import engine, gen, model as M, refkdbx as R
from ..fw import REPO, Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 80, 1200
RULE = ('One evaluation judges one opening attempt on a created database, or the complete content of one created database, or the template and all other created databases '
        'after one operation. A case creates one to three databases with random credentials and targets (path, Path, existing file, stream), edits and saves them in '
        'random order. Distinct by (case, credentials or operation history).')
ASSUME = ['the shipped template keeps its key-derivation cost (about 0.4 s), which bounds the number of attempts']
MUST_OBSERVE = ['created', 'created with transformed key', 'created in stream', 'default password refused', 'saved later', 'opened', 'refused', 'over existing file']


def prepare():
    """the key derivation of the template is expensive: remember its (deterministic) results"""
    import argon2.low_level as low
    real, memo = low.hash_secret_raw, {}
    if getattr(real, 'kpmon', False):
        return

    def hash_secret_raw(*a, **k):
        key = (a, tuple(sorted(k.items())))
        try:
            if key not in memo:
                memo[key] = real(*a, **k)
            return memo[key]
        except TypeError:
            return real(*a, **k)
    hash_secret_raw.kpmon = True
    low.hash_secret_raw = hash_secret_raw
    try:
        pykeepass.PyKeePass(os.path.join(REPO, 'pykeepass', 'blank_database.kdbx'), 'password')
    except Exception:
        pass


def template_files():
    """content of every file shipped in the package directory"""
    out = {}
    base = os.path.join(REPO, 'pykeepass')
    for d, ds, fs in os.walk(base):
        ds[:] = [x for x in ds if x != '__pycache__']
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, base)] = h.read()
    return out


def content(db):
    """stored bytes"""
    if 'stream' in db:
        return db['stream'].getvalue()[db['at']:]
    with open(str(db['path']), 'rb') as f:
        return f.read()


def new(ctx, rng, i):
    pw = rng.choice([None, '', 'pw', 'Password', 'p\xe4ss', gen.password(rng)])
    kf = rng.choice([None, None, b'kf', rng.randbytes(32), rng.randbytes(32).hex().encode(), b'', rng.randbytes(100)])
    tk = rng.randbytes(32) if rng.random() < .3 else None
    if pw == 'password':
        pw = 'passw0rd'
    if pw is None and kf is None and tk is None and rng.random() < .8:
        pw = 'only'
    db = {'pw': pw, 'kf': kf, 'tk': tk}
    kw = {}
    if pw is not None or rng.random() < .5:
        kw['password'] = pw
    if kf is not None:
        if rng.random() < .6:
            p = os.path.join(ctx.scratch, 'key%d' % i)
            with open(p, 'wb') as f:
                f.write(kf)
            kw['keyfile'] = p if rng.random() < .6 else pathlib.Path(p)
        else:
            kw['keyfile'] = io.BytesIO(kf)
    if tk is not None:
        kw['transformed_key'] = tk
        ctx.count('created with transformed key')
    r = rng.random()
    if r < .35:
        # a stream that may hold other data already
        db['at'] = rng.choice([0, 0, 5])
        db['stream'] = io.BytesIO(b'front'[:db['at']])
        db['stream'].seek(db['at'])
        target = db['stream']
        ctx.count('created in stream')
    else:
        target = os.path.join(ctx.scratch, rng.choice(['new %d.kdbx', 'n%d', '\xe9%d.db', 'blank_database%d.kdbx']) % i)
        if rng.random() < .3:
            with open(target, 'wb') as f:
                f.write(rng.randbytes(rng.choice([1, 100, 60000])))
            ctx.count('over existing file')
        if rng.random() < .4:
            target = pathlib.Path(target)
        db['path'] = target
    ctx.trace.append('create_database(%s, password=%r, keyfile=%s, transformed_key=%s)' % (type(target).__name__, pw, kf and len(kf), bool(tk)))
    db['kp'] = pykeepass.create_database(target, **kw)
    ctx.count('created')
    return db


def key(db, kdf):
    return db['tk'] if db['tk'] is not None else R.transform(R.composite(db['pw'], db['kf']), kdf)


def decode(ctx, db, what):
    data = content(db)
    try:
        doc = R.decode(data, transformed=key(db, R.parse_header(data)[0].kdf))
    except Exception as e:
        raise Violation('%s: the stored database does not open with the given credentials: %r' % (what, e), {'operations': ctx.trace})
    return doc, M.from_doc(doc)


def attempt(ctx, db, want, expect, **cred):
    ctx.eval((ctx.index, len(ctx.trace), repr(cred)))
    data = content(db)
    label = ', '.join('%s %.60r' % kv for kv in cred.items() if kv[1] is not None) or 'no credentials'
    try:
        kw = dict(cred)
        if kw.get('keyfile') is not None:
            kw['keyfile'] = io.BytesIO(kw['keyfile'])
        kp = pykeepass.PyKeePass(io.BytesIO(data), **kw)
    except pykeepass.exceptions.CredentialsError:
        ctx.count('refused')
        ctx.check(not expect, 'the created database is not opened by %s' % label, operations=ctx.trace)
        return
    ctx.check(expect, 'the created database is opened by %s' % label, operations=ctx.trace)
    ctx.count('opened')
    d = M.diff(want, M.from_tree(kp))
    ctx.check(not d, 'the created database opens with other content: %s' % (d and M.fmt(d[0])), operations=ctx.trace)


def blank(ctx, snap):
    g = snap['root']
    ctx.eval((ctx.index, len(ctx.trace), 'blank'))
    ctx.check(snap['ntop'] == 1, 'the new database has %d root groups' % snap['ntop'], operations=ctx.trace)
    ctx.check(not g['entries'], 'the new database has entries', operations=ctx.trace)
    ctx.check(not g['groups'], 'the new database has groups', operations=ctx.trace)
    ctx.check(not snap['bins'], 'the new database has binaries', operations=ctx.trace)


def others(ctx, dbs, files, ignore=None):
    """nothing but the database worked on has changed"""
    for j, db in enumerate(dbs):
        if db is not ignore:
            ctx.check(content(db) == db['stored'], 'a created database changed the stored file of another one', operations=ctx.trace)
            d = M.diff(db['mem'], M.from_tree(db['kp']))
            ctx.check(not d, 'a created database changed the content of another one: %s' % (d and M.fmt(d[0])), operations=ctx.trace)
        if 'stream' in db:
            ctx.check(db['stream'].getvalue()[:db['at']] == b'front'[:db['at']], 'bytes before the database in the stream changed', operations=ctx.trace)
    ctx.eval((ctx.index, len(ctx.trace), 'others'))
    now = template_files()
    ctx.check(now == files, 'files of the package changed: %s' % [k for k in sorted(set(now) | set(files)) if now.get(k) != files.get(k)], operations=ctx.trace)


def case(ctx):
    rng = ctx.rng
    ctx.trace = []
    files = template_files()
    dbs = []
    listing = set(os.listdir(ctx.scratch))
    for i in range(rng.choice([1, 1, 2, 3])):
        db = new(ctx, rng, i)
        doc, snap = decode(ctx, db, 'creation')
        blank(ctx, snap)
        d = M.diff(snap, M.from_tree(db['kp']))
        ctx.check(not d, 'the returned object differs from the file: %s' % (d and M.fmt(d[0])), operations=ctx.trace)
        db['stored'], db['mem'] = content(db), M.from_tree(db['kp'])
        dbs.append(db)
        others(ctx, dbs, files)
        attempt(ctx, db, snap, False, password='password')
        ctx.count('default password refused')
        kdf = doc.kdf
        tk = key(db, kdf)
        attempt(ctx, db, snap, True, transformed_key=tk)
        if db['tk'] is None:
            attempt(ctx, db, snap, True, password=db['pw'], keyfile=db['kf'])
            wrong = [c for c in ((None, db['kf']), (db['pw'], None), ('', None), (None, None), (db['pw'], b'other'), ('password', db['kf']), ('wrong', None)) if R.composite(*c) != R.composite(db['pw'], db['kf'])]
            c = rng.choice(wrong)
            attempt(ctx, db, snap, False, password=c[0], keyfile=c[1])
        elif rng.random() < .5:
            attempt(ctx, db, snap, False, password=db['pw'] if db['pw'] is not None else '', keyfile=db['kf'])
        bad = bytes(tk[:-1]) + bytes([tk[-1] ^ 1])
        attempt(ctx, db, snap, False, transformed_key=bad)
    # later edits and saves go to the new file with the new credentials
    for _ in range(rng.choice([1, 1, 2])):
        db = rng.choice(dbs)
        kp = db['kp']
        e = engine.Engine(ctx, rng, kp, M.from_tree(kp), kp.version, '*', scratch=ctx.scratch)
        e.trace = ctx.trace
        e.known = set()
        ctx.trace.append('edit database %d' % dbs.index(db))
        e.run(engine.mix(SET=2, TREE=4, BIN=1, TRASH=.5, HIST=.5), rng.choice([2, 6]))
        db['mem'] = M.from_tree(kp)
        others(ctx, dbs, files)
        ctx.trace.append('save() of database %d' % dbs.index(db))
        kp.save()
        ctx.count('saved later')
        doc, snap = decode(ctx, db, 'saving a created database')
        ctx.eval((ctx.index, len(ctx.trace)))
        d = M.diff(db['mem'], snap)
        ctx.check(not d, 'saving a created database did not store the content at its target: %s' % (d and M.fmt(d[0])), operations=ctx.trace)
        db['stored'] = content(db)
        others(ctx, dbs, files, ignore=db)
        if rng.random() < .5:
            attempt(ctx, db, snap, False, password='password')
        if rng.random() < .5:
            ctx.trace.append('reload() of database %d' % dbs.index(db))
            if isinstance(kp.keyfile, io.BytesIO):
                kp.keyfile.seek(0)
            kp.reload()
            d = M.diff(snap, M.from_tree(kp))
            ctx.check(not d, 'reloading a created database gives other content', operations=ctx.trace)
            db['mem'] = M.from_tree(kp)
    names = {'key%d' % i for i in range(3)} | {os.path.basename(str(db['path'])) for db in dbs if 'path' in db} | listing
    left = set(os.listdir(ctx.scratch)) - names
    ctx.check(not left, 'files are left behind: %r' % sorted(left), operations=ctx.trace)
    ctx.sample({'case': ctx.index, 'operations': ctx.trace[:10]})
