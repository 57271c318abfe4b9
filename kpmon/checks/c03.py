"""C03: only the exact credentials open a database"""
import io
import os
import pathlib
import unicodedata

from .. import engine, gen, model as M, refkdbx as R
from ..fw import Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 360, 4000
RULE = ('One evaluation is one attempt to open a stored file with one credential combination; the oracle is equality of the composite key computed by the independent '
        'implementation with the one the file was last saved with (open and give the content), or CredentialsError. Files go through random sequences of password, key '
        'file and transformed key changes, saves, reloads and failed reads. Distinct by (file, credentials); non-trivial if the credentials differ from those tried before.')
ASSUME = ['the cost parameters are small so that many derivations can be run']
MUST_OBSERVE = ['opened', 'refused', 'transformed opened', 'transformed refused', 'credential changes', 'saves', 'failed reads kept the object']


def near_passwords(rng, p):
    out = [None, '', 'password', ' ', '\0', 'None', 'pw2']
    if p is not None:
        out += [p + ' ', ' ' + p, p + '\n', p + '\0', p.upper(), p.lower(), p.swapcase(), p[:-1], p[1:], p + p, p[::-1], p + 'x', unicodedata.normalize('NFD', p), unicodedata.normalize('NFC', p),
                p.strip(), p.casefold(), p[:8], p[:len(p) // 2], 'x' + p, p.replace('\xe4', 'a')]
        out += [p.encode('utf-8').decode('latin-1'), p.encode('utf-8').hex()]
        if p:
            i = rng.randrange(len(p))
            out.append(p[:i] + chr(ord(p[i]) ^ 1) + p[i + 1:])
    ok = []
    for x in out:
        try:
            if x is not None:
                x.encode('utf-8')
            ok.append(x)
        except UnicodeEncodeError:
            pass
    return ok


def near_keyfiles(rng, k):
    out = [None, b'', b'x', b'kf', rng.randbytes(32)]
    if k is not None:
        out += [k + b'\n', k[:-1], k + b'\0', k[::-1], k.hex().encode(), k * 2]
        if k:
            b = bytearray(k)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            out.append(bytes(b))
        if len(k) == 64:
            out += [k.upper(), k.lower(), k[:32]]
    return out


KEYS = [b'kf', b'', b'\x00' * 32, b'ab' * 32, b'AB' * 32, b'line\n', b'x' * 33, b'<KeyFile/>', bytes(range(256))]


class Store:
    """credentials a stored file was last saved with: ('cred', pw, kf) or ('tk', key)"""


def tkey(cred, kdf):
    if cred[0] == 'tk':
        return cred[1]
    return R.transform(R.composite(cred[1], cred[2]), kdf)


def give(rng, ctx, kf):
    """a key file as path, Path or stream"""
    if kf is None:
        return None
    r = rng.random()
    if r < .5:
        s = io.BytesIO(kf)
        s.seek(rng.randint(0, len(kf)))
        return s
    p = os.path.join(ctx.scratch, 'k%d' % rng.randint(0, 3))
    with open(p, 'wb') as f:
        f.write(kf)
    return p if r < .75 else pathlib.Path(p)


def attempt(ctx, rng, P, data, disk, want, cred=None, tk=None, src=None):
    """one opening attempt, judged"""
    kdf = R.parse_header(data)[0].kdf
    right = tkey(disk, kdf)
    if tk is not None:
        expect = tk == right
        kw = dict(transformed_key=tk)
        ctx.count('transformed opened' if expect else 'transformed refused')
    else:
        expect = R.transform(R.composite(*cred), kdf) == right
        kw = dict(password=cred[0], keyfile=give(rng, ctx, cred[1]))
        ctx.count('opened' if expect else 'refused')
    ctx.eval((data[:200], len(data), cred, tk))
    label = 'transformed key %r' % tk if tk is not None else 'password %r, key file %.40r' % cred
    info = {'credentials on disk': repr(disk)[:300], 'tried': label}
    try:
        kp = P.PyKeePass(io.BytesIO(data) if src is None else src, **kw)
    except P.exceptions.CredentialsError:
        if expect:
            raise Violation('the right credentials are refused: ' + label, info)
        return None
    except Exception as e:
        raise Violation('%s raises %r' % (label, e), info)
    if not expect:
        raise Violation('opens with other credentials: %s (stored with %.100r)' % (label, disk), info)
    d = M.diff(want, M.from_tree(kp))
    if d:
        raise Violation('opening with the right credentials gives other content: ' + M.fmt(d[0]), info)
    return kp


def attempts(ctx, rng, P, data, disk, want, n):
    kdf = R.parse_header(data)[0].kdf
    right = tkey(disk, kdf)
    attempt(ctx, rng, P, data, disk, want, tk=right)
    bad = bytearray(right)
    bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
    attempt(ctx, rng, P, data, disk, want, tk=bytes(bad))
    attempt(ctx, rng, P, data, disk, want, tk=rng.choice([bytes(32), right[::-1], right[:31] + b'\0', rng.randbytes(32)]))
    pws = near_passwords(rng, disk[1] if disk[0] == 'cred' else 'pw')
    kfs = near_keyfiles(rng, disk[2] if disk[0] == 'cred' else None)
    tries = set()
    if disk[0] == 'cred':
        attempt(ctx, rng, P, data, disk, want, cred=(disk[1], disk[2]))
        for p in pws:
            tries.add((p, disk[2]))
        for k in kfs:
            tries.add((disk[1], k))
        tries.add((None, None))
        tries.add(('', None))
        # a key file that cannot be read is not "no key file"
        for k in ('missing.key', '.'):
            k = os.path.join(ctx.scratch, k)
            label = 'password=%.60r, key file cannot be read (%s)' % (disk[1], os.path.basename(k))
            ctx.eval((ctx.index, data[-32:], label))
            ctx.count('unreadable key files')
            try:
                P.PyKeePass(io.BytesIO(data), password=disk[1], keyfile=k)
            except Exception:
                continue
            raise Violation('opens with other credentials: %s' % label, {'stored': repr(disk)[:200]})
    for _ in range(4):
        tries.add((rng.choice(pws), rng.choice(kfs)))
    tries = sorted(tries, key=repr)
    for c in rng.sample(tries, min(n, len(tries))):
        attempt(ctx, rng, P, data, disk, want, cred=c)


def case(ctx):
    rng = ctx.rng
    pw = rng.choice([gen.password(rng), 'pw', None, ''])
    kf = rng.choice([None, None] + KEYS + [rng.randbytes(rng.choice([1, 32, 64]))])
    o = gen.Opt(groups=1, entries=2, nbin=1)
    cfg = gen.config(rng, cipher=rng.choice(['aes256', 'chacha20', 'aes256', 'twofish']))
    e = engine.start(ctx, rng, '*', o, cfg=cfg, pw=pw, keyfile=kf)
    P = e.P
    kp = e.kp
    disk = ('cred', pw, kf)
    want = e.m.snap()
    attempts(ctx, rng, P, e.data0, disk, want, 40)
    # sequences of changes
    path = os.path.join(ctx.scratch, 'seq.kdbx')
    with open(path, 'wb') as f:
        f.write(e.data0)
    mem = ('cred', pw, kf)
    if rng.random() < .25:
        t = tkey(disk, cfg['kdf'])
        kp = P.PyKeePass(path, transformed_key=t)
        mem = ('tk', t)
    else:
        kp = P.PyKeePass(path, password=pw, keyfile=keep(ctx, kf))
    log = ctx.trace = ['open %r' % (mem,)]
    parts = [pw, kf] if mem[0] == 'cred' else [None, None]
    changed = None
    for step in range(rng.choice([4, 8])):
        op = rng.choice(['password', 'keyfile', 'both', 'save', 'save', 'save', 'savecopy', 'reload', 'badread', 'read', 'savetk', 'edit'])
        data = open(path, 'rb').read()
        if op in ('password', 'both'):
            parts[0] = rng.choice([None, '', 'pw', gen.password(rng)])
            log.append('password = %r' % (parts[0],))
            kp.password = parts[0]
            ctx.count('credential changes')
            mem = ('cred', parts[0], parts[1])
            changed = kp.credchange_date
        if op in ('keyfile', 'both'):
            parts[1] = rng.choice([None] + KEYS + [rng.randbytes(32)])
            log.append('keyfile = %.40r' % (parts[1],))
            kp.keyfile = keep(ctx, parts[1])
            ctx.count('credential changes')
            mem = ('cred', parts[0], parts[1])
            changed = kp.credchange_date
        if op in ('password', 'keyfile', 'both'):
            ctx.check(open(path, 'rb').read() == data, 'assigning a credential changed the stored file', operations=log)
            now = M.from_tree(kp)
            d = M.diff(dict(now, meta=dict(now['meta'], changed=None)), dict(want, meta=dict(want['meta'], changed=None)))
            ctx.check(not d, 'assigning a credential changed content', operations=log)
            pending = now
        elif op == 'save':
            log.append('save')
            kp.save()
            want, disk = M.from_tree(kp), mem
            ctx.count('saves')
            attempts(ctx, rng, P, open(path, 'rb').read(), disk, want, 8)
        elif op == 'savecopy':
            log.append('save(copy)')
            b = io.BytesIO()
            kp.save(b)
            attempts(ctx, rng, P, b.getvalue(), mem, M.from_tree(kp), 5)
            ctx.check(open(path, 'rb').read() == data, 'saving a copy changed the stored file', operations=log)
        elif op == 'savetk':
            log.append('save(copy, transformed_key)')
            t = rng.randbytes(32)
            b = io.BytesIO()
            kp.save(b, transformed_key=t)
            attempts(ctx, rng, P, b.getvalue(), ('tk', t), M.from_tree(kp), 4)
            # the object itself keeps its credentials
            b = io.BytesIO()
            kp.save(b)
            attempts(ctx, rng, P, b.getvalue(), mem, M.from_tree(kp), 2)
        elif op == 'reload':
            if tkey(mem, R.parse_header(data)[0].kdf) != tkey(disk, R.parse_header(data)[0].kdf):
                try:
                    kp.reload()
                    raise Violation('reload with credentials that are not the stored ones succeeds', {'operations': log})
                except P.exceptions.CredentialsError:
                    ctx.count('refused')
            else:
                log.append('reload')
                kp.reload()
                d = M.diff(want, M.from_tree(kp))
                ctx.check(not d, 'reload gives other content', operations=log)
        elif op == 'read':
            # again from its own file, with the credentials that are stored
            log.append('read')
            if disk[0] == 'cred':
                parts = [disk[1], disk[2]]
                cred = dict(password=disk[1], keyfile=keep(ctx, disk[2]))
            else:
                parts = [None, None]
                cred = dict(transformed_key=disk[1])
            if rng.random() < .6:
                kp.read(**cred)
            else:
                kp.read(rng.choice([path, __import__('pathlib').Path(path)]), **cred)
            mem = disk
            d = M.diff(want, M.from_tree(kp))
            ctx.check(not d, 'read() gives other content than the file holds', operations=log)
            ctx.check(kp.password == cred.get('password') and kp.keyfile == cred.get('keyfile') and str(kp.filename) == path, 'read() does not take over the file and credentials', operations=log)
            ctx.count('reads')
            ctx.eval((ctx.index, step, 'read'))
        elif op == 'badread':
            log.append('read with wrong credentials')
            before, fn, p0, k0 = M.from_tree(kp), kp.filename, kp.password, kp.keyfile
            other = io.BytesIO(data) if rng.random() < .5 else path
            try:
                kp.read(other, password='definitely wrong \u2713', keyfile=None)
                raise Violation('read() opens with other credentials', {'operations': log})
            except P.exceptions.CredentialsError:
                pass
            ctx.check(not M.diff(before, M.from_tree(kp)) and kp.filename == fn and kp.password == p0 and kp.keyfile == k0,
                      'a failed read changed the open database or its credentials', operations=log)
            ctx.count('failed reads kept the object')
            ctx.eval((ctx.index, step, 'badread'))
        elif op == 'edit':
            log.append('edit')
            v = gen.text(rng)
            kp.database_name = v
            want = dict(want)
            # content changes in memory only
            ctx.check(open(path, 'rb').read() == data, 'an edit changed the stored file', operations=log)
            b = io.BytesIO()
            kp.save(b)
            attempts(ctx, rng, P, b.getvalue(), mem, M.from_tree(kp), 3)
            kp.database_name = want['meta']['name']
    # the stored file is still keyed as last saved
    attempts(ctx, rng, P, open(path, 'rb').read(), disk, M.from_doc(R.decode(open(path, 'rb').read(), transformed=tkey(disk, R.parse_header(open(path, 'rb').read())[0].kdf))), 6)
    ctx.sample({'case': ctx.index, 'operations': log})


def keep(ctx, kf):
    """key file on disk under its own name"""
    if kf is None:
        return None
    p = os.path.join(ctx.scratch, 'key%d' % ctx.fresh())
    with open(p, 'wb') as f:
        f.write(kf)
    return p
