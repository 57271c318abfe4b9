"""C20: saving keeps the format and key-derivation settings"""
import io
import os

from .. import engine, fixtures, gen, model as M, refkdbx as R
from ..fw import Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 300, 6000
RULE = ('One evaluation compares all settings in the header and inner header of one saved file, parsed independently, with those of the file the database was opened from, '
        'or the settings reported by the library with the stored ones, or one use of a transformed key. Databases come in every version, cipher, KDF, compression and inner '
        'cipher with random parameters, extra header and KDF fields and field orders, and from the fixtures; edits, credential changes and saves come in between. Distinct by '
        '(configuration, operation history).')
ASSUME = ['master seed, IV and stream keys are not settings: they may be kept or renewed']
MUST_OBSERVE = ['saved headers', 'reported', 'transformed opened', 'transformed saved', 'credential changes', 'fixtures', 'extra header fields', 'binary flags', 'large binaries']

RENEWABLE = {4, 7, 8, 9, 0}      # master seed, IV, inner key, stream start, end


def settings(data):
    d = R.parse_header(data)[0]
    out = {}
    for i, v in d.header_fields:
        if i == 11 or i == 12 and v[:2] == b'\0\1':
            out[i] = {k: (t, x) for k, t, x in R._vardict(v)}
        elif i not in RENEWABLE:
            out[i] = v
    return {'version': d.version, 'fields': out}


def judge_header(ctx, data0, data, trace):
    ctx.count('saved headers')
    a, b = settings(data0), settings(data)
    if a != b:
        bad = ['version'] if a['version'] != b['version'] else ['field %d' % k for k in sorted(set(a['fields']) | set(b['fields'])) if a['fields'].get(k) != b['fields'].get(k)]
        raise Violation('the saved file has other settings: %s: %.300r instead of %.300r' % (bad, b, a), {'operations': trace[-40:]})


def judge_reported(ctx, kp, doc, trace):
    ctx.count('reported')
    got = (kp.version, kp.encryption_algorithm, kp.kdf_algorithm, kp.database_salt)
    want = (doc.version, doc.cipher, doc.kdf['name'], doc.kdf['S'])
    ctx.check(got == want, 'version, cipher, KDF and salt are reported as %r, stored are %r' % (got, want), operations=trace[-40:])


def case(ctx):
    rng = ctx.rng
    if ctx.index % 12 == 0:
        return fixture(ctx, rng)
    o = gen.Opt(groups=2, entries=3, nbin=4)
    cfg = gen.config(rng)
    v4 = cfg['version'][0] == 4
    if rng.random() < .4:
        cfg['header_extra'] = [(1, rng.choice([b'', b'comment', rng.randbytes(40)]))]
        if v4 and rng.random() < .7:
            cfg['header_extra'].append((12, R._wvardict([('app', 0x18, 'x\xe9'), ('n', 0x05, 7), ('b', 0x42, rng.randbytes(5)), ('f', 0x08, True), ('i', 0x0C, -5), ('j', 0x0D, -9)])))
        ctx.count('extra header fields')
    if v4 and rng.random() < .3:
        cfg['vardict_extra'] = [('K', 0x42, rng.randbytes(3)), ('zz', 0x18, 'text')][:rng.randint(1, 2)]
        if cfg['kdf']['name'] != 'aeskdf':
            cfg['vardict_extra'] = cfg['vardict_extra'][1:]      # K is Argon2's secret key
    if rng.random() < .3:
        cfg['field_order'] = rng
    cfg['end_data'] = rng.choice([b'\r\n\r\n', b'', b'x'])
    if cfg['version'][0] == 3:
        cfg['kdf']['R'] = rng.choice([1, 3, 6000, 600])
    pw, kf = rng.choice([('pw', None), ('pw', None), (None, b'kf'), ('p2', b'kf2')])
    e = engine.start(ctx, rng, 'none', o, cfg=cfg, pw=pw, keyfile=kf, api=rng.random() < .2)
    ctx.trace = e.trace
    doc0 = R.decode(e.data0, password=pw, keyfile=kf)
    flags(e, doc0)
    e.kp.filename        # opened from here
    judge_reported(ctx, e.kp, doc0, e.trace)

    def on_save(data, doc):
        ctx.eval((ctx.index, e.th, 'saved'))
        judge_header(ctx, e.data0, data, e.trace)
        ctx.check(doc.inner == doc0.inner, 'the inner stream cipher is %s in the saved file, was %s' % (doc.inner, doc0.inner), operations=e.trace[-40:])
        judge_flags(ctx, e, doc)
        judge_reported(ctx, e.kp, doc, e.trace)
    e.on_save.append(on_save)
    if v4 and ctx.index % 10 == 7 and cfg['cipher'] != 'twofish':
        # the flag does not depend on the size
        for n in rng.sample([65535, 65536, (1 << 20) - 1, 1 << 20, 1500000, 1 << 21], 3):
            data, prot = rng.randbytes(n), rng.random() < .6
            e.log('add_binary(%d bytes, protected=%r)' % (n, prot))
            e.kp.add_binary(data, **({'protected': prot} if not prot or rng.random() < .5 else {}))
            e.m.bins.append(M.Bin(data))
            e.m.bins[-1].flag = int(prot)
        e.api = False
        ctx.count('large binaries')
    for _ in range(rng.choice([2, 4])):
        r = rng.random()
        if r < .5:
            e.run(engine.mix(SET=2, TREE=2, BIN=4, HIST=.5, TRASH=.3), rng.choice([1, 4]))
        elif r < .75:
            e.pw, e.keyfile = rng.choice([('new', None), ('', None), (None, b'k'), ('x', rng.randbytes(32))])
            e.log('credentials %r' % (e.pw,))
            e.kp.password = e.pw
            p = os.path.join(ctx.scratch, 'nk')
            if e.keyfile is not None:
                p += '%d' % ctx.fresh()
                with open(p, 'wb') as f:
                    f.write(e.keyfile)
            e.kp.keyfile = p if e.keyfile is not None else None
            e.m.meta['changed'] = e.kp.credchange_date
            ctx.count('credential changes')
        elif r < .85:
            e.op_own_save()
        e.op_save()
        transformed(ctx, e, rng)


def flags(e, doc):
    if e.v4:
        for b, (f, _) in zip(e.m.bins, doc.binaries):
            b.flag = f
    else:
        for el in doc.root.findall('Meta/Binaries/Binary'):
            e.m.bins[int(el.get('ID'))].flag = el.get('Protected') == 'True'


def judge_flags(ctx, e, doc):
    if e.v4:
        got = [f for f, _ in doc.binaries]
    else:
        got = {int(el.get('ID')): el.get('Protected') == 'True' for el in doc.root.findall('Meta/Binaries/Binary')}
        got = [got[i] for i in range(len(got))]
    want = [g if b.flag is None else b.flag for b, g in zip(e.m.bins, got)]
    ctx.count('binary flags', len(want))
    ctx.check(got == want, 'the protection flags of the binaries are %r, expected %r' % (got, want), operations=e.trace[-40:])


def transformed(ctx, e, rng):
    """the reported transformed key opens the database, and saving with it keeps the credentials"""
    P = e.P
    b = io.BytesIO()
    e.kp.save(b)
    data = b.getvalue()
    cred = dict(password=e.pw, keyfile=io.BytesIO(e.keyfile) if e.keyfile is not None else None)
    fresh = P.PyKeePass(io.BytesIO(data), **cred)
    tk = fresh.transformed_key
    right = R.transform(R.composite(e.pw, e.keyfile), R.parse_header(data)[0].kdf)
    ctx.eval((ctx.index, e.th, 'tk'))
    try:
        kp = P.PyKeePass(io.BytesIO(data), transformed_key=tk)
    except Exception as x:
        raise Violation('the transformed key reported after opening does not open the database: %r' % x, {'operations': e.trace[-40:]})
    ctx.check(tk == right, 'the reported transformed key is not the one of the credentials', operations=e.trace[-40:])
    ctx.count('transformed opened')
    d = M.diff(e.m.snap(), M.from_tree(kp))
    ctx.check(not d, 'opening with the transformed key gives other content', operations=e.trace[-40:])
    ctx.check(kp.transformed_key == tk, 'the transformed key is reported differently after opening with it', operations=e.trace[-40:])
    judge_reported(ctx, kp, R.parse_header(data)[0], e.trace)
    how = rng.randrange(3)
    out = io.BytesIO()
    who = [kp, fresh, kp][how]
    if rng.random() < .5:
        kp.database_name = fresh.database_name = name = gen.name(rng)
    else:
        name = e.m.meta['name']
    e.log('save with the transformed key (%d)' % how)
    if how == 0:
        kp.save(out)
    else:
        who.save(out, transformed_key=tk)
    ctx.count('transformed saved')
    ctx.eval((ctx.index, e.th, 'tk saved'))
    try:
        doc = R.decode(out.getvalue(), password=e.pw, keyfile=e.keyfile)
        P.PyKeePass(io.BytesIO(out.getvalue()), password=e.pw, keyfile=io.BytesIO(e.keyfile) if e.keyfile is not None else None)
    except Exception as x:
        raise Violation('a database saved with its transformed key does not open with the credentials: %r' % x, {'operations': e.trace[-40:]})
    ctx.check((doc.root.findtext('Meta/DatabaseName') or '') == name, 'content differs', operations=e.trace[-40:])
    judge_header(ctx, e.data0, out.getvalue(), e.trace)


def fixture(ctx, rng):
    """databases written by other programs"""
    import pykeepass as P
    f = fixtures.load((ctx.index // 12) % len(fixtures.LIST))
    if f is None:
        return
    name, data, kw, kf = f
    ctx.count('fixtures')
    ctx.trace = ['fixture %s' % name]
    doc0 = R.decode(data, password=kw, keyfile=kf)
    kp = P.PyKeePass(io.BytesIO(data), password=kw, keyfile=io.BytesIO(kf) if kf is not None else None)
    judge_reported(ctx, kp, doc0, ctx.trace)
    for i in range(2):
        if i:
            kp.add_group(kp.root_group, 'g%d' % rng.getrandbits(40))
        b = io.BytesIO()
        kp.save(b)
        ctx.eval((name, i))
        judge_header(ctx, data, b.getvalue(), ctx.trace)
        doc = R.decode(b.getvalue(), password=kw, keyfile=kf)
        ctx.check(doc.inner == doc0.inner, 'the inner stream cipher changed', operations=ctx.trace)
        if doc.version[0] == 4:
            ctx.check([x for x, _ in doc.binaries] == [x for x, _ in doc0.binaries], 'binary protection flags changed', operations=ctx.trace)
    kp2 = P.PyKeePass(io.BytesIO(b.getvalue()), transformed_key=kp.transformed_key)
    ctx.check(kp2.transformed_key == doc0.transformed, 'transformed key', operations=ctx.trace)
