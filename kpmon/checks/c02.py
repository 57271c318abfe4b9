"""C02: files conform to KDBX and interoperate"""
import io
import os

from lxml import etree

from .. import engine, fixtures, gen, model as M, refkdbx as R
from ..fw import Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 420, 8000
RULE = ('One evaluation decodes one file with both implementations: a file written by the independent encoder in a random layout (version, cipher, KDF, compression, '
        'inner cipher, block size, header field order, optional header fields, XML encoding and formatting, padding length) must open to the content stored, and a '
        'file the library saved must pass every hash, HMAC and structure check of the independent strict decoder and decode to the same content. Distinct by file '
        'bytes; non-trivial if the database has an entry.')
ASSUME = ['ARC4 inner streams, plug-in ciphers and Argon2 secret/associated data are outside the supported formats']
MUST_OBSERVE = ['files read', 'files written', 'block size 1', 'padding 16', 'multi-block written', 'fixtures', 'heavy files', 'values with characters XML cannot hold']
LETTERS = 'abcdefghijklmnopqrstuvwxyz0123456789'


def layout(rng, version=None):
    cfg = gen.config(rng, version)
    cfg['block'] = rng.choice([R.BLOCK, R.BLOCK, 1 << 16, 1000, 64, 16, 7, 1])
    cfg['zlevel'] = rng.choice([0, 1, 6, 9])
    if rng.random() < .05:
        cfg['inner'] = 'none'
    cfg['end_data'] = rng.choice([b'\r\n\r\n', b'', b'\0' * 9, b'\r\n\r\n'])
    if rng.random() < .4:
        cfg['field_order'] = rng
    extra = []
    if rng.random() < .3:
        extra.append((1, rng.randbytes(rng.choice([0, 5, 300]))))
    if cfg['version'][0] == 4:
        if rng.random() < .3:
            extra.append((12, R._wvardict([('k', 0x18, 'v\xe9'), ('b', 0x42, rng.randbytes(5)), ('i', 0x0C, -5), ('l', 0x0D, -6), ('t', 0x08, True)])))
        if rng.random() < .2:
            cfg['vardict_extra'] = rng.choice([[('zz', 0x18, 'text')], [('yy', 0x42, b''), ('xx', 0x08, False)], [('ww', 0x0D, -1)]])
    else:
        cfg['header_hash'] = rng.random() < .8
        cfg['block'] = max(cfg['block'], 7)
    cfg['header_extra'] = extra
    cfg['encoding'] = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'ascii', 'iso-8859-1'])
    cfg['decl'] = cfg['encoding'] != 'utf-8' or rng.random() < .8
    cfg['pretty'] = rng.random() < .3
    return cfg


def compare(ctx, what, want, kp, cfg):
    d = M.diff(want, M.from_tree(kp)) or M.diff(M.api_view(want), M.from_api(kp))
    if d:
        raise Violation('%s: %s' % (what, M.fmt(d[0])), {'config': {k: repr(v)[:80] for k, v in (cfg or {}).items()}})


def open_both(ctx, rng, data, pw, kf):
    import pykeepass
    src = io.BytesIO(data)
    if rng.random() < .5:
        src = os.path.join(ctx.scratch, 'in.kdbx')
        with open(src, 'wb') as f:
            f.write(data)
    elif rng.random() < .3:
        src = io.BytesIO(b'skip' + data)
        src.seek(4)
    try:
        return pykeepass.PyKeePass(src, password=pw, keyfile=io.BytesIO(kf) if kf is not None else None)
    except Exception as e:
        raise Violation('a valid file does not open: %r' % e, {'size': len(data)})


def written(ctx, rng, kp, want, pw, kf, cfg):
    """library writer -> strict independent reader"""
    b = io.BytesIO()
    kp.save(b)
    data = b.getvalue()
    ctx.count('files written')
    ctx.eval((data,), nontrivial=True)
    try:
        doc = R.decode(data, password=pw, keyfile=kf)
        got = M.from_doc(doc)
    except Exception as e:
        raise Violation('a saved file is not a valid KDBX file: %r' % e, {'config': {k: repr(v)[:80] for k, v in (cfg or {}).items()}})
    d = M.diff(want, got)
    if d:
        raise Violation('a saved file decodes to other content: %s' % M.fmt(d[0]))
    if len(doc.block_sizes) > 1:
        ctx.count('multi-block written')
    ctx.check(doc.version == kp.version, 'version of the saved file')
    return data, doc


def case(ctx):
    rng = ctx.rng
    if ctx.index < len(fixtures.LIST):
        f = fixtures.load(ctx.index)
        if f:
            name, data, pw, kf = f
            doc = R.decode(data, password=pw, keyfile=kf)
            want = M.from_doc(doc)
            kp = open_both(ctx, rng, data, pw, kf)
            ctx.eval((data,))
            ctx.count('fixtures')
            compare(ctx, 'fixture ' + name, want, kp, None)
            ctx.check(R.diff(R.canon(doc.root), R.canon(kp.tree.getroot())) is None, 'fixture %s: other XML content' % name)
            written(ctx, rng, kp, want, pw, kf, None)
            return
    if ctx.index % 35 == 20:
        return control(ctx, rng)
    if ctx.index % 70 == 60:
        return heavy(ctx, rng, ctx.index // 70 % 6)
    pw = rng.choice(['pw', gen.password(rng), None])
    kf = rng.choice([None, b'k', rng.randbytes(32)]) if pw is not None else rng.randbytes(rng.choice([0, 10, 32]))
    cfg = layout(rng)
    small = cfg['block'] < 1000
    big = not small and cfg['cipher'] != 'twofish' and rng.random() < .12
    o = gen.Opt(groups=rng.choice([0, 3]), entries=rng.choice([0, 3, 8]) if not small else 2, nbin=rng.choice([0, 2, 8]) if not small else 0, unknown=rng.random() < .3, alt_times=False,
                prot_meta_binaries=rng.random() < .5, shuffle_binaries=rng.random() < .5, hist=.4, big=big)
    root, bins = gen.database(rng, cfg['version'], o)
    ctx.count('block size %d' % cfg['block'])
    # padding boundaries: the payload grows byte by byte through a whole cipher block
    steps = 1
    if rng.random() < .25 and not big and cfg['block'] >= 16:
        steps = 17
        cfg['block'] = max(64, cfg['block'])
    notes = root.find('Root/Group/Notes')
    if notes is None:
        notes = gen.sub(root.find('Root/Group'), 'Notes')
    data = None
    for i in range(steps):
        if steps > 1:
            notes.text = 'n' * (i + 1)
            cfg['compressed'] = False
        data = R.encode(cfg, root, password=pw, keyfile=kf, binaries=bins)
        doc = R.decode(data, password=pw, keyfile=kf)
        want = M.from_doc(doc)
        kp = open_both(ctx, rng, data, pw, kf)
        ctx.count('files read')
        ctx.eval((data,))
        compare(ctx, 'a file of another writer', want, kp, cfg)
        r = R.diff(R.canon(doc.root), R.canon(kp.tree.getroot()))
        if r:
            raise Violation('a file of another writer opens to other XML content: %s' % r)
        out, odoc = written(ctx, rng, kp, want, pw, kf, cfg)
        if cfg['cipher'] != 'chacha20' and steps > 1:
            n = len(odoc.xml_raw) + (sum(5 + len(v) for _, v in odoc.inner_fields) if odoc.version[0] == 4 else 32 + 40 * (len(odoc.block_sizes) + 1))
            ctx.count('padding %d' % (16 - n % 16))
    ctx.sample({'case': ctx.index, 'config': {k: str(v)[:60] for k, v in cfg.items() if k not in ('master_seed', 'inner_key', 'start', 'iv')}})
    # edits, then a file again
    e = engine.Engine(ctx, rng, kp, want, cfg['version'], 'C02', pw=pw, keyfile=kf, scratch=ctx.scratch)
    ctx.trace = e.trace
    e.run(engine.mix(SET=4, TREE=2, HIST=1, BIN=2, TIME=1, TRASH=.3), rng.choice([0, 3, 8]))
    data, doc = written(ctx, rng, kp, e.m.snap(), pw, kf, cfg)
    kp2 = open_both(ctx, rng, data, pw, kf)
    compare(ctx, 'reading back', e.m.snap(), kp2, cfg)
    if rng.random() < .12 and cfg['cipher'] != 'twofish':
        boundary(ctx, rng, kp2, e.m.snap(), pw, kf, cfg)


STANDIN = '\ue123'


def control(ctx, rng):
    """protected values, being encrypted, can hold characters XML has no form for: those are dropped, nothing else is"""
    cfg = gen.config(rng, None)
    root, bins = gen.database(rng, cfg['version'], gen.Opt(groups=2, entries=5, hist=.3))
    n = 0
    for v in root.iter('Value'):
        if v.get('Protected') == 'True' and v.text and rng.random() < .6:
            i = rng.choice([0, len(v.text), rng.randrange(len(v.text) + 1)])
            v.text = v.text[:i] + STANDIN + v.text[i:]
            n += 1
    cfg['control'] = (STANDIN, rng.choice(['\x01', '\x00', '\x0b\x0c', '\x1f\x1e', '\ufffe', '\x08\uffff']))
    data = R.encode(cfg, root, password='pw', binaries=bins)
    del cfg['control']
    for v in root.iter('Value'):
        if v.text and STANDIN in v.text:
            v.text = v.text.replace(STANDIN, '') or None
    doc = R.decode(R.encode(cfg, root, password='pw', binaries=bins), password='pw')
    want = M.from_doc(doc)
    kp = open_both(ctx, rng, data, 'pw', None)
    ctx.count('files read')
    ctx.count('values with characters XML cannot hold', n)
    ctx.eval((data,))
    compare(ctx, 'a file with control characters in protected values', want, kp, cfg)
    written(ctx, rng, kp, want, 'pw', None, cfg)


def heavy(ctx, rng, kind):
    """sizes that other writers reach: large texts, large binaries, deep trees, many small elements"""
    version = [(4, 0), (3, 1)][kind % 2 if kind < 4 else rng.randrange(2)]
    cfg = gen.config(rng, version, cipher=rng.choice(['aes256', 'chacha20']), compressed=kind != 1)
    root, bins = gen.database(rng, version, gen.Opt(groups=1, entries=2, nbin=1))
    top = root.find('Root/Group')
    n = rng.choice([(1 << 24) + 5, 17_500_000])
    ctx.count('heavy: %d' % kind)
    if kind in (0, 1):
        gen.put(top, 'Notes').text = rng.choice(['z', 'n\xe9', '&']) * n
    elif kind == 2:
        bins.append((1, bytes(n) if rng.random() < .5 else rng.randbytes(1 << 20) * 17))
    elif kind == 3:
        g = top
        for i in range(rng.choice([270, 330])):
            g = gen.group(rng, False, g, gen.Opt())
            gen.entry(rng, False, g, gen.Opt(hist=0), 0)
    elif kind == 4:
        e = gen.entry(rng, version[0] == 4, top, gen.Opt(), 0)
        for i in range(4000):
            gen.string(e, 'p%d' % i, gen.text(rng), rng.random() < .7)
    else:
        for i in range(1500):
            gen.entry(rng, version[0] == 4, top, gen.Opt(hist=.1), 0)
    data = R.encode(cfg, root, password='pw', binaries=bins)
    want = M.from_doc(R.decode(data, password='pw'))
    kp = open_both(ctx, rng, data, 'pw', None)
    ctx.count('files read')
    ctx.count('heavy files')
    ctx.eval((data,))
    d = M.diff(want, M.from_tree(kp))
    if d:
        raise Violation('a large file of another writer: %s' % M.fmt(d[0]), {'kind': kind})
    written(ctx, rng, kp, want, 'pw', None, cfg)


def boundary(ctx, rng, kp, want, pw, kf, cfg):
    """payload sizes around the 1 MiB block boundary of the writer"""
    b = io.BytesIO()
    kp.save(b)
    doc = R.decode(b.getvalue(), password=pw, keyfile=kf)
    if doc.compressed:
        kp.database_description = ''.join(rng.choices(LETTERS, k=1500000))
        want['meta']['description'] = kp.database_description
        written(ctx, rng, kp, want, pw, kf, cfg)
        return
    kp.database_description = 'x'
    b = io.BytesIO()
    kp.save(b)
    doc = R.decode(b.getvalue(), password=pw, keyfile=kf)
    inner = sum(5 + len(v) for _, v in doc.inner_fields) if doc.version[0] == 4 else 0
    base = inner + len(doc.xml_raw) - 1
    for mult in (1, 2):
        for delta in (-17, -16, -1, 0, 1):
            n = mult * R.BLOCK + delta - base
            if n <= 0:
                continue
            kp.database_description = 'y' * n
            want['meta']['description'] = kp.database_description
            data, doc = written(ctx, rng, kp, want, pw, kf, cfg)
            ctx.count('sizes around block boundaries')
            kp3 = open_both(ctx, rng, data, pw, kf)
            ctx.check(kp3.database_description == kp.database_description, 'content at a block boundary differs')
