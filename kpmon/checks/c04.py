"""C04: key files are interpreted by the KeePass rules for any content"""
import base64
import hashlib
import io
import os
import pathlib

from .. import gen, model as M, refkdbx as R
from ..fw import Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 1200, 5000
RULE = ('One evaluation opens a database keyed by the independent implementation (or decodes one keyed by the library) for one key file content and one way of passing '
        'it; contents are random bytes of every length around 32 and 64, hexadecimal and almost hexadecimal texts, XML key files of both versions in many formattings, '
        'malformed XML and version 2.0 files with a wrong hash. Distinct by (content, way); non-trivial unless the content is plain random bytes of another length.')
ASSUME = ['key file streams are seekable', 'an XML key file has root KeyFile and well-formed key data']
MUST_OBSERVE = ['kind: raw', 'kind: hex', 'kind: nearhex', 'kind: xml1', 'kind: xml2', 'kind: badhash', 'kind: xmlish', 'way: path', 'way: Path', 'way: stream', 'way: file', 'keyed by the library']
HEX = '0123456789abcdefABCDEF'


def content(rng):
    r = rng.random()
    if r < .18:
        n = rng.choice([0, 1, 16, 31, 32, 33, 63, 64, 65, 66, 96, 128, rng.randint(0, 200), 5000])
        return 'raw', rng.choice([rng.randbytes(n), bytes([rng.randint(0, 255)]) * n])
    if r < .32:
        s = ''.join(rng.choice(rng.choice([HEX, '0123456789abcdef', '0123456789ABCDEF', '0123456789'])) for _ in range(64))
        return 'hex', s.encode()
    if r < .5:
        n = rng.choice([64, 64, 64, 64, 32, 62, 63, 65, 66, 128])
        s = list(''.join(rng.choice(HEX) for _ in range(n)))
        k = rng.choice([0, 1, 1, 2])
        for _ in range(k):
            s[rng.randrange(n)] = rng.choice(['g', 'G', '_', ' ', '\n', '\t', '+', '-', 'x', '.', ':', '\0', '/', '@', '`', '\x7f'])
        b = ''.join(s).encode()
        if rng.random() < .2:
            b = b[:n - 2] + '\xe9'.encode()
        if rng.random() < .2:
            b = b[:63] + b'\n'
        if rng.random() < .1:
            b = b'0x' + b[:62]
        return ('hex' if len(b) == 64 and k == 0 and all(chr(c) in HEX for c in b) else 'nearhex'), b
    if r < .68:
        raw = rng.randbytes(32)
        t = base64.b64encode(raw).decode()
        if rng.random() < .3:
            t = '\n\t ' + t + '\n'
        if rng.random() < .2:
            t = t[:20] + '\n' + t[20:]
        return 'xml1', xml(rng, rng.choice(['1.0', '1.00', '1.0']), '<Data>%s</Data>' % t)
    if r < .9:
        raw = rng.randbytes(32)
        h = raw.hex()
        h = rng.choice([h, h.upper()])
        if rng.random() < .7:
            sep = rng.choice([' ', '\n', '\n\t\t\t', '  '])
            h = sep.join(h[i:i + 8] for i in range(0, 64, 8))
        if rng.random() < .5:
            h = '\n\t\t\t' + h + '\n\t\t'
        hs = hashlib.sha256(raw).digest()[:4]
        bad = rng.random() < .3
        if bad:
            hs = rng.choice([bytes([hs[0] ^ 1]) + hs[1:], hs[:3] + bytes([hs[3] ^ 128]), hs[::-1] if hs != hs[::-1] else b'\0' * 4, hs[:3], hs + b'\0', b'', hashlib.sha256(raw).digest()[:5]])
        a = hs.hex()
        return ('badhash' if bad else 'xml2'), xml(rng, rng.choice(['2.0', '2.00']), '<Data Hash="%s">%s</Data>' % (rng.choice([a, a.upper()]), h))
    t = base64.b64encode(rng.randbytes(32)).decode()
    return 'xmlish', rng.choice([
        b'<KeyFile></KeyFile>', b'<KeyFile/>', b'<a>b</a>', b'<?xml version="1.0"?>', b'<KeyFile><Meta><Version>1.0</Version></Meta>',
        xml(rng, '3.0', '<Data>%s</Data>' % t), xml(rng, '', '<Data>%s</Data>' % t), b'<KeyFile>' + b'x' * 13 + b'</KeyFile>', b'<KeyFile>' + b'x' * 45 + b'</KeyFile>',
        b'<KeyFile><Key><Data>' + t.encode() + b'</Data></Key></KeyFile>', b'<html>&nbsp;</html>', xml(rng, '1.0', '<Data>%s</Data>' % t)[:-3],
        xml(rng, '1.0', '<Data>%s</Data>' % t)[1:], b'\xef\xbb\xbf', b'\xff\xfe<\x00', b'<KeyFile>\xff</KeyFile>'])


def xml(rng, ver, data):
    decl = rng.choice(['<?xml version="1.0" encoding="utf-8"?>\n', '<?xml version="1.0" encoding="UTF-8"?>', ''])
    ws = rng.choice(['', '\n', '\n\t'])
    order = ['<Meta>%s<Version>%s</Version>%s</Meta>' % (ws, ver, ws), '<Key>%s%s%s</Key>' % (ws, data, ws)]
    if rng.random() < .1:
        order.reverse()
    if rng.random() < .15:
        # data that is not the key
        order.insert(rng.randint(0, 2), rng.choice(['<Backup><Data Hash="00">%s</Data><Version>2.0</Version></Backup>' % ('ab' * 32), '<Data>AAAA</Data>', '<Version>%s</Version>' % rng.choice(['1.0', '2.0']),
                                                    '<!-- <Key><Data>AAAA</Data></Key> -->']))
    s = decl + '<KeyFile>' + ws + ws.join(order) + ws + '</KeyFile>' + rng.choice(['', '\n', '\n<!-- c -->'])
    if rng.random() < .15 and decl:
        s = '\ufeff' + s
    b = s.encode()
    if rng.random() < .1:
        b = b.replace(b'\n', b'\r\n')
    if rng.random() < .08 and not decl:
        b = ('<?xml version="1.0" encoding="utf-16"?>' + s.lstrip('\ufeff')).encode('utf-16')
    return b


def ways(rng, ctx, b):
    p = os.path.join(ctx.scratch, rng.choice(['key.key', 'k \xe9.keyx', 'key']))
    with open(p, 'wb') as f:
        f.write(b)
    s = io.BytesIO(b)
    s.seek(rng.choice([0, len(b), rng.randint(0, len(b)), len(b) + 5]))
    fo = open(p, 'rb')
    fo.seek(rng.choice([0, len(b) // 2, len(b)]))
    return [('path', p), ('Path', pathlib.Path(p)), ('stream', s), ('file', fo)]


def case(ctx):
    import pykeepass as P
    rng = ctx.rng
    version = rng.choice([(4, 0), (3, 1)])
    root, bins = gen.database(rng, version, gen.Opt(groups=0, entries=1, nbin=0))
    cfg = gen.config(rng, version, cipher=rng.choice(['aes256', 'chacha20']))
    cfg['kdf'] = {'name': 'aeskdf', 'S': rng.randbytes(32), 'R': 2}
    other = R.encode(cfg, root, password='base', binaries=bins)
    for _ in range(6):
        kind, b = content(rng)
        pw = rng.choice([None, None, 'pw', ''])
        ctx.count('kind: ' + kind)
        try:
            key = R.keyfile_key(b)
        except R.RefError:
            key = None
        if kind == 'badhash':
            key = None
        for way, arg in ways(rng, ctx, b):
            ctx.count('way: ' + way)
            ctx.eval((b, way, pw), nontrivial=kind != 'raw' or len(b) in (31, 32, 33, 63, 64, 65))
            info = {'content': repr(b)[:400], 'kind': kind, 'way': way, 'password': pw}
            if key is None:
                # refused, for reading and for writing
                raw = R.transform(hashlib.sha256((hashlib.sha256(pw.encode()).digest() if pw is not None else b'') + naive(b)).digest(), cfg['kdf'])
                data = R.encode(cfg, root, transformed=raw, binaries=bins)
                try:
                    P.PyKeePass(io.BytesIO(data), password=pw, keyfile=arg)
                except Exception:
                    pass
                else:
                    raise Violation('a version 2.0 key file with a wrong hash is accepted', info)
                kp = P.PyKeePass(io.BytesIO(other), password='base')
                kp.password, kp.keyfile = pw, arg
                out = io.BytesIO()
                try:
                    kp.save(out)
                except Exception:
                    ctx.count('refused')
                else:
                    raise Violation('a version 2.0 key file with a wrong hash keys a database', info)
                continue
            data = R.encode(cfg, root, password=pw, keyfile=b, binaries=bins)
            try:
                P.PyKeePass(io.BytesIO(data), password=pw, keyfile=arg)
            except Exception as ex:
                raise Violation('a key file of kind %s (%d bytes, as %s) does not open the database: %r' % (kind, len(b), way, ex), info)
            # keying by the library: assigned, or kept from opening
            if rng.random() < .5:
                kp = P.PyKeePass(io.BytesIO(other), password='base')
                kp.password, kp.keyfile = pw, arg
            else:
                kp = P.PyKeePass(io.BytesIO(data), password=pw, keyfile=arg)
            out = io.BytesIO()
            kp.save(out)
            ctx.count('keyed by the library')
            try:
                R.decode(out.getvalue(), password=pw, keyfile=b)
            except R.RefError as ex:
                raise Violation('a database saved with a key file of kind %s (%d bytes, as %s) is not keyed by the KeePass rules: %s' % (kind, len(b), way, ex), info)
            if way == 'file':
                arg.close()
        ctx.sample({'case': ctx.index, 'kind': kind, 'content': repr(b)[:200]})


def naive(b):
    """the key data of a version 2.0 key file, whatever its hash"""
    from lxml import etree
    return bytes.fromhex(''.join(etree.fromstring(b).find('Key/Data').text.split()))
