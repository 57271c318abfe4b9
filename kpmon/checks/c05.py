"""C05: altered files are never silently accepted"""
import hashlib
import io
import struct

from .. import gen, model as M, refkdbx as R
from ..fw import Violation, limited

LEVEL = 'exploration'
QUICK, THOROUGH = 160, 2400
RULE = ('One evaluation opens one altered copy of a database file (written by the library or by the independent encoder with small blocks) with the right credentials. '
        'Oracle: an exception, or exactly the stored XML content and binaries; for alterations of a header value, the header checksum, block data or a block HMAC '
        'the specific exception, and for absurd key-derivation costs under a stale checksum a prompt one. Distinct by altered bytes; non-trivial if the bytes differ.')
ASSUME = ['KDBX3 hashes are not keyed and KDBX3 files without a stored header hash leave the header unprotected: forged hashes and such files are outside the property',
          'foreign blocks come from a file with other seeds']
MUST_OBSERVE = ['kind:flip', 'kind:truncate', 'kind:remove block', 'kind:duplicate block', 'kind:swap blocks', 'kind:foreign block', 'kind:header value', 'kind:header value rehashed', 'kind:stored checksum',
                'kind:block hmac', 'kind:block data', 'kind:costs', 'refused: HeaderChecksumError', 'refused: PayloadChecksumError', 'same content', 'versions 3', 'versions 4', 'kind:version',
                'kind:v3 block data', 'kind:large block data', 'kind:swap distant blocks']


def rounds_ok(data):
    """would a lenient reader of this header run an expensive KDBX3 derivation?"""
    try:
        if struct.unpack_from('<H', data, 10)[0] != 3:
            return True
        i = 12
        worst = 0
        while i < len(data):
            fid, n = struct.unpack_from('<BH', data, i)
            v = data[i + 3:i + 3 + n]
            i += 3 + n
            if fid == 6:
                worst = max(worst, int.from_bytes(v[:8], 'little'))
            if fid == 0:
                break
        return worst < 20000
    except struct.error:
        return True


class File:
    """a database file with its layout"""

    def __init__(self, ctx, rng, src, same=None):
        import pykeepass
        self.P = pykeepass
        self.pw, self.kf = 'pw', rng.choice([None, b'key'])
        cfg = gen.config(rng)
        if src == 'v3stream':
            cfg = gen.config(rng, (3, 1), cipher='chacha20')
        if src == 'v3block':
            cfg = gen.config(rng, (3, 1), cipher=rng.choice(['aes256', 'twofish']))
        if src in ('v4', 'v4library'):
            cfg = gen.config(rng, rng.choice([(4, 0), (4, 1)]))
        cfg['block'] = rng.choice([100, 300, 300, 700, R.BLOCK])
        if rng.random() < .4:
            cfg['header_extra'] = [(1, b'a comment')] + ([(12, R._wvardict([('k', 0x18, 'v')]))] if cfg['version'][0] == 4 else [])
        o = gen.Opt(groups=1, entries=2, nbin=2, hist=.2)
        self.data, self.cfg, root, bins = gen.build(rng, o, cfg=cfg, pw=self.pw, keyfile=self.kf)
        if src == 'text':
            # blocks that could be exchanged without breaking the XML
            # (sometimes more of them than a byte can number)
            many = rng.random() < .5 and cfg['cipher'] != 'twofish'
            cfg.update(block=16 if many else 100, compressed=False)
            gen.put(root.find('Meta'), 'DatabaseDescription').text = ''.join(rng.choices('abcdefghijklmnopqrstuvwxyz', k=6000 if many else 2000))
            self.data = R.encode(cfg, root, password=self.pw, keyfile=self.kf, binaries=bins)
        if src == 'bigblock':
            # other programs write larger blocks than the library
            cfg.update(block=4 << 20, cipher=rng.choice(['aes256', 'chacha20']))
            if cfg['cipher'] == 'chacha20':
                cfg['iv'] = cfg['iv'][:12]
            elif len(cfg['iv']) != 16:
                cfg['iv'] = rng.randbytes(16)
            gen.put(root.find('Meta'), 'DatabaseDescription').text = ''.join(rng.choices('abcdefghijklmnopqrstuvwxyz', k=rng.choice([1100000, 2300000])))
            cfg['compressed'] = False
            self.data = R.encode(cfg, root, password=self.pw, keyfile=self.kf, binaries=bins)
        if src.endswith('library'):
            kp = self.open(self.data)
            kp.database_name = 'saved by the library'
            b = io.BytesIO()
            kp.save(b)
            self.data = b.getvalue()
        self.doc = R.decode(self.data, password=self.pw, keyfile=self.kf)
        self.canon = R.canon(self.doc.root)
        self.bins = R.decoded_binaries(self.doc)
        self.v = self.doc.version[0]
        self.h = len(self.doc.header_bytes)
        # blocks
        self.blocks = []
        if self.v == 4:
            j = self.h + 64
            for n in self.doc.block_sizes + [0]:
                self.blocks.append((j, j + 36, j + 36 + n))
                j += 36 + n
        else:
            j = 32
            for n in self.doc.block_sizes + [0]:
                self.blocks.append((j, j + 40, j + 40 + n))     # plaintext offsets
                j += 40 + n
        # header value ranges: [(field, start, end)]
        self.values = []
        i = 12
        ls = 2 if self.v == 3 else 4
        for fid, v in self.doc.header_fields:
            self.values.append((fid, i + 1 + ls, i + 1 + ls + len(v)))
            i += 1 + ls + len(v)
        self.kdfvals = {}
        if self.v == 4:
            s = [x for x in self.values if x[0] == 11][0][1]
            for k, t, v in R._vardict(dict(self.doc.header_fields)[11]):
                pat = bytes([t]) + struct.pack('<I', len(k)) + k.encode()
                a = self.data.index(pat, s) + len(pat) + 4
                n = struct.unpack_from('<I', self.data, a - 4)[0]
                self.kdfvals[k] = (a, a + n)

    def open(self, data, tk=False):
        if tk:
            return self.P.PyKeePass(io.BytesIO(data), transformed_key=self.doc.transformed)
        return self.P.PyKeePass(io.BytesIO(data), password=self.pw, keyfile=io.BytesIO(self.kf) if self.kf is not None else None)


def judge(ctx, f, kind, data, want=None, tk=False):
    """want: name of the exception that must be raised"""
    if data == f.data:
        return
    ctx.count('kind:' + kind)
    ctx.eval(hashlib.sha1(data).digest())
    what = '%s (%s, version %s, %s)' % (kind, 'exception %s expected' % want if want else 'exception or same content expected', f.doc.version, f.doc.cipher)
    info = {'alteration': what, 'size': len(f.data), 'first difference': next((i for i, (a, b) in enumerate(zip(data, f.data)) if a != b), min(len(data), len(f.data)))}

    def attempt():
        try:
            kp = f.open(data, tk)
            return None, (R.canon(kp.tree.getroot()), kp.binaries)
        except Exception as e:
            return type(e).__name__, repr(e)[:300]
    # under another header the key derivation could run for ever, in native code and with any amount of memory
    if f.v == 4 and not tk and data[:f.h] != f.data[:f.h]:
        r = limited(attempt, 30)
        if r is None:
            raise Violation('%s: the key derivation of the altered header runs' % what, info)
    else:
        r = attempt()
    name, val = r
    if name is not None:
        ctx.count('refused: ' + (name if name.endswith('ChecksumError') or name == 'CredentialsError' else 'other'))
        if want and name != want:
            raise Violation('%s: raises %s' % (what, val), info)
        return
    tree, bins = val
    if want:
        raise Violation('%s: the file opens' % what, info)
    r = R.diff(f.canon, tree)
    if r or bins != [f.bins[i] for i in range(len(f.bins))]:
        raise Violation('%s: altered content is returned: %s' % (what, r or 'binaries'), info)
    ctx.count('same content')


def flip(rng, data, i, bit=None):
    b = bytearray(data)
    b[i] ^= 1 << (rng.randrange(8) if bit is None else bit)
    return bytes(b)


def rehash(f, data):
    return data[:f.h] + hashlib.sha256(data[:f.h]).digest() + data[f.h + 32:]


def big(ctx, rng):
    f = File(ctx, rng, 'bigblock')
    ctx.check(R.diff(f.canon, R.canon(f.open(f.data).tree.getroot())) is None, 'the unaltered file opens to other content')
    off = 0 if f.v == 4 else f.h
    s, d, e = f.blocks[0]
    for i in [d + (1 << 20) - 1, d + (1 << 20), d + (1 << 20) + 1] + [rng.randrange(d, e - 64) for _ in range(6)] + [e - 64]:
        # KDBX3 hashes the plain text, which only a stream cipher lets a flip reach bit by bit
        judge(ctx, f, 'large block data', flip(rng, f.data, off + i), want='PayloadChecksumError' if f.v == 4 or f.doc.cipher == 'chacha20' else None)
    for c in [d + (1 << 20), e - 1, rng.randrange(d, e)]:
        judge(ctx, f, 'large block truncated', f.data[:off + c])


def case(ctx):
    rng = ctx.rng
    if ctx.index % 20 == 7:
        return big(ctx, rng)
    f = File(ctx, rng, rng.choice(['library', 'small', 'text', 'v4', 'v4', 'v4library', 'v3stream', 'v3block']))
    ctx.count('versions %d' % f.v)
    n = len(f.data)
    kp = f.open(f.data)
    ctx.check(R.diff(f.canon, R.canon(kp.tree.getroot())) is None, 'the unaltered file opens to other content')
    tkp = rng.random() < .3
    per = 3 if ctx.thorough else 1
    # flips anywhere
    pos = list(range(n))
    pos = pos if ctx.thorough and f.doc.cipher != 'twofish' and rng.random() < .3 else rng.sample(pos, min(n, 120 * per)) + list(range(12)) + list(range(f.h - 4, min(f.h + 8, n))) + list(range(n - 40, n))
    for i in pos:
        d = flip(rng, f.data, i)
        if rounds_ok(d):
            judge(ctx, f, 'flip', d, tk=tkp)
    for _ in range(10 * per):
        a = rng.randrange(n)
        b = min(n, a + rng.choice([1, 2, 4, 16, 32, 100]))
        d = f.data[:a] + rng.choice([bytes(b - a), rng.randbytes(b - a), b'\xff' * (b - a)]) + f.data[b:]
        if rounds_ok(d):
            judge(ctx, f, 'overwrite', d, tk=tkp)
        d = f.data[:a] + f.data[b:]
        if rounds_ok(d):
            judge(ctx, f, 'delete bytes', d, tk=tkp)
        d = f.data[:a] + rng.randbytes(b - a) + f.data[a:]
        if rounds_ok(d):
            judge(ctx, f, 'insert bytes', d, tk=tkp)
    # truncation
    cuts = rng.sample(range(n), min(n, 25 * per)) + list(range(n - 20, n)) + [0, 4, 8, 12, f.h, f.h + 31, f.h + 32, f.h + 64]
    if f.v == 4:
        cuts += [x for b in (f.blocks if len(f.blocks) < 60 else rng.sample(f.blocks, 20)) for x in b]
    for c in cuts:
        judge(ctx, f, 'truncate', f.data[:c], tk=tkp)
    for _ in range(4):
        judge(ctx, f, 'append', f.data + rng.choice([b'\0', rng.randbytes(16), rng.randbytes(100), f.data, f.data[-36:], bytes(36)]), tk=tkp)
    # versions
    for major in (0, 1, 2, 3, 4, 5, 12, 4 + 256):
        judge(ctx, f, 'version', f.data[:10] + struct.pack('<H', major) + f.data[12:])
    g = File(ctx, rng, 'v4' if f.v == 4 else 'v3stream')
    if f.v == 4:
        v4(ctx, rng, f, g)
    else:
        v3(ctx, rng, f, g)
    # fields: removed, duplicated, reordered, taken from another file (stale and recomputed checksum)
    fields(ctx, rng, f, g)
    ctx.sample({'case': ctx.index, 'file': '%d bytes, version %s, %s, %d blocks' % (n, f.doc.version, f.doc.cipher, len(f.blocks))})


def build_header(f, fs):
    out = f.data[:12]
    for fid, v in fs:
        out += bytes([fid]) + struct.pack('<H' if f.v == 3 else '<I', len(v)) + v
    return out


def fields(ctx, rng, f, g):
    fs = f.doc.header_fields
    gs = dict(g.doc.header_fields)
    for _ in range(12):
        x = list(fs)
        i = rng.randrange(len(x) - 1)
        r = rng.randrange(4)
        if r == 0:
            del x[i]
        elif r == 1:
            x.insert(rng.randrange(len(x)), x[i])
        elif r == 2:
            j = rng.randrange(len(x) - 1)
            x[i], x[j] = x[j], x[i]
        elif g.v == f.v and x[i][0] in gs:
            x[i] = (x[i][0], gs[x[i][0]])
        h = build_header(f, x)
        d = h + f.data[f.h:]
        if not rounds_ok(d):
            continue
        judge(ctx, f, 'header fields', d)
        if f.v == 4:
            judge(ctx, f, 'header fields rehashed', h + hashlib.sha256(h).digest() + f.data[f.h + 32:])


def v4(ctx, rng, f, g):
    D = f.data
    # values in the header
    ranges = [(a, b) for fid, a, b in f.values if fid in (4, 7, 1) and b > a]
    ranges += [f.kdfvals[k] for k in f.kdfvals if k != '$UUID' and f.kdfvals[k][1] > f.kdfvals[k][0]]
    for a, b in ranges:
        for _ in range(3):
            i = rng.randrange(a, b)
            judge(ctx, f, 'header value', flip(rng, D, i), want='HeaderChecksumError')
    low = [(a, b) for fid, a, b in f.values if fid in (4, 7, 1) and b > a] + [f.kdfvals['S']]
    for a, b in low:
        judge(ctx, f, 'header value rehashed', rehash(f, flip(rng, D, rng.randrange(a, b))))
    for k in ('I', 'M', 'R', 'P'):
        if k in f.kdfvals:
            judge(ctx, f, 'header value rehashed', rehash(f, flip(rng, D, f.kdfvals[k][0], rng.randrange(2))))
    c = [x for x in f.values if x[0] == 3][0][1]
    judge(ctx, f, 'header value', flip(rng, D, c, 0), want='HeaderChecksumError')
    judge(ctx, f, 'header value rehashed', rehash(f, flip(rng, D, c, 0)))
    judge(ctx, f, 'header value', flip(rng, D, 8, rng.randrange(8)), want='HeaderChecksumError')
    cid = [x for x in f.values if x[0] == 2][0]
    for other in R.CIPHERS.values():
        if other != D[cid[1]:cid[2]]:
            d = D[:cid[1]] + other + D[cid[2]:]
            judge(ctx, f, 'header value', d, want='HeaderChecksumError')
            judge(ctx, f, 'header value rehashed', rehash(f, d))
    for i in rng.sample(range(32), 6):
        judge(ctx, f, 'stored checksum', flip(rng, D, f.h + i), want='HeaderChecksumError')
        judge(ctx, f, 'header hmac', flip(rng, D, f.h + 32 + i))
    judge(ctx, f, 'stored checksum', D[:f.h] + bytes(32) + D[f.h + 32:], want='HeaderChecksumError')
    # absurd costs under a stale checksum
    for k, v in (('R', 2 ** 44), ('I', 2 ** 31), ('M', 2 ** 34)):
        if k in f.kdfvals:
            a, b = f.kdfvals[k]
            judge(ctx, f, 'costs', D[:a] + struct.pack('<Q', v) + D[b:], want='HeaderChecksumError')
    # blocks
    for s, d, e in f.blocks if len(f.blocks) < 60 else f.blocks[:5] + rng.sample(f.blocks[5:-5], 20) + f.blocks[-5:]:
        for _ in range(2):
            judge(ctx, f, 'block hmac', flip(rng, D, rng.randrange(s, s + 32)), want='PayloadChecksumError')
        if e > d:
            for _ in range(3):
                judge(ctx, f, 'block data', flip(rng, D, rng.randrange(d, e)), want='PayloadChecksumError')
            judge(ctx, f, 'block data', flip(rng, D, d), want='PayloadChecksumError')
            judge(ctx, f, 'block data', flip(rng, D, e - 1), want='PayloadChecksumError')
        judge(ctx, f, 'block length', flip(rng, D, rng.randrange(s + 32, s + 36)))
    parts = [D[s:e] for s, d, e in f.blocks]
    head = D[:f.h + 64]
    arrange(ctx, rng, f, head, parts, [g.data[s:e] for s, d, e in g.blocks] if g.v == 4 else [parts[0]])
    # the same bytes cut into other blocks, with copied HMACs
    if len(f.blocks) > 2:
        a, b = f.blocks[0], f.blocks[1]
        body = D[a[1]:a[2]] + D[b[1]:b[2]]
        for mac in (D[a[0]:a[0] + 32], D[b[0]:b[0] + 32]):
            judge(ctx, f, 'merged blocks', head + mac + struct.pack('<I', len(body)) + body + b''.join(parts[2:]))
    # header and body of two files
    if g.v == 4:
        judge(ctx, f, 'foreign body', D[:f.h + 64] + g.data[g.h + 64:])
        judge(ctx, f, 'foreign header', g.data[:g.h + 64] + D[f.h + 64:])
        judge(ctx, f, 'foreign header', g.data[:g.h] + D[f.h:])


def arrange(ctx, rng, f, head, parts, foreign):
    """block level alterations; parts include the final empty block"""
    m = len(parts)
    # block numbers are wider than a byte
    for i in rng.sample(range(m - 257), min(6, m - 257)) if m > 257 else []:
        k = list(parts)
        k[i], k[i + 256] = k[i + 256], k[i]
        judge(ctx, f, 'swap distant blocks', f.wrap(head, k) if hasattr(f, 'wrap') else head + b''.join(k))
    for _ in range(4):
        i, j = rng.randrange(m), rng.randrange(m)
        judge(ctx, f, 'remove block', f.wrap(head, parts[:i] + parts[i + 1:]) if hasattr(f, 'wrap') else head + b''.join(parts[:i] + parts[i + 1:]))
        k = parts[:i] + [parts[i]] + parts[i:]
        judge(ctx, f, 'duplicate block', f.wrap(head, k) if hasattr(f, 'wrap') else head + b''.join(k))
        k = list(parts)
        k[i], k[j] = k[j], k[i]
        judge(ctx, f, 'swap blocks', f.wrap(head, k) if hasattr(f, 'wrap') else head + b''.join(k))
        k = list(parts)
        k[i] = rng.choice(foreign)
        judge(ctx, f, 'foreign block', f.wrap(head, k) if hasattr(f, 'wrap') else head + b''.join(k))
        k = parts[:i] + [parts[-1]]
        judge(ctx, f, 'truncate at block', f.wrap(head, k) if hasattr(f, 'wrap') else head + b''.join(k))


def v3(ctx, rng, f, g):
    D, h = f.data, f.h
    stream = f.doc.cipher == 'chacha20'
    for s, d, e in f.blocks if len(f.blocks) < 60 else f.blocks[:5] + rng.sample(f.blocks[5:-5], 20) + f.blocks[-5:]:
        if stream:
            # the stream cipher lets a flip reach one plaintext bit
            if e > d:
                for _ in range(4):
                    judge(ctx, f, 'v3 block data', flip(rng, D, h + rng.randrange(d, e)), want='PayloadChecksumError')
                for _ in range(2):
                    judge(ctx, f, 'v3 block hash', flip(rng, D, h + rng.randrange(s + 4, s + 36)), want='PayloadChecksumError')
            judge(ctx, f, 'v3 block index', flip(rng, D, h + rng.randrange(s, s + 4)))
            judge(ctx, f, 'v3 block length', flip(rng, D, h + rng.randrange(s + 36, s + 40)))
        else:
            lo, hi = -(-d // 16), e // 16 - 1       # cipher blocks whose garbling stays inside the data
            for _ in range(4):
                if lo < hi:
                    judge(ctx, f, 'v3 block data', flip(rng, D, h + 16 * rng.randrange(lo, hi) + rng.randrange(16)), want='PayloadChecksumError')
    for i in rng.sample(range(32), 4):
        judge(ctx, f, 'v3 start bytes', flip(rng, D, h + i))
    for fid, a, b in f.values:
        if fid in (4, 5, 7, 8, 9, 1, 10, 3) and b > a:
            for _ in range(3):
                judge(ctx, f, 'header value', flip(rng, D, rng.randrange(a, b)), want=None)
    # a header that disagrees with the stored hash must be refused even when the payload decodes
    for fid, a, b in f.values:
        if fid in (1, 8, 0) and b > a:
            for _ in range(3):
                must_refuse(ctx, f, 'v3 header hash', flip(rng, D, rng.randrange(a, b)))
    must_refuse(ctx, f, 'v3 header hash', flip(rng, D, 8, rng.randrange(8)))
    # block level (the payload is encrypted as a whole): ciphertext ranges exchanged
    n = len(D) - h
    for _ in range(4):
        a, b = sorted(rng.sample(range(n // 16), 2)) if n >= 48 else (0, 1)
        c = D[h:]
        A, B = c[16 * a:16 * a + 16], c[16 * b:16 * b + 16]
        judge(ctx, f, 'swap blocks', D[:h] + c[:16 * a] + B + c[16 * a + 16:16 * b] + A + c[16 * b + 16:])
        judge(ctx, f, 'remove block', D[:h] + c[:16 * a] + c[16 * a + 16:])
        judge(ctx, f, 'duplicate block', D[:h] + c[:16 * a] + A + c[16 * a:])
        fb = g.data[g.h:][:16]
        judge(ctx, f, 'foreign block', D[:h] + c[:16 * a] + fb + c[16 * a + 16:])
    # hashed blocks rearranged by someone who knows the key: index and structure checks
    pt = R_plain(f)
    parts = [pt[s:e] for s, d, e in f.blocks]
    f.wrap = lambda head, ps: D[:h] + R.outer_encrypt(f.doc.cipher, hashlib.sha256(f.doc.master_seed + f.doc.transformed).digest(), f.doc.iv, head + b''.join(ps))
    m = len(parts)
    for i in rng.sample(range(m - 257), min(6, m - 257)) if m > 257 else []:
        k = list(parts)
        k[i], k[i + 256] = k[i + 256], k[i]
        judge(ctx, f, 'swap distant blocks', f.wrap(pt[:32], k))
    for _ in range(3 if m < 20 else 12):
        i, j = rng.randrange(m), rng.randrange(m)
        judge(ctx, f, 'v3 hashed blocks', f.wrap(pt[:32], parts[:i] + parts[i + 1:]))
        judge(ctx, f, 'v3 hashed blocks', f.wrap(pt[:32], parts[:i] + [parts[i]] + parts[i:]))
        k = list(parts)
        k[i], k[j] = k[j], k[i]
        judge(ctx, f, 'v3 hashed blocks', f.wrap(pt[:32], k))
        ctx.count('kind:v3 exchanged blocks')


def R_plain(f):
    return R.outer_decrypt(f.doc.cipher, hashlib.sha256(f.doc.master_seed + f.doc.transformed).digest(), f.doc.iv, f.data[f.h:])


def must_refuse(ctx, f, kind, data):
    ctx.count('kind:' + kind)
    ctx.eval(hashlib.sha1(data).digest())
    try:
        kp = f.open(data)
        kp.tree
    except Exception:
        ctx.count('refused: other')
        return
    raise Violation('%s: a KDBX3 file whose header disagrees with its stored hash opens' % kind, {'version': f.doc.version})
