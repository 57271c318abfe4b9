"""Independent KDBX 3.x / 4.x codec, written from the format description; imports nothing from pykeepass.

decode(data, ...) -> Doc   strict reader: verifies every hash / HMAC / block index and raises RefError otherwise.
encode(cfg, ...)  -> bytes writer in any supported configuration.
"""
import base64
import gzip
import hashlib
import hmac
import io
import os
import re
import struct
import xml.dom.minidom  # noqa: F401  (kept: pure-Python XML is available as a cross check)
import zlib

import argon2
from Cryptodome.Cipher import AES, ChaCha20, Salsa20
from lxml import etree

from . import ref_twofish

SIG = bytes.fromhex('03d9a29a67fb4bb5')
CIPHERS = {'aes256': bytes.fromhex('31c1f2e6bf714350be5805216afc5aff'),
           'twofish': bytes.fromhex('ad68f29f576f4bb9a36ad47af965346c'),
           'chacha20': bytes.fromhex('d6038a2b8b6f4cb5a524339a31dbb59a')}
KDFS = {'argon2': bytes.fromhex('ef636ddf8c29444b91f7a9a403e30a0c'),
        'argon2id': bytes.fromhex('9e298b1956db4773b23dfc3ec6f0a1e6'),
        'aeskdf': bytes.fromhex('c9d9f39a628a4460bf740d08c18a4fea')}
STREAMS = {'none': 0, 'salsa20': 2, 'chacha20': 3}
BLOCK = 1 << 20


class RefError(Exception):
    pass


# ------------------------------------------------------------------ keys
def keyfile_key(content):
    """KeePass rules for a key file content -> 32-byte-ish key component"""
    try:
        root = etree.fromstring(content, etree.XMLParser(resolve_entities=False, no_network=True))
    except (etree.XMLSyntaxError, ValueError):
        root = None
    if root is not None and root.tag == 'KeyFile':
        ver = root.findtext('Meta/Version')
        data = root.find('Key/Data')
        if ver and data is not None and ver.startswith('1.0'):
            return base64.b64decode(data.text)
        if ver and data is not None and ver.startswith('2.0'):
            raw = bytes.fromhex(''.join(data.text.split()))
            if hashlib.sha256(raw).digest()[:4] != bytes.fromhex(data.get('Hash')):
                raise RefError('key file hash')
            return raw
    if len(content) == 32:
        return content
    if len(content) == 64 and re.fullmatch(rb'[0-9a-fA-F]{64}', content):
        return bytes.fromhex(content.decode())
    return hashlib.sha256(content).digest()


def composite(password=None, keyfile=None):
    h = b''
    if password is not None:
        h += hashlib.sha256(password.encode('utf-8')).digest()
    if keyfile is not None:
        h += keyfile_key(keyfile)
    return hashlib.sha256(h).digest()


def aes_kdf(comp, seed, rounds):
    c = AES.new(seed, AES.MODE_ECB)
    for _ in range(rounds):
        comp = c.encrypt(comp)
    return hashlib.sha256(comp).digest()


def transform(comp, kdf):
    if kdf['name'] == 'aeskdf':
        return aes_kdf(comp, kdf['S'], kdf['R'])
    return argon2.low_level.hash_secret_raw(
        secret=comp, salt=kdf['S'], time_cost=kdf['I'], memory_cost=kdf['M'] // 1024, parallelism=kdf['P'], hash_len=32,
        type=argon2.low_level.Type.D if kdf['name'] == 'argon2' else argon2.low_level.Type.ID, version=kdf['V'])


# ------------------------------------------------------------------ ciphers
def _pad(d):
    n = 16 - len(d) % 16
    return d + bytes([n]) * n


def _unpad(d):
    if not d or len(d) % 16 or not 1 <= d[-1] <= 16 or d[-d[-1]:] != bytes([d[-1]]) * d[-1]:
        raise RefError('padding')
    return d[:-d[-1]]


def outer_encrypt(cipher, key, iv, d):
    if cipher == 'aes256':
        return AES.new(key, AES.MODE_CBC, iv).encrypt(_pad(d))
    if cipher == 'twofish':
        return ref_twofish.cbc_encrypt(key, iv, _pad(d))
    return ChaCha20.new(key=key, nonce=iv).encrypt(d)


def outer_decrypt(cipher, key, iv, d):
    if cipher != 'chacha20' and len(d) % 16:
        raise RefError('ciphertext length')
    if cipher == 'aes256':
        return _unpad(AES.new(key, AES.MODE_CBC, iv).decrypt(d))
    if cipher == 'twofish':
        return _unpad(ref_twofish.cbc_decrypt(key, iv, d))
    return ChaCha20.new(key=key, nonce=iv).decrypt(d)


def inner_cipher(name, key):
    if name == 'salsa20':
        return Salsa20.new(key=hashlib.sha256(key).digest(), nonce=bytes.fromhex('e830094b97205d2a'))
    if name == 'chacha20':
        h = hashlib.sha512(key).digest()
        return ChaCha20.new(key=h[:32], nonce=h[32:44])
    return None


def _prot_elems(root):
    return [e for e in root.iter() if isinstance(e.tag, str) and e.get('Protected') == 'True' and e.tag in ('Value', 'Binary')]


def unprotect(root, name, key):
    c = inner_cipher(name, key)
    if c is None:
        return 0
    n = 0
    for e in _prot_elems(root):
        if e.text:
            raw = c.decrypt(base64.b64decode(e.text, validate=True))
            e.text = raw.decode('utf-8') if e.tag == 'Value' else base64.b64encode(raw).decode()
            n += 1
    return n


def protect(root, name, key, control=None):
    """control: (stand-in, text) - protected values hold the text where the tree has the stand-in (characters XML has no form for)"""
    c = inner_cipher(name, key)
    if c is None:
        return
    for e in _prot_elems(root):
        if e.text:
            t = e.text.replace(*control) if control else e.text
            raw = t.encode('utf-8') if e.tag == 'Value' else base64.b64decode(e.text)
            e.text = base64.b64encode(c.encrypt(raw)).decode()


# ------------------------------------------------------------------ reading
class Doc:
    """Decoded database."""
    version = cipher = compressed = kdf = inner = inner_key = header_bytes = None
    master_seed = iv = None
    xml_raw = None          # XML bytes as stored (protected values still encrypted)
    root = None             # lxml root, values unprotected
    binaries = None         # v4: list of (flags byte, data)
    header_fields = None    # list of (id, raw bytes)
    transformed = None
    block_sizes = None
    inner_fields = None
    n_protected = 0


def _vardict(b):
    if b[:2] != b'\x00\x01':
        raise RefError('variant dictionary version')
    out, i = [], 2
    while b[i] != 0:
        t = b[i]
        kl = struct.unpack_from('<I', b, i + 1)[0]
        k = b[i + 5:i + 5 + kl].decode()
        i += 5 + kl
        vl = struct.unpack_from('<I', b, i)[0]
        v = b[i + 4:i + 4 + vl]
        i += 4 + vl
        fmt = {0x04: '<I', 0x05: '<Q', 0x0C: '<i', 0x0D: '<q'}.get(t)
        if fmt:
            v = struct.unpack(fmt, v)[0]
        elif t == 0x08:
            v = bool(v[0])
        elif t == 0x18:
            v = v.decode()
        elif t != 0x42:
            raise RefError('variant type')
        out.append((k, t, v))
    if i != len(b) - 1:
        raise RefError('variant dictionary length')
    return out


def parse_header(data):
    """-> (doc with header info, offset after the header)"""
    d = Doc()
    if data[:8] != SIG:
        raise RefError('signature')
    minor, major = struct.unpack_from('<HH', data, 8)
    if major not in (3, 4):
        raise RefError('version')
    d.version = (major, minor)
    lf, ls = ('<H', 2) if major == 3 else ('<I', 4)
    i = 12
    d.header_fields = []
    while True:
        fid = data[i]
        n = struct.unpack_from(lf, data, i + 1)[0]
        v = data[i + 1 + ls:i + 1 + ls + n]
        if len(v) != n:
            raise RefError('header truncated')
        i += 1 + ls + n
        d.header_fields.append((fid, v))
        if fid == 0:
            break
    d.header_bytes = data[:i]
    f = dict(d.header_fields)
    if len(f) != len(d.header_fields):
        raise RefError('duplicate header field')
    d.cipher = {v: k for k, v in CIPHERS.items()}[f[2]]
    flags = struct.unpack('<I', f[3])[0]
    if flags > 1:
        raise RefError('compression flags')
    d.compressed = bool(flags)
    d.master_seed, d.iv = f[4], f[7]
    if len(d.master_seed) != 32:
        raise RefError('master seed length')
    if len(d.iv) != (12 if d.cipher == 'chacha20' else 16):
        raise RefError('IV length')
    if major == 3:
        d.kdf = {'name': 'aeskdf', 'S': f[5], 'R': struct.unpack('<Q', f[6])[0]}
        d.inner = {v: k for k, v in STREAMS.items()}[struct.unpack('<I', f[10])[0]]
        d.inner_key = f[8]
    else:
        p = {k: v for k, t, v in _vardict(f[11])}
        d.kdf = {k: v for k, v in p.items() if k != '$UUID'}
        d.kdf['name'] = {v: k for k, v in KDFS.items()}[p['$UUID']]
    return d, i


def decode(data, password=None, keyfile=None, transformed=None, raw=False):
    """keyfile: bytes content; raw: leave protected values encrypted"""
    d, i = parse_header(data)
    f = dict(d.header_fields)
    tk = transformed if transformed is not None else transform(composite(password, keyfile), d.kdf)
    d.transformed = tk
    master = hashlib.sha256(d.master_seed + tk).digest()
    d.block_sizes = []
    parser = etree.XMLParser(resolve_entities=False, no_network=True, huge_tree=True)
    if d.version[0] == 3:
        pt = outer_decrypt(d.cipher, master, d.iv, data[i:])
        if pt[:32] != f[9]:
            raise RefError('credentials')
        j, out, idx = 32, [], 0
        while True:
            bi, bh, bl = struct.unpack_from('<I32sI', pt, j)
            blk = pt[j + 40:j + 40 + bl]
            if bi != idx or len(blk) != bl:
                raise RefError('block structure')
            j += 40 + bl
            idx += 1
            if bl == 0:
                if bh != bytes(32):
                    raise RefError('final block hash')
                break
            if hashlib.sha256(blk).digest() != bh:
                raise RefError('block hash')
            d.block_sizes.append(bl)
            out.append(blk)
        if j != len(pt):
            raise RefError('data after final block')
        x = b''.join(out)
        if d.compressed:
            x = gzip.decompress(x)
        d.xml_raw = x
        d.root = etree.fromstring(x, parser)
        d.n_protected = 0 if raw else unprotect(d.root, d.inner, d.inner_key)
        hh = d.root.findtext('Meta/HeaderHash')
        if hh and base64.b64decode(hh) != hashlib.sha256(d.header_bytes).digest():
            raise RefError('stored header hash')
        return d
    if data[i:i + 32] != hashlib.sha256(d.header_bytes).digest():
        raise RefError('header hash')
    hk = hashlib.sha512(d.master_seed + tk + b'\x01').digest()
    def bk(n):
        return hashlib.sha512(struct.pack('<Q', n) + hk).digest()
    if data[i + 32:i + 64] != hmac.new(bk(2**64 - 1), d.header_bytes, 'sha256').digest():
        raise RefError('credentials')
    j, out, idx = i + 64, [], 0
    while True:
        mac, bl = struct.unpack_from('<32sI', data, j)
        blk = data[j + 36:j + 36 + bl]
        if len(blk) != bl:
            raise RefError('block truncated')
        if mac != hmac.new(bk(idx), struct.pack('<QI', idx, bl) + blk, 'sha256').digest():
            raise RefError('block hmac')
        j += 36 + bl
        idx += 1
        if bl == 0:
            break
        d.block_sizes.append(bl)
        out.append(blk)
    if j != len(data):
        raise RefError('data after final block')
    pt = outer_decrypt(d.cipher, master, d.iv, b''.join(out))
    if d.compressed:
        pt = gzip.decompress(pt)
    k = 0
    d.binaries = []
    d.inner_fields = []
    while True:
        t, n = struct.unpack_from('<BI', pt, k)
        v = pt[k + 5:k + 5 + n]
        if len(v) != n:
            raise RefError('inner header truncated')
        k += 5 + n
        d.inner_fields.append((t, v))
        if t == 0:
            break
        if t == 1:
            d.inner = {v: kk for kk, v in STREAMS.items()}[struct.unpack('<I', v)[0]]
        elif t == 2:
            d.inner_key = v
        elif t == 3:
            d.binaries.append((v[0], v[1:]))
        else:
            raise RefError('inner header field')
    d.xml_raw = pt[k:]
    d.root = etree.fromstring(d.xml_raw, parser)
    d.n_protected = 0 if raw else unprotect(d.root, d.inner, d.inner_key)
    return d


def decoded_binaries(d):
    """all binaries by id, as bytes"""
    if d.version[0] == 4:
        return {i: b for i, (_, b) in enumerate(d.binaries)}
    out = {}
    for e in d.root.findall('Meta/Binaries/Binary'):
        raw = base64.b64decode(e.text or '')
        if e.get('Compressed') == 'True' and raw:
            raw = gzip.decompress(raw)
        i = int(e.get('ID'))
        if i in out:
            raise RefError('duplicate binary id')
        out[i] = raw
    return out


# ------------------------------------------------------------------ writing
def default_cfg(rng, version=(4, 0), **kw):
    """cheap random configuration"""
    R = rng.randbytes
    c = dict(version=version, cipher='aes256', compressed=True, inner='chacha20' if version[0] == 4 else 'salsa20',
             master_seed=R(32), inner_key=R(64 if version[0] == 4 else 32), start=R(32), block=BLOCK,
             header_extra=[], vardict_extra=[], inner_order=0, zlevel=6, field_order=None, end_data=b'\r\n\r\n')
    c.update(kw)
    if 'iv' not in c:
        c['iv'] = R(12 if c['cipher'] == 'chacha20' else 16)
    if 'kdf' not in c:
        c['kdf'] = {'name': 'aeskdf', 'S': R(32), 'R': 2}
    return c


def cheap_kdf(rng, name):
    if name == 'aeskdf':
        return {'name': name, 'S': rng.randbytes(32), 'R': rng.choice([1, 2, 7, 64])}
    p = rng.choice([1, 1, 1, 2, 2, 3, 5, 9, 17])
    return {'name': name, 'S': rng.randbytes(rng.choice([32, 32, 16])), 'I': rng.choice([1, 2, 3]), 'M': rng.choice([8, 16, 40, 64]) * p * 1024,
            'P': p, 'V': rng.choice([0x13, 0x13, 0x10])}


def _wvardict(items):
    out = b'\x00\x01'
    for k, t, v in items:
        k = k.encode()
        if t in (0x04, 0x05, 0x0C, 0x0D):
            v = struct.pack({0x04: '<I', 0x05: '<Q', 0x0C: '<i', 0x0D: '<q'}[t], v)
        elif t == 0x08:
            v = b'\x01' if v else b'\x00'
        elif t == 0x18:
            v = v.encode()
        out += bytes([t]) + struct.pack('<I', len(k)) + k + struct.pack('<I', len(v)) + v
    return out + b'\x00'


def build_header(cfg):
    major, minor = cfg['version']
    kdf = cfg['kdf']
    f = [(2, CIPHERS[cfg['cipher']]), (3, struct.pack('<I', int(cfg['compressed']))), (4, cfg['master_seed'])]
    if major == 3:
        f += [(5, kdf['S']), (6, struct.pack('<Q', kdf['R'])), (7, cfg['iv']), (8, cfg['inner_key']), (9, cfg['start']),
              (10, struct.pack('<I', STREAMS[cfg['inner']]))]
    else:
        if kdf['name'] == 'aeskdf':
            vd = [('$UUID', 0x42, KDFS['aeskdf']), ('R', 0x05, kdf['R']), ('S', 0x42, kdf['S'])]
        else:
            vd = [('$UUID', 0x42, KDFS[kdf['name']]), ('I', 0x05, kdf['I']), ('M', 0x05, kdf['M']), ('P', 0x04, kdf['P']),
                  ('S', 0x42, kdf['S']), ('V', 0x04, kdf['V'])]
        vd += cfg['vardict_extra']
        f += [(7, cfg['iv']), (11, _wvardict(vd))]
    f += cfg['header_extra']
    if cfg['field_order'] is not None:
        cfg['field_order'].shuffle(f)
    f.append((0, cfg['end_data']))
    out = SIG + struct.pack('<HH', minor, major)
    for i, v in f:
        out += bytes([i]) + struct.pack('<H' if major == 3 else '<I', len(v)) + v
    return out


def _gzip(data, level):
    c = zlib.compressobj(level, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def encode(cfg, root, password=None, keyfile=None, transformed=None, binaries=(), xml_bytes=None):
    """root: lxml element with clear values (not modified); binaries (v4): list of (flag, bytes)"""
    import copy
    hdr = build_header(cfg)
    tk = transformed if transformed is not None else transform(composite(password, keyfile), cfg['kdf'])
    master = hashlib.sha256(cfg['master_seed'] + tk).digest()
    if xml_bytes is None:
        r = copy.deepcopy(root)
        if cfg['version'][0] == 3 and cfg.get('header_hash', True):
            meta = r.find('Meta')
            hh = meta.find('HeaderHash')
            if hh is None:
                hh = etree.Element('HeaderHash')
                meta.insert(0, hh)
            hh.text = base64.b64encode(hashlib.sha256(hdr).digest()).decode()
        protect(r, cfg['inner'], cfg['inner_key'], cfg.get('control'))
        xml_bytes = etree.tostring(r, xml_declaration=cfg.get('decl', True), encoding=cfg.get('encoding', 'utf-8'),
                                   standalone=True if cfg.get('decl', True) else None, pretty_print=cfg.get('pretty', False))
    B = cfg['block']
    if cfg['version'][0] == 3:
        x = _gzip(xml_bytes, cfg['zlevel']) if cfg['compressed'] else xml_bytes
        out, idx = cfg['start'], 0
        for i in range(0, len(x), B):
            b = x[i:i + B]
            out += struct.pack('<I32sI', idx, hashlib.sha256(b).digest(), len(b)) + b
            idx += 1
        out += struct.pack('<I32sI', idx, bytes(32), 0)
        return hdr + outer_encrypt(cfg['cipher'], master, cfg['iv'], out)
    ih = [(1, struct.pack('<I', STREAMS[cfg['inner']])), (2, cfg['inner_key'])]
    bb = [(3, bytes([fl]) + b) for fl, b in binaries]
    ih = bb + ih if cfg['inner_order'] else ih + bb
    ih.append((0, b''))
    pt = b''.join(struct.pack('<BI', t, len(v)) + v for t, v in ih) + xml_bytes
    if cfg['compressed']:
        pt = _gzip(pt, cfg['zlevel'])
    ct = outer_encrypt(cfg['cipher'], master, cfg['iv'], pt)
    hk = hashlib.sha512(cfg['master_seed'] + tk + b'\x01').digest()
    def bk(n):
        return hashlib.sha512(struct.pack('<Q', n) + hk).digest()
    out = [hdr, hashlib.sha256(hdr).digest(), hmac.new(bk(2**64 - 1), hdr, 'sha256').digest()]
    idx = 0
    for i in list(range(0, len(ct), B)) + [None]:
        b = b'' if i is None else ct[i:i + B]
        out.append(hmac.new(bk(idx), struct.pack('<QI', idx, len(b)) + b, 'sha256').digest() + struct.pack('<I', len(b)) + b)
        idx += 1
    return b''.join(out)


# ------------------------------------------------------------------ canonical content
def canon(e):
    """Canonical nested tuple of an element: (tag, attributes, text, children). '' and None texts are the same;
    whitespace-only text between children is ignored."""
    if not isinstance(e.tag, str):
        return ('#' + type(e).__name__, e.text or '')
    kids = tuple(canon(c) for c in e)
    text = e.text or ''
    if kids:
        if not text.strip():
            text = ''
        tails = tuple(c.tail for c in e if c.tail and c.tail.strip())
    else:
        tails = ()
    return (e.tag, tuple(sorted(e.attrib.items())), text, kids) + ((tails,) if tails else ())


def diff(a, b, path=''):
    """first difference between two canonical trees, as text (None if equal)"""
    if a == b:
        return None
    if a[0] != b[0] or len(a) != len(b) or len(a) < 4:
        return '%s: <%s> vs <%s> %.80r %.80r' % (path, a[0], b[0], a[1:], b[1:])
    p = path + '/' + a[0]
    if a[1] != b[1]:
        return '%s: attributes %r vs %r' % (p, a[1], b[1])
    if a[2] != b[2]:
        return '%s: text %.120r vs %.120r' % (p, a[2], b[2])
    if len(a[3]) != len(b[3]):
        return '%s: %d children %r vs %d children %r' % (p, len(a[3]), [k[0] for k in a[3]][:40], len(b[3]), [k[0] for k in b[3]][:40])
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        r = diff(x, y, '%s[%d]' % (p, i))
        if r:
            return r
    return '%s: tails %r vs %r' % (p, a[4:], b[4:])
