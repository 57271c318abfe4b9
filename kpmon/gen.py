"""Hostile value and database generators (all randomness from the given random.Random)."""
import base64
import struct
import uuid
from datetime import datetime, timedelta, timezone, tzinfo

from lxml import etree

from . import refkdbx as R

EPOCH = datetime(1, 1, 1, tzinfo=timezone.utc)
WORDS = ['a', 'b', 'foo', 'bar', 'foobar', 'Foo', 'group', 'entry', 'root', 'Title', 'True', 'False', 'None', '0', '1', '12', 'x']
SPECIALS = [
    '"', "'", '"\'"', 'say "hi"', "it's", '\'a"b\'c"', ']]>', '<a>', '&amp;', '&', '<!--', '--', '\\', '/', '//', 'a/b', '*', '.*', '^a$', '[', ']',
    '(', ')', '[a-z]+', '(?i)x', '+', '?', '{', '}', '{}', '{0}', '{flags}', '%s', '%', '$1', '|', '@', '#', '..', '.', 'text()', '" or "1"="1',
    ' ', '  ', ' lead', 'trail ', '\t', '\n', '\r', '\r\n', 'a\nb', 'a\rb', 'a\r\nb', '\n\n', 'tab\there', '\xa0', '\u200b', '\u2028', '\u2029', '\x85',
    '\x7f', '\x80', '\x9f', '\xad', '\ufeff', '\ufffd', '\ud7ff', '\ue000', 'caf\xe9', 'cafe\u0301', '\xdf', 'ss', 'SS', '\u0130', 'i\u0307', '\u05e9\u05dc',
    '\u4e2d\u6587', '\U0001f600', '\U0001f468\u200d\U0001f469', '\U0010fffd', '\U00010000', 'e\u0301\u0327', '\uff21',
    '{REF:', '{REF:T@I:00}', '{REF:X@I:00}', '{TITLE}', 'Recycle Bin', ';', ',', 'a;b', 'a,b', ';;', 'AAAA', '====', 'True ', 'true',
]
INVALID_TEXTS = ['\x00', 'a\x00b', '\x01', 'x\x0b', '\x0c', '\x1f', '\ud800', 'a\udfffb', '\ufffe', '\uffff', 'ok\x08']


def text(rng, maxlen=40, empty=True):
    """a text every XML 1.0 document can hold"""
    r = rng.random()
    if empty and r < .04:
        return ''
    if r < .35:
        return rng.choice(WORDS)
    if r < .65:
        return rng.choice(SPECIALS)
    if r < .80:
        return ''.join(rng.choice(SPECIALS + WORDS) for _ in range(rng.randint(2, 4)))
    if r < .84:
        n = rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 1000])
        return ''.join(rng.choice('abcXYZ019 \xe9\u4e2d') for _ in range(n))
    return ''.join(char(rng) for _ in range(rng.randint(1, maxlen)))


def char(rng):
    r = rng.random()
    if r < .5:
        return chr(rng.randint(0x20, 0x7e))
    if r < .6:
        return chr(rng.randint(0x7f, 0x2ff))
    if r < .8:
        return chr(rng.randint(0x300, 0xd7ff))
    if r < .85:
        return chr(rng.randint(0xe000, 0xfffd))
    if r < .9:
        return rng.choice('\t\n\r "\'')
    return chr(rng.randint(0x10000, 0x10ffff))


def name(rng):
    """non-empty text"""
    while True:
        t = text(rng, 20, empty=False)
        if t:
            return t


def near(rng, old, others=()):
    """a text related to another one"""
    import unicodedata
    old = old or ''
    k = rng.randrange(12)
    if k == 0:
        return old
    if k == 1:
        return old.swapcase()
    if k == 2:
        return old + rng.choice([' ', '/', '\n', '.', '0', '\t', '\xa0'])
    if k == 3:
        return old.strip()
    if k == 4:
        return old[:-1]
    if k == 5:
        return rng.choice([' ', '/', '\n', '0']) + old
    if k == 6:
        return unicodedata.normalize(rng.choice(['NFC', 'NFD', 'NFKC']), old)
    if k == 7:
        return old + old
    if k == 8:
        return old.lower()
    if k == 9:
        return old.rstrip('/. \n')
    if k == 10:
        return old[::-1] if old.isascii() else old[1:]
    return rng.choice(list(others)) or '' if others else old


def tag(rng):
    while True:
        t = name(rng).replace(';', '').replace(',', '')
        if t:
            return t


RESERVED = {'Title', 'UserName', 'Password', 'URL', 'Tags', 'IconID', 'Times', 'History', 'Notes', 'otp'}


NEARKEYS = ['KP2A_URL_1', 'URL2', 'SubTitle', 'Title (old)', 'title', 'UserName1', 'Old UserName', 'Password old', 'My Password', 'Notes2', 'Release Notes', 'otp2', 'TimeOtp-otp', 'OTP', 'k', 'k11', 'xk1',
            'History2', 'UUID', ' Title', 'Password ']


def propkey(rng):
    while True:
        r = rng.random()
        t = rng.choice(['k1', 'k2', 'key', 'TimeOtp', 'Key', 'Value', 'String']) if r < .3 else rng.choice(NEARKEYS) if r < .5 else name(rng)
        if t and t not in RESERVED:
            return t


def blob(rng, big=False):
    r = rng.random()
    if r < .08:
        return b''
    if r < .2:
        return rng.choice([b'\x00', b'\x01', b'\x00' * 16, b'abc', b'same', b'<xml/>', b'\x1f\x8b', b'\xff' * 40])
    if big and r < .4:
        return rng.randbytes(rng.choice([65535, 65536, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]))
    return rng.randbytes(rng.randint(1, rng.choice([4, 64, 64, 3000])))


class Summer(tzinfo):
    """a zone with summer time from April to September"""

    def __init__(self, minutes):
        self.std = timedelta(minutes=minutes)

    def dst(self, dt):
        return timedelta(hours=1) if dt is not None and 4 <= dt.month <= 9 else timedelta(0)

    def utcoffset(self, dt):
        return self.std + self.dst(dt)

    def tzname(self, dt):
        return 'summer'

    def __repr__(self):
        return 'Summer(%s)' % self.std


def instant(rng, far=True):
    """timezone-aware datetime anywhere in the representable range"""
    r = rng.random()
    if r < .4 or not far:
        base = datetime(2000, 1, 1) + timedelta(seconds=rng.randint(0, 40 * 31536000))
    elif r < .55:
        base = rng.choice([datetime(1, 1, 3), datetime(1, 1, 2, 0, 0, 1), datetime(9999, 12, 29, 23, 59, 59), datetime(1969, 12, 31, 23, 59, 59),
                           datetime(1970, 1, 1), datetime(2038, 1, 19, 3, 14, 7), datetime(2038, 1, 19, 3, 14, 8), datetime(2000, 2, 29, 12),
                           datetime(2016, 12, 31, 23, 59, 59), datetime(1900, 1, 1), datetime(4001, 1, 1), datetime(2106, 2, 7, 6, 28, 16)])
    else:
        base = datetime(1, 1, 3) + timedelta(seconds=rng.randint(0, 9998 * 31536000))
    if rng.random() < .3:
        base = base.replace(microsecond=rng.choice([0, 1, 999999, 500000, rng.randint(0, 999999)]))
    off = rng.choice([0, 0, 0, 60, -60, 330, 345, -720, 840, -210, rng.randint(-1439, 1439)])
    if rng.random() < .05:
        tz = timezone(timedelta(seconds=rng.randint(-86399, 86399)))
    else:
        tz = timezone.utc if off == 0 else timezone(timedelta(minutes=off))
    if rng.random() < .12:
        tz = Summer(rng.choice([0, 60, -300, 570, -660]))
    return base.replace(tzinfo=timezone.utc).astimezone(tz)


def enc_time(v4, t):
    t = t.astimezone(timezone.utc)
    if v4:
        return base64.b64encode(struct.pack('<Q', (t - EPOCH) // timedelta(seconds=1))).decode()
    return t.strftime('%%04d-%m-%dT%H:%M:%SZ') % t.year


def enc_time_alt(rng, v4, t):
    """other spellings of a (whole second) time that programs write"""
    t = t.astimezone(timezone.utc).replace(microsecond=0)
    iso = '%04d-%02d-%02dT%02d:%02d:%02d' % (t.year, t.month, t.day, t.hour, t.minute, t.second)
    r = rng.random()
    if r < .4:
        return iso + 'Z'
    if r < .6:
        return iso + '+00:00'
    if r < .8:
        off = rng.choice([60, -300, 330])
        u = t + timedelta(minutes=off)
        return '%04d-%02d-%02dT%02d:%02d:%02d%s%02d:%02d' % (u.year, u.month, u.day, u.hour, u.minute, u.second, '-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    return enc_time(v4, t)


# ------------------------------------------------------------------ databases
def sub(parent, tag, text=None, **attrib):
    e = etree.SubElement(parent, tag, **attrib)
    if text is not None:
        e.text = text
    return e


def put(parent, tag):
    e = parent.find(tag)
    return sub(parent, tag) if e is None else e


def new_uuid(rng):
    return uuid.UUID(bytes=rng.randbytes(16))


def b64uuid(u):
    return base64.b64encode(u.bytes).decode()


def times(rng, v4, parent, far=False, alt=False):
    t = sub(parent, 'Times')
    if 'flag' in parent.attrib:
        t.set('flag', parent.get('flag'))

    def enc():
        x = instant(rng, far).astimezone(timezone.utc).replace(microsecond=0)
        return enc_time_alt(rng, v4, x) if alt else enc_time(v4, x)
    for k in ('CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime'):
        sub(t, k, enc())
    sub(t, 'Expires', rng.choice(['True', 'False']))
    sub(t, 'UsageCount', str(rng.randint(0, 9)))
    sub(t, 'LocationChanged', enc())


class Opt:
    """shape of a generated database"""
    def __init__(self, **kw):
        self.groups = 4
        self.entries = 6
        self.hist = .3
        self.att = .3
        self.nbin = 4
        self.unknown = False
        self.bin_uuid = None       # recycle bin: None random, 'none' absent
        self.names = name
        self.texts = text
        self.mark = False          # unique custom property on every entry / history entry
        self.alt_times = False
        self.far_times = False
        self.prot_meta_binaries = False
        self.shuffle_binaries = False
        self.big = False
        self.full = False          # exactly as many elements as given
        self.chain = .3            # how often a group goes into the one before
        self.bad_limits = True
        self.prot_std = .05        # standard fields that another program marked as protected
        self.sparse = None         # leave out optional elements: None sometimes, False never, True always
        self.dup_uuid = False      # entries and groups that share a UUID (merged databases)
        self.__dict__.update(kw)


def string(e, key, value, prot):
    s = sub(e, 'String')
    sub(s, 'Key', key)
    v = sub(s, 'Value', value)
    if prot is not None:
        v.set('Protected', 'True' if prot else 'False')


_marks = 0


def entry(rng, v4, parent, o, nbin, uid=None, hist=True, mark=None):
    if o.unknown and hist and rng.random() < .15:
        parent.append(etree.Comment(' before %016x ' % rng.getrandbits(64)))
    e = sub(parent, 'Entry')
    if o.unknown and rng.random() < .15:
        e.set(rng.choice(['flag', 'Id', 'x']), '%016x' % rng.getrandbits(64))
    uid = uid or new_uuid(rng)
    sub(e, 'UUID', b64uuid(uid))
    sub(e, 'IconID', str(rng.randint(0, 68)))
    if o.unknown:
        junk(rng, e)
    sub(e, 'ForegroundColor')
    sub(e, 'Tags', rng.choice([';', ';', ',']).join(tag(rng) for _ in range(rng.choice([0, 0, 1, 2, 3]))))
    times(rng, v4, e, o.far_times, o.alt_times)
    std = lambda: rng.random() < o.prot_std
    order = [('Title', o.names(rng) if rng.random() < .95 else '', std()), ('UserName', o.texts(rng), std()), ('Password', o.texts(rng), rng.random() < .9),
             ('URL', o.texts(rng), std()), ('Notes', o.texts(rng), std() or rng.random() < .1)]
    if rng.random() < .3:
        order.append(('otp', 'otpauth://totp/x?secret=' + ''.join(rng.choice('ABCDEFGH234567') for _ in range(16)), rng.random() < .85))
    seen = set()
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        k = propkey(rng)
        if k not in seen and k != 'mk':
            seen.add(k)
            order.append((k, o.texts(rng), rng.random() < .4))
    if mark is not None:
        order.append(('mk', mark(), False))
    if rng.random() < .5:
        rng.shuffle(order)
    for k, v, p in order:
        string(e, k, v, True if p else rng.choice([None, None, False]))
    if nbin:
        for _ in range(rng.randint(1, 3) if rng.random() < o.att else 0):
            b = sub(e, 'Binary')
            sub(b, 'Key', o.names(rng))
            sub(b, 'Value', Ref=str(rng.randrange(nbin)))
    a = sub(e, 'AutoType')
    sub(a, 'Enabled', rng.choice(['True', 'False', 'True', '']) or None)
    sub(a, 'DataTransferObfuscation', '0')
    sub(a, 'DefaultSequence', rng.choice(['', '{USERNAME}{TAB}{PASSWORD}{ENTER}', o.texts(rng)]))
    for _ in range(rng.choice([0, 1, 1, 2])):
        s = sub(a, 'Association')
        sub(s, 'Window', o.texts(rng))
        sub(s, 'KeystrokeSequence', o.texts(rng))
    if hist:
        h = None
        if rng.random() < .8:
            h = sub(e, 'History')
        if h is not None and rng.random() < o.hist:
            for _ in range(rng.randint(1, 3)):
                entry(rng, v4, h, o, nbin, uid=uid, hist=False, mark=mark)
    return e


def group(rng, v4, parent, o, nm=None):
    if o.unknown and rng.random() < .15:
        parent.append(etree.Comment(' before %016x ' % rng.getrandbits(64)))
    g = sub(parent, 'Group')
    if o.unknown and rng.random() < .15:
        g.set(rng.choice(['flag', 'Id', 'x']), '%016x' % rng.getrandbits(64))
    sub(g, 'UUID', b64uuid(new_uuid(rng)))
    sub(g, 'Name', o.names(rng) if nm is None else nm)
    sub(g, 'Notes', rng.choice(['', o.texts(rng)]))
    sub(g, 'IconID', str(rng.randint(0, 68)))
    if o.unknown:
        junk(rng, g)
    times(rng, v4, g, o.far_times, o.alt_times)
    sub(g, 'IsExpanded', 'True')
    sub(g, 'DefaultAutoTypeSequence')
    sub(g, 'EnableAutoType', 'null')
    sub(g, 'LastTopVisibleEntry', 'AAAAAAAAAAAAAAAAAAAAAA==')
    return g


def junk(rng, parent, depth=0):
    """elements the library has no API for; every one carries a unique token"""
    for _ in range(rng.randint(1, 2)):
        kind = rng.randrange(6)
        tok = '%016x' % rng.getrandbits(64)
        if kind == 0:
            cd = sub(parent, 'CustomData')
            it = sub(cd, 'Item')
            sub(it, 'Key', 'plugin-' + tok)
            sub(it, 'Value', text(rng))
        elif kind == 1:
            e = sub(parent, 'X-' + tok, text(rng), a=tok, b=rng.choice(['', '"', '<&>', '\n', '\xe9', ' x ']))
            e.set('ProtectInMemory', 'True')
        elif kind == 2:
            sub(parent, 'CustomIconUUID', base64.b64encode(rng.randbytes(16)).decode(), tok=tok)
        elif kind == 3:
            e = sub(parent, 'Future', tok=tok)
            if depth < 2:
                junk(rng, e, depth + 1)
            sub(e, 'Name', 'decoy ' + tok)
        elif kind == 4:
            # looks like interpreted content, but is inside something else, ahead of it
            e = etree.Element('Backup', tok=tok)
            t = sub(e, 'Times')
            for k in rng.sample(['DatabaseName', 'DatabaseDescription', 'DefaultUserName', 'MasterKeyChanged', 'MasterKeyChangeRec', 'MasterKeyChangeForce', 'RecycleBinUUID', 'HeaderHash', 'Name', 'Notes',
                                 'IconID', 'Tags', 'UUID', 'History', 'AutoType', 'Title', 'Binaries'], rng.randint(1, 6)):
                sub(e, k, 'decoy ' + tok if k not in ('History', 'AutoType', 'Binaries') else None)
            for k in rng.sample(['CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime', 'Expires'], 2):
                sub(t, k, 'decoy ' + tok)
            parent.insert(0, e)
        else:
            parent.append(etree.Comment(' note ' + tok + ' '))


def database(rng, version, o=None):
    """-> (root element with clear values, v4 binaries [(flag, bytes)])"""
    o = o or Opt()
    v4 = version[0] == 4
    cnt = [0]

    def mark():
        cnt[0] += 1
        return 'm%d' % cnt[0]
    root = etree.Element('KeePassFile')
    meta = sub(root, 'Meta')
    sub(meta, 'Generator', rng.choice(['KeePass', 'KeePassXC', 'ref']))
    if v4:
        sub(meta, 'SettingsChanged', enc_time(v4, instant(rng, False)))
    sub(meta, 'DatabaseName', o.texts(rng))
    sub(meta, 'DatabaseNameChanged', enc_time(v4, instant(rng, False)))
    sub(meta, 'DatabaseDescription', o.texts(rng))
    sub(meta, 'DatabaseDescriptionChanged', enc_time(v4, instant(rng, False)))
    sub(meta, 'DefaultUserName', o.texts(rng))
    sub(meta, 'DefaultUserNameChanged', enc_time(v4, instant(rng, False)))
    sub(meta, 'MaintenanceHistoryDays', '365')
    sub(meta, 'Color')
    sub(meta, 'MasterKeyChanged', enc_time(v4, instant(rng, False)))
    sub(meta, 'MasterKeyChangeRec', str(rng.choice([-1, -1, 0, 1, 30, 182])))
    sub(meta, 'MasterKeyChangeForce', str(rng.choice([-1, -1, 0, 1, 30, 365])))
    mp = sub(meta, 'MemoryProtection')
    for k in ('Title', 'UserName', 'Password', 'URL', 'Notes'):
        sub(mp, 'Protect' + k, str(k == 'Password'))
    if o.unknown:
        ci = sub(meta, 'CustomIcons')
        for _ in range(rng.randint(0, 2)):
            ic = sub(ci, 'Icon')
            sub(ic, 'UUID', base64.b64encode(rng.randbytes(16)).decode())
            sub(ic, 'Data', base64.b64encode(rng.randbytes(40)).decode())
    sub(meta, 'RecycleBinEnabled', rng.choice(['True', 'True', 'False']))
    rb = sub(meta, 'RecycleBinUUID', 'AAAAAAAAAAAAAAAAAAAAAA==')
    sub(meta, 'RecycleBinChanged', enc_time(v4, instant(rng, False)))
    sub(meta, 'EntryTemplatesGroup', 'AAAAAAAAAAAAAAAAAAAAAA==')
    sub(meta, 'HistoryMaxItems', '10')
    sub(meta, 'HistoryMaxSize', '6291456')
    sub(meta, 'LastSelectedGroup', 'AAAAAAAAAAAAAAAAAAAAAA==')
    bins = [blob(rng, o.big) for _ in range(rng.randint(0, o.nbin) if not o.mark and not o.full else o.nbin)]
    v4bins = []
    if v4:
        v4bins = [(rng.choice([0, 1, 1]), b) for b in bins]
    else:
        be = sub(meta, 'Binaries')
        ids = list(range(len(bins)))
        if o.shuffle_binaries:
            rng.shuffle(ids)
        for i in ids:
            b = bins[i]
            comp = rng.random() < .5
            raw = R._gzip(b, 6) if comp else b
            el = sub(be, 'Binary', base64.b64encode(raw).decode(), ID=str(i))
            if comp or rng.random() < .5:
                el.set('Compressed', str(comp))
            if o.prot_meta_binaries and raw and rng.random() < .6:
                el.set('Protected', 'True')
    if o.unknown:
        junk(rng, meta)
    else:
        sub(meta, 'CustomData')
    r = sub(root, 'Root')
    top = group(rng, v4, r, o, nm=rng.choice(['Root', 'Database', o.names(rng)]))
    groups = [top]
    depth = {top: 0}
    for _ in range(rng.randint(0, o.groups) if not o.full else o.groups):
        p = rng.choice(groups) if rng.random() >= o.chain else groups[-1]
        g = group(rng, v4, p, o)
        groups.append(g)
    n = rng.randint(0 if not o.mark else 2, o.entries) if not o.full else o.entries
    for _ in range(n):
        g = rng.choice(groups)
        e = entry(rng, v4, g, o, len(bins), mark=mark if o.mark else None)
        if rng.random() < .7:
            # KeePass writes entries before subgroups
            first = g.find('Group')
            if first is not None:
                first.addprevious(e)
    use = o.bin_uuid if o.bin_uuid is not None else rng.choice(['none', 'none', 'group', 'dangling'])
    if use == 'group' and len(groups) > 1:
        g = rng.choice(groups[1:])
        rb.text = g.findtext('UUID')
    elif use == 'dangling':
        rb.text = base64.b64encode(rng.randbytes(16)).decode()
    if o.dup_uuid:
        # never the root group or the recycle bin: what they are follows from their UUIDs
        gs = [g for g in groups[1:] if g.findtext('UUID') != rb.text]
        es = list(top.iter('Entry'))
        es = [e for e in es if e.getparent().tag == 'Group']
        for lst in (gs, es):
            for _ in range(rng.choice([0, 1, 2]) if len(lst) > 1 else 0):
                a, b = rng.sample(lst, 2)
                for x in [b] + b.findall('History/Entry'):
                    x.find('UUID').text = a.findtext('UUID')
    if o.sparse or o.sparse is None and rng.random() < .2:
        thin(rng, root, rng.choice([.15, .5, 1]), use in ('none', 'dangling'), bool(bins), o.mark)
    d = sub(r, 'DeletedObjects')
    if o.unknown or rng.random() < .3:
        for _ in range(rng.randint(0, 2)):
            do = sub(d, 'DeletedObject')
            sub(do, 'UUID', base64.b64encode(rng.randbytes(16)).decode())
            sub(do, 'DeletionTime', enc_time(v4, instant(rng, False)))
    if o.unknown:
        junk(rng, r)
    return root, v4bins


def thin(rng, root, p, no_bin, has_bins, keep_strings=False):
    """programs leave out, or write empty, what they do not use"""
    def drop(el, tags, blank=()):
        for tag in tags:
            for x in el.findall(tag):
                if rng.random() < p:
                    if tag in blank and rng.random() < .5:
                        x.text = None
                    else:
                        x.getparent().remove(x)
    meta = root.find('Meta')
    tags = ['Generator', 'SettingsChanged', 'DatabaseName', 'DatabaseNameChanged', 'DatabaseDescription', 'DatabaseDescriptionChanged', 'DefaultUserName', 'DefaultUserNameChanged',
            'MaintenanceHistoryDays', 'Color', 'MasterKeyChanged', 'MasterKeyChangeRec', 'MasterKeyChangeForce', 'MemoryProtection', 'CustomIcons', 'RecycleBinEnabled', 'RecycleBinChanged',
            'EntryTemplatesGroup', 'HistoryMaxItems', 'HistoryMaxSize', 'LastSelectedGroup']
    if no_bin:
        tags.append('RecycleBinUUID')
    if not has_bins:
        tags.append('Binaries')
    drop(meta, tags, ('MasterKeyChanged', 'MasterKeyChangeRec', 'MasterKeyChangeForce', 'RecycleBinUUID', 'DatabaseName'))
    stamps = ['Times/' + x for x in ('CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime', 'Expires', 'UsageCount', 'LocationChanged')]
    for g in root.iter('Group'):
        drop(g, ['Notes', 'IconID', 'IsExpanded', 'DefaultAutoTypeSequence', 'EnableAutoType', 'LastTopVisibleEntry'] + stamps, stamps)
        if rng.random() < p / 3:
            drop(g, ['Times'])
    for e in root.iter('Entry'):
        drop(e, ['IconID', 'ForegroundColor', 'Tags', 'AutoType/Enabled', 'AutoType/DataTransferObfuscation', 'AutoType/DefaultSequence', 'AutoType/Association/Window'] + stamps, stamps)
        if rng.random() < p / 2:
            drop(e, ['AutoType'])
        if rng.random() < p / 3:
            drop(e, ['Times'])
        if not keep_strings:
            for s in e.findall('String'):
                if rng.random() < p / 4:
                    e.remove(s)


VERSIONS = [(4, 0), (4, 0), (4, 1), (3, 1), (3, 1), (3, 0)]


def config(rng, version=None, **kw):
    version = version or rng.choice(VERSIONS)
    c = dict(cipher=rng.choice(['aes256', 'aes256', 'chacha20', 'chacha20', 'twofish']), compressed=rng.random() < .6)
    if version[0] == 4:
        c['kdf'] = R.cheap_kdf(rng, rng.choice(['aeskdf', 'argon2', 'argon2id']))
        c['inner'] = rng.choice(['chacha20', 'chacha20', 'salsa20'])
        c['inner_order'] = rng.choice([0, 0, 1])
    else:
        c['kdf'] = R.cheap_kdf(rng, 'aeskdf')
        c['inner'] = rng.choice(['salsa20', 'salsa20', 'chacha20'])
    c.update(kw)
    return R.default_cfg(rng, version, **c)


def password(rng):
    return rng.choice(['password', '', 'p', 'pass word', 'p\xe4ss', '\U0001f511', '"quoted"', ' lead', 'trail ', 'line\n', '\nline', 'tab\t', 'p\r\n', 'PassWord', 'e\u0301', '\u212b', '\ufeffbom', 'soft\xadhyphen', 'x' * 300, ''.join(rng.choices('abc\xe9', k=rng.choice([63, 64, 65, 72, 73, 127, 128, 255, 256, 600, 1500, 5000]))), name(rng)])


def build(rng, o=None, cfg=None, version=None, pw='pw', keyfile=None, **cfgkw):
    """random database file -> (file bytes, cfg, root, binaries)"""
    cfg = cfg or config(rng, version, **cfgkw)
    root, bins = database(rng, cfg['version'], o)
    data = R.encode(cfg, root, password=pw, keyfile=keyfile, binaries=bins)
    return data, cfg, root, bins
