"""Content snapshots and the shadow model.

A snapshot is plain data; `from_root` extracts it from KeePass XML (reference decoder output, or the library's public
`tree`), `from_api` collects the same data through the public getters.  The shadow model is a tree of G / E objects that
the engine edits next to the real database; `Model.snap()` gives its snapshot.
"""
import base64
import struct
import uuid
from datetime import datetime, timedelta, timezone

from . import refkdbx as R

UTC = timezone.utc
EPOCH = datetime(1, 1, 1, tzinfo=UTC)
TIMES = {'ctime': 'CreationTime', 'mtime': 'LastModificationTime', 'atime': 'LastAccessTime', 'expiry_time': 'ExpiryTime'}
FIELDS = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}
RESERVED = {'Title', 'UserName', 'Password', 'URL', 'Tags', 'IconID', 'Times', 'History', 'Notes', 'otp'}


def dec_time(text):
    """instant denoted by a stored time (base64 or ISO form)"""
    if not text:
        return None
    try:
        raw = base64.b64decode(text, validate=True)
        if len(raw) == 8:
            return EPOCH + timedelta(seconds=struct.unpack('<Q', raw)[0])
    except Exception:
        pass
    t = datetime.fromisoformat(text.replace('Z', '+00:00'))
    return t.replace(tzinfo=UTC) if t.tzinfo is None else t.astimezone(UTC)


def _t(e, path):
    return e.findtext(path) or ''


def x_entry(el, hist=True):
    fields = {}
    for s in el.findall('String'):
        k, v = s.find('Key').text or '', s.find('Value')
        if k in fields:
            fields[k + '\0dup%d' % len(fields)] = (v.text or '', v.get('Protected') == 'True')
        else:
            fields[k] = (v.text or '', v.get('Protected') == 'True')
    win = el.find('AutoType/Association/Window')
    d = {'uuid': _t(el, 'UUID'), 'fields': fields, 'tags': _t(el, 'Tags'), 'icon': _t(el, 'IconID'),
         'expires': _t(el, 'Times/Expires'), 'times': {k: dec_time(el.findtext('Times/' + v)) for k, v in TIMES.items()},
         'auto': [_t(el, 'AutoType/Enabled'), _t(el, 'AutoType/DefaultSequence'), (win.text or '') if win is not None else ''],
         'att': [[b.findtext('Key') or '', int(b.find('Value').get('Ref'))] for b in el.findall('Binary')]}
    if hist:
        d['hist'] = [x_entry(h, False) for h in el.findall('History/Entry')]
        d['nested'] = len(el.findall('History/Entry/History'))and max(len(h.findall('History/Entry')) for h in el.findall('History/Entry'))
    return d


def x_group(el):
    return {'uuid': _t(el, 'UUID'), 'name': _t(el, 'Name'), 'notes': _t(el, 'Notes'), 'icon': _t(el, 'IconID'), 'expires': _t(el, 'Times/Expires'),
            'times': {k: dec_time(el.findtext('Times/' + v)) for k, v in TIMES.items()},
            'entries': [x_entry(e) for e in el.findall('Entry')], 'groups': [x_group(g) for g in el.findall('Group')]}


def x_meta(root):
    m = root.find('Meta')
    return {'name': _t(m, 'DatabaseName'), 'description': _t(m, 'DatabaseDescription'), 'user': _t(m, 'DefaultUserName'),
            'changed': dec_time(m.findtext('MasterKeyChanged')), 'force': _t(m, 'MasterKeyChangeForce'), 'rec': _t(m, 'MasterKeyChangeRec'),
            'recyclebin': _t(m, 'RecycleBinUUID')}


def from_root(root, binaries):
    """root: KeePassFile element (clear values); binaries: list of bytes by id"""
    tops = root.findall('Root/Group')
    d = {'root': x_group(tops[0]), 'ntop': len(tops), 'meta': x_meta(root), 'bins': list(binaries)}
    return d


def from_doc(doc):
    b = R.decoded_binaries(doc)
    if sorted(b) != list(range(len(b))):
        raise R.RefError('binary ids %r' % sorted(b))
    return from_root(doc.root, [b[i] for i in range(len(b))])


def from_tree(kp):
    return from_root(kp.tree.getroot(), kp.binaries)


# ------------------------------------------------------------------ through the API
def _s(v):
    return '' if v is None else v


def a_entry(e, hist=True):
    fields = {}
    for attr, key in FIELDS.items():
        fields[key] = _s(getattr(e, attr))
    for k, v in e.custom_properties.items():
        fields[k] = _s(v)
    prot = {k: e.is_custom_property_protected(k) for k in e.custom_properties}
    d = {'uuid': base64.b64encode(e.uuid.bytes).decode(), 'fields': fields, 'prot': prot, 'tags': e.tags, 'icon': _s(e.icon), 'expires': e.expires,
         'times': {k: getattr(e, k) for k in TIMES}, 'auto': [e.autotype_enabled, _s(e.autotype_sequence), _s(e.autotype_window)],
         'att': [[_s(a.filename), a.id, a.data] for a in e.attachments]}
    if hist:
        d['hist'] = [a_entry(h, False) for h in e.history]
    d['is_hist'] = e.is_a_history_entry
    return d


def a_group(g):
    return {'uuid': base64.b64encode(g.uuid.bytes).decode(), 'name': _s(g.name), 'notes': _s(g.notes), 'icon': _s(g.icon), 'expires': g.expires,
            'times': {k: getattr(g, k) for k in TIMES}, 'entries': [a_entry(e) for e in g.entries], 'groups': [a_group(s) for s in g.subgroups]}


def from_api(kp):
    rb = kp.recyclebin_group
    return {'root': a_group(kp.root_group),
            'meta': {'name': _s(kp.database_name), 'description': _s(kp.database_description), 'user': _s(kp.default_username),
                     'changed': kp.credchange_date, 'force': kp.credchange_required_days, 'rec': kp.credchange_recommended_days,
                     'recyclebin': None if rb is None else base64.b64encode(rb.uuid.bytes).decode()},
            'bins': kp.binaries}


# what the API must show for an extracted snapshot
def api_view_entry(d, bins, hist=True, is_hist=False):
    tags = d['tags'].replace(',', ';').split(';') if d['tags'] else []
    fields = {k: v[0] for k, v in d['fields'].items()}
    for key in FIELDS.values():
        fields.setdefault(key, '')
    out = {'uuid': d['uuid'], 'fields': fields, 'prot': {k: v[1] for k, v in d['fields'].items() if k not in RESERVED}, 'tags': tags, 'icon': d['icon'],
           'expires': None if d['expires'] == '' else d['expires'] == 'True', 'times': d['times'],
           'auto': [None if d['auto'][0] == '' else d['auto'][0] == 'True', d['auto'][1], d['auto'][2]],
           'att': [[f, i, bins[i] if 0 <= i < len(bins) else None] for f, i in d['att']], 'is_hist': is_hist}
    if hist:
        out['hist'] = [api_view_entry(h, bins, False, True) for h in d['hist']]
    return out


def api_view_group(d, bins):
    return {'uuid': d['uuid'], 'name': d['name'], 'notes': d['notes'], 'icon': d['icon'], 'expires': None if d['expires'] == '' else d['expires'] == 'True',
            'times': d['times'], 'entries': [api_view_entry(e, bins) for e in d['entries']], 'groups': [api_view_group(g, bins) for g in d['groups']]}


def api_view(s):
    uu = set()

    def walk(g):
        uu.add(g['uuid'])
        for x in g['groups']:
            walk(x)
    walk(s['root'])
    rb = s['meta']['recyclebin']
    m = dict(s['meta'], recyclebin=rb if rb in uu else None)
    for k in ('force', 'rec'):
        m[k] = None if m[k] == '' else int(m[k])
    return {'root': api_view_group(s['root'], s['bins']), 'meta': m, 'bins': s['bins']}


# ------------------------------------------------------------------ differences
def diff(exp, got, path=()):
    """-> list of (path, expected, got)"""
    if type(exp) is dict and type(got) is dict:
        out = []
        for k in exp:
            if k not in got:
                out.append((path + (k,), exp[k], '<absent>'))
            else:
                out += diff(exp[k], got[k], path + (k,))
        for k in got:
            if k not in exp:
                out.append((path + (k,), '<absent>', got[k]))
        return out
    if type(exp) is list and type(got) is list:
        if path and path[-1] in ('entries', 'groups', 'hist') and [x['uuid'] for x in exp] != [x['uuid'] for x in got]:
            same = len(exp) == len(got)
            return [(path + ('order' if same else 'number',), [short(x) for x in exp], [short(x) for x in got])]
        if len(exp) != len(got):
            return [(path + ('number',), exp, got)]
        out = []
        for i, (a, b) in enumerate(zip(exp, got)):
            out += diff(a, b, path + (i,))
        return out
    if type(exp) is tuple and type(got) is tuple and len(exp) == len(got):
        out = []
        for i, (a, b) in enumerate(zip(exp, got)):
            out += diff(a, b, path + (i,))
        return out
    if exp == got and type(exp) is type(got):
        return []
    return [(path, exp, got)]


def short(x):
    return (x['uuid'][:6], x['fields'].get('Title') if 'fields' in x else x.get('name'))


def category(path):
    names = [p for p in path if isinstance(p, str)]
    last = path[-1] if path else ''
    cats = set()
    if 'hist' in names or 'nested' in names:
        cats.add('hist')
    if 'att' in names:
        cats.add('att')
    if 'bins' in names:
        cats.add('bins')
    if 'times' in names:
        cats.add('times')
    if 'expires' in names:
        cats.add('expires')
    if 'uuid' in names:
        cats.add('uuid')
    if last == 'recyclebin':
        cats.add('recyclebin')
    elif 'meta' in names:
        cats.add('meta')
    if 'prot' in names or ('fields' in names and last == 1):
        cats.add('prot')
    if 'fields' in names and last != 1:
        cats.add('field')
    if last in ('order', 'number') and (names[-2:-1] and names[-2] in ('entries', 'groups')):
        cats.add('tree')
    if not cats:
        cats.add('field')
    return cats


def fmt(d):
    p, e, g = d
    return '%s: expected %.200r, got %.200r' % ('/'.join(map(str, p)), e, g)


# ------------------------------------------------------------------ shadow model
class Bin:
    flag = None         # protection flag byte (v4)

    def __init__(self, data):
        self.data = data


class E:
    parent = None
    h = None            # cached real object
    extra = None        # content without API, attached by the check for it

    def snap(self, m, hist=True):
        d = {'uuid': self.uuid, 'fields': dict(self.fields), 'tags': self.tags, 'icon': self.icon, 'expires': self.expires, 'times': dict(self.times),
             'auto': list(self.auto), 'att': [[f, m.bins.index(b)] for f, b in self.att]}
        if hist:
            d['hist'] = [x.snap(m, False) for x in self.hist]
            d['nested'] = 0
        return d

    def copy(self):
        c = E()
        c.uuid, c.fields, c.tags, c.icon, c.expires = self.uuid, dict(self.fields), self.tags, self.icon, self.expires
        c.times, c.auto, c.att, c.hist = dict(self.times), list(self.auto), [list(a) for a in self.att], []
        c.extra = self.extra
        return c

    def get(self, key):
        return self.fields.get(key, ('', False))[0]


class G:
    parent = None
    h = None
    extra = None

    def snap(self, m):
        return {'uuid': self.uuid, 'name': self.name, 'notes': self.notes, 'icon': self.icon, 'expires': self.expires, 'times': dict(self.times),
                'entries': [e.snap(m) for e in self.entries], 'groups': [g.snap(m) for g in self.groups]}

    def all_groups(self):
        yield self
        for g in self.groups:
            yield from g.all_groups()

    def all_entries(self):
        yield from self.entries
        for g in self.groups:
            yield from g.all_entries()

    def ancestors(self):
        g = self
        while g is not None:
            yield g
            g = g.parent


class Model:
    def __init__(self, snap):
        self.bins = [Bin(b) for b in snap['bins']]
        self.meta = dict(snap['meta'])
        self.root = self._g(snap['root'], None)

    def _g(self, d, parent):
        g = G()
        g.parent = parent
        for k in ('uuid', 'name', 'notes', 'icon', 'expires'):
            setattr(g, k, d[k])
        g.times = dict(d['times'])
        g.entries = [self._e(e, g) for e in d['entries']]
        g.groups = [self._g(x, g) for x in d['groups']]
        return g

    def _e(self, d, parent):
        e = E()
        e.parent = parent
        for k in ('uuid', 'tags', 'icon', 'expires'):
            setattr(e, k, d[k])
        e.times, e.fields, e.auto = dict(d['times']), dict(d['fields']), list(d['auto'])
        e.att = [[f, self.bins[i]] for f, i in d['att']]
        e.hist = [self._e(h, e) for h in d.get('hist', ())]
        return e

    def snap(self):
        return {'root': self.root.snap(self), 'ntop': 1, 'meta': dict(self.meta), 'bins': [b.data for b in self.bins]}

    def groups(self):
        return list(self.root.all_groups())

    def entries(self):
        return list(self.root.all_entries())

    def drop_handles(self):
        for g in self.groups():
            g.h = None
        for e in self.entries():
            e.h = None
            for h in e.hist:
                h.h = None
