"""Random operation sequences on a real database next to the shadow model, with a full comparison after every step."""
import base64
import io
import os
import traceback
import uuid
from datetime import datetime, timedelta, timezone

from lxml import etree

from . import gen, model as M, refkdbx as R
from .fw import Foreign, Violation, in_repo

UTC = timezone.utc
SLACK = timedelta(seconds=2)


def own_xml(element):
    """an entry without its history, canonically"""
    x = etree.fromstring(element.dump_xml())
    for h in x.findall('History'):
        x.remove(h)
    x.tail = None
    return R.canon(x)


def b64u(u):
    return base64.b64encode(u.bytes).decode()


# (property -> does it judge a difference of these categories seen after an operation of this kind?)
def judges(prop, kind, cats):
    if prop == '*':
        return True
    by_kind = {'C01': ('save', 'reopen', 'open', 'file'), 'C02': ('file', 'open', 'reopen'), 'C08': ('set', 'badset'), 'C09': ('tree',), 'C12': ('hist',), 'C13': ('bin',), 'C15': ('time',),
               'C16': ('trash',), 'C19': ('read',), 'C21': ('uuid',)}
    by_cat = {'C07': ('prot',), 'C12': ('hist',), 'C13': ('att', 'bins'), 'C15': ('times',), 'C16': ('recyclebin',), 'C21': ('uuid',), 'C23': ('meta',)}
    if kind in by_kind.get(prop, ()):
        return True
    return bool(set(cats) & set(by_cat.get(prop, ())))


def stored_as(want, got, v4):
    """KDBX4 keeps whole seconds (in floating point: the last microseconds of a second may count as the next one)"""
    want = want.astimezone(UTC)
    if not v4:
        return got == want
    return got == want.replace(microsecond=0) or (want.microsecond > 999900 and got == want.replace(microsecond=0) + timedelta(seconds=1))


class Engine:
    """prop: property id whose violations are raised ('*' for any)"""

    def __init__(self, ctx, rng, kp, snap, version, prop, pw=None, keyfile=None, scratch=None, texts=gen.text, names=gen.name, pyk=None, api=True):
        import pykeepass
        self.P = pykeepass
        self.ctx, self.rng, self.kp, self.prop, self.version = ctx, rng, kp, prop, version
        self.m = M.Model(snap)
        self.pw, self.keyfile, self.scratch = pw, keyfile, scratch
        self.texts, self.names = texts, names
        self.trace = []
        self.api = api
        self.v4 = version[0] >= 4
        self.th = 0
        self.known = set()          # every UUID seen in this database
        for x in self.m.groups() + self.m.entries():
            self.known.add(x.uuid)
        self.on_save = []
        self.saved = None
        self.atts = []              # (entry, item of its attachments, real attachment object held on to)
        self.outs = ['out.kdbx', 'out', 'o p.db', 'out.tmp', '\xfc\u4e2d.kdbx']     # file names for saves
        self.re_name = 're.kdbx'
        self.bulk = 0               # how much more than a few entries one operation may remove

    # ---- reporting
    def fail(self, kind, cats, msg):
        text = 'after %s: %s' % (self.trace[-1] if self.trace else 'opening', msg)
        if judges(self.prop, kind, cats):
            raise Violation(text, {'operations': self.trace[-60:], 'kind': kind, 'categories': sorted(cats)})
        raise Foreign(text)

    def note(self, kind, cats, msg):
        """a deviation seen in passing: for another property it ends nothing"""
        if judges(self.prop, kind, cats):
            self.fail(kind, cats, msg)
        self.ctx.count('foreign notes')

    def log(self, s):
        self.trace.append(s if len(s) < 400 else s[:400] + '...')

    # ---- real objects
    def real(self, node):
        if node.h is not None and self.rng.random() < .6:
            return node.h
        h = self._walk(node)
        node.h = h
        return h

    def _walk(self, node):
        if node is self.m.root:
            return self.kp.root_group
        p = node.parent
        if isinstance(node, M.G):
            return self._walk(p).subgroups[index(p.groups, node)]
        if isinstance(p, M.E):
            return self._walk(p).history[index(p.hist, node)]
        return self._walk(p).entries[index(p.entries, node)]

    # ---- comparison
    def compare(self, kind):
        exp = self.m.snap()
        self.th = hash((self.th, self.trace[-1] if self.trace else ''))
        self.ctx.eval((self.ctx.index, self.th), nontrivial=len(self.trace) > 1)
        got = M.from_tree(self.kp)
        d = M.diff(exp, got)
        if not d and self.api:
            d = M.diff(M.api_view(exp), M.from_api(self.kp))
        if not d:
            d = self.held(exp)
        if d:
            # prefer a difference the property judges
            for x in d:
                if judges(self.prop, kind, M.category(x[0])):
                    self.fail(kind, M.category(x[0]), M.fmt(x))
            self.fail(kind, M.category(d[0][0]), M.fmt(d[0]))

    def drop_handles(self):
        """the objects seen so far belong to a tree that is no longer the database"""
        self.m.drop_handles()
        self.atts = []

    def held(self, exp):
        """objects that the caller kept show the same as fresh ones"""
        nodes = [n for n in self.m.entries() + [h for e in self.m.entries() for h in e.hist] + self.m.groups() if n.h is not None]
        out = []
        for n in self.rng.sample(nodes, min(3, len(nodes))):
            if isinstance(n, M.E):
                hist = isinstance(n.parent, M.E)
                want = M.api_view_entry(n.snap(self.m, not hist), exp['bins'], not hist, hist)
                got = M.a_entry(n.h, not hist)
            else:
                want = {'name': n.name, 'notes': n.notes, 'icon': n.icon, 'expires': None if n.expires == '' else n.expires == 'True', 'times': n.times, 'uuid': n.uuid,
                        'e': [e.uuid for e in n.entries], 'g': [g.uuid for g in n.groups]}
                got = {'name': n.h.name or '', 'notes': n.h.notes or '', 'icon': n.h.icon or '', 'expires': n.h.expires, 'times': {k: getattr(n.h, k) for k in M.TIMES}, 'uuid': b64u(n.h.uuid),
                       'e': [b64u(e.uuid) for e in n.h.entries], 'g': [b64u(g.uuid) for g in n.h.subgroups]}
                if [want['e'], want['g']] != [got['e'], got['g']]:
                    return [(('held', 'groups', 'number'), want, got)]
            self.ctx.count('held objects')
            out += [(('held',) + x[0],) + x[1:] for x in M.diff(want, got)]
        if self.atts:
            es = {id(x) for e in self.m.entries() for x in [e] + e.hist}
            self.atts = [(e, it, a) for e, it, a in self.atts if id(e) in es and any(it is x for x in e.att)][-12:]
            for e, it, a in self.atts:
                want, got = [it[0], self.m.bins.index(it[1]), it[1].data], [a.filename or '', a.id, a.data]
                self.ctx.count('held attachments')
                if want != got:
                    out.append((('held', 'att'), want, got))
        return out

    def compare_file(self, data, kind='file', **cred):
        """decode with the independent reader and compare"""
        try:
            doc = R.decode(data, **(cred or dict(password=self.pw, keyfile=self.keyfile)))
            got = M.from_doc(doc)
        except Exception as e:
            self.fail(kind, {'file'}, 'the saved file is not valid: %r' % e)
        d = M.diff(self.m.snap(), got)
        for x in d:
            if judges(self.prop, kind, M.category(x[0])):
                self.fail(kind, M.category(x[0]), 'in the saved file: ' + M.fmt(x))
        if d:
            self.fail(kind, M.category(d[0][0]), 'in the saved file: ' + M.fmt(d[0]))
        return doc

    # ---- running
    def expect_raise(self, kind, fn, *types, what=''):
        try:
            fn()
        except Exception as e:
            if types and not isinstance(e, types):
                self.fail(kind, {'exc'}, '%s raised %r instead of %s' % (what, e, types[0].__name__))
            self.ctx.count('refusals')
            return True
        self.fail(kind, {'exc'}, '%s did not raise' % what)

    def step(self, ops):
        """one random operation from a weighted table [(weight, method name)]"""
        name = self.rng.choices([o for _, o in ops], [w for w, _ in ops])[0]
        kind = getattr(self, 'op_' + name)()
        if kind is None:
            self.ctx.count('skipped')
            return
        self.ctx.count('op:' + name)
        self.ctx.count('events')
        self.compare(kind)

    def run(self, ops, n):
        try:
            for _ in range(n):
                self.step(ops)
        finally:
            self.ctx.sample({'case': self.ctx.index, 'operations': self.trace[:14]})

    # ---- picking
    def entry(self):
        es = self.m.entries()
        return self.rng.choice(es) if es else None

    def group(self, root=True):
        gs = self.m.groups()
        if not root:
            gs = gs[1:]
        return self.rng.choice(gs) if gs else None

    def existing_or(self, f):
        return f(self.rng)

    def near(self, v, old, others=(), empty=True):
        """now and then a value related to the present one"""
        if self.texts is not gen.text or self.rng.random() > .15:
            return v
        n = gen.near(self.rng, old, others)
        if not n and not empty:
            return v
        self.ctx.count('related values')
        return n

    # ---- field assignments
    def op_set_field(self):
        e = self.entry()
        if e is None:
            return
        attr = self.rng.choice(list(M.FIELDS))
        v = self.texts(self.rng) if attr != 'title' else self.names(self.rng)
        key = M.FIELDS[attr]
        v = self.near(v, e.get(key), [f[0] for f in e.fields.values()], attr != 'title')
        if self.rng.random() < .05:
            v = ''
        self.log('entry.%s = %r' % (attr, v))
        r = self.real(e)
        setattr(r, attr, v)
        old, prot = e.fields.get(key, ('', False))
        if attr in ('password', 'otp') and not old:
            prot = True
        e.fields[key] = (v, prot)
        got = getattr(r, attr)
        if (got or '') != v:
            self.note('set', {'field'}, '%s reads back %r' % (attr, got))
        return 'set'

    def op_refill(self):
        """empty a field and set it again, preferring protected ones"""
        es = [x for e in self.m.entries() for x in [e] + e.hist]
        if not es:
            return
        c = [(x, a) for x in es for a, k in M.FIELDS.items() if k in x.fields and x.fields[k][1]]
        e, attr = self.rng.choice(c) if c and self.rng.random() < .8 else (self.rng.choice(es), self.rng.choice(list(M.FIELDS)))
        key = M.FIELDS[attr]
        r = self.real(e)
        for v in ['', self.texts(self.rng)] if self.rng.random() < .8 else [self.texts(self.rng), '', '', self.texts(self.rng)]:
            self.log('entry.%s = %r' % (attr, v))
            setattr(r, attr, v)
            old, prot = e.fields.get(key, ('', False))
            if attr in ('password', 'otp') and not old:
                prot = True
            e.fields[key] = (v, prot)
            if self.rng.random() < .3:
                self.compare('set')
        self.ctx.count('emptied and set again')
        return 'set'

    def op_set_hist(self):
        """assign a field of a history entry"""
        es = [h for e in self.m.entries() for h in e.hist]
        if not es:
            return
        h = self.rng.choice(es)
        attr = self.rng.choice(list(M.FIELDS))
        v = self.texts(self.rng)
        self.log('history entry.%s = %r' % (attr, v))
        r = self.real(h)
        setattr(r, attr, v)
        key = M.FIELDS[attr]
        old, prot = h.fields.get(key, ('', False))
        if attr in ('password', 'otp') and not old:
            prot = True
        h.fields[key] = (v, prot)
        return 'set'

    def op_set_tags(self):
        e = self.entry()
        if e is None:
            return
        tags = [gen.tag(self.rng) for _ in range(self.rng.choice([0, 1, 2, 3, 5]))]
        if e.tags and ',' not in e.tags and self.rng.random() < .25:
            tags = e.tags.split(';')
            k = self.rng.randrange(6)
            if k == 0:
                tags.reverse()
            elif k == 1:
                tags = [t.swapcase() for t in tags]
            elif k == 2:
                tags.append(self.rng.choice(tags))
            elif k == 3:
                tags.pop()
            elif k == 4:
                tags.insert(0, gen.tag(self.rng))
            tags = [t for t in tags if t]
        as_str = self.rng.random() < .3
        v = self.rng.choice([';', ';', ',']).join(tags) if as_str else tags
        self.log('entry.tags = %r' % (v,))
        r = self.real(e)
        r.tags = v
        e.tags = ';'.join(tags)
        if as_str and ',' in v:
            # the separator that is stored is the library's choice
            e.tags = etree.fromstring(r.dump_xml()).findtext('Tags') or ''
            if e.tags.replace(',', ';') != v.replace(',', ';'):
                self.note('set', {'field'}, 'tags are stored as %r' % e.tags)
        if r.tags != tags:
            self.note('set', {'field'}, 'tags read back %r' % (r.tags,))
        return 'set'

    def op_set_icon(self):
        x = self.entry() if self.rng.random() < .6 else self.group()
        if x is None:
            return
        v = str(self.rng.randint(0, 68))
        self.log('%s.icon = %r' % (type(x).__name__, v))
        self.real(x).icon = v
        x.icon = v
        return 'set'

    def op_set_auto(self):
        e = self.entry()
        if e is None:
            return
        r = self.real(e)
        i = self.rng.randrange(3)
        if i == 0:
            v = self.rng.choice([True, False, None])
            self.log('entry.autotype_enabled = %r' % v)
            r.autotype_enabled = v
            e.auto[0] = '' if v is None else str(v)
            return 'set'
        v = self.near(self.texts(self.rng), e.auto[i], e.auto[1:]) if self.rng.random() < .9 else None
        if i == 1:
            self.log('entry.autotype_sequence = %r' % v)
            r.autotype_sequence = v
        else:
            self.log('entry.autotype_window = %r' % v)
            r.autotype_window = v
        e.auto[i] = v or ''
        return 'set'

    def op_set_prop(self):
        e = self.entry()
        if e is None:
            return
        own = [k for k in e.fields if k not in M.RESERVED and not k.startswith('zz-frozen')]
        key = self.rng.choice(own) if own and self.rng.random() < .5 else gen.propkey(self.rng)
        if own and self.texts is gen.text and self.rng.random() < .1:
            # a key that differs from another one in case or white space
            key = gen.near(self.rng, self.rng.choice(own))
            if not key or key in M.RESERVED or key in gen.RESERVED or key.startswith('zz-frozen'):
                key = gen.propkey(self.rng)
        v, p = self.near(self.texts(self.rng), e.get(key) if key in e.fields else '', [f[0] for f in e.fields.values()]), self.rng.random() < .5
        kw = {'protect': p}
        if not p and self.rng.random() < .4:
            kw = {}
        self.log('entry.set_custom_property(%r, %r, %r)' % (key, v, kw))
        r = self.real(e)
        r.set_custom_property(key, v, **kw)
        e.fields.pop(key, None)
        e.fields[key] = (v, p)
        if (r.get_custom_property(key) or '') != v:
            self.note('set', {'field'}, 'property reads back %r' % r.get_custom_property(key))
        return 'set'

    def op_del_prop(self):
        e = self.entry()
        if e is None:
            return
        own = [k for k in e.fields if k not in M.RESERVED and not k.startswith('zz-frozen')]
        r = self.real(e)
        if not own or self.rng.random() < .1:
            k = gen.propkey(self.rng)
            if k in e.fields:
                return
            self.log('entry.delete_custom_property(%r) (absent)' % k)
            self.expect_raise('set', lambda: r.delete_custom_property(k), AttributeError, what='deleting an absent property')
            return 'set'
        k = self.rng.choice(own)
        self.log('entry.delete_custom_property(%r)' % k)
        r.delete_custom_property(k)
        del e.fields[k]
        return 'set'

    def op_set_group(self):
        g = self.group()
        attr = self.rng.choice(['name', 'notes'])
        v = self.names(self.rng) if attr == 'name' else self.texts(self.rng)
        if self.names is gen.name:
            v = self.near(v, getattr(g, attr), [g.name, g.notes], attr != 'name')
        self.log('group.%s = %r' % (attr, v))
        r = self.real(g)
        setattr(r, attr, v)
        setattr(g, attr, v)
        if (getattr(r, attr) or '') != v:
            self.note('set', {'field'}, 'group %s reads back %r' % (attr, getattr(r, attr)))
        return 'set'

    def op_set_expires(self):
        x = self.entry() if self.rng.random() < .6 else self.group()
        if x is None:
            return
        v = self.rng.choice([True, False, True, False, 1, 0])
        self.log('%s.expires = %r' % (type(x).__name__, v))
        r = self.real(x)
        r.expires = v
        x.expires = str(bool(v))
        if r.expires != v:
            self.note('set', {'field'}, 'expires reads back %r' % r.expires)
        return 'set'

    def op_set_meta(self):
        attr, k = self.rng.choice([('database_name', 'name'), ('database_description', 'description'), ('default_username', 'user')])
        v = self.near(self.texts(self.rng), self.m.meta.get(k), [self.m.meta.get(x) for x in ('name', 'description', 'user')])
        self.log('kp.%s = %r' % (attr, v))
        setattr(self.kp, attr, v)
        self.m.meta[k] = v
        return 'set'

    def op_set_days(self):
        attr, k = self.rng.choice([('credchange_required_days', 'force'), ('credchange_recommended_days', 'rec')])
        v = self.rng.choice([-1, 0, 1, 7, 182, 36500])
        self.log('kp.%s = %r' % (attr, v))
        setattr(self.kp, attr, v)
        self.m.meta[k] = str(v)
        return 'set'

    def op_bad_set(self):
        """assignments that cannot be represented; they must raise and change nothing"""
        rng = self.rng
        e, g = self.entry(), self.group()
        bad = rng.choice(gen.INVALID_TEXTS)
        if rng.random() < .3:
            bad = rng.choice(['prefix ', '']) + bad + 'suffix'
        targets = [('group.name', lambda: setattr(self.real(g), 'name', bad)), ('group.notes', lambda: setattr(self.real(g), 'notes', bad)),
                   ('group.icon', lambda: setattr(self.real(g), 'icon', bad)),
                   ('kp.database_name', lambda: setattr(self.kp, 'database_name', bad)), ('kp.database_description', lambda: setattr(self.kp, 'database_description', bad)),
                   ('kp.default_username', lambda: setattr(self.kp, 'default_username', bad))]
        if e is not None:
            r = self.real(e)
            for a in M.FIELDS:
                targets.append(('entry.' + a, lambda a=a: setattr(r, a, bad)))
                targets.append(('entry.%s type' % a, lambda a=a: setattr(r, a, rng.choice([None, 5, object()]))))
            targets += [('entry.tags', lambda: setattr(r, 'tags', ['ok', bad])), ('entry.icon', lambda: setattr(r, 'icon', bad)),
                        ('entry.icon type', lambda: setattr(r, 'icon', rng.choice([None, 7]))), ('entry.tags type', lambda: setattr(r, 'tags', [1, 2])),
                        ('entry.autotype_sequence', lambda: setattr(r, 'autotype_sequence', bad)),
                        ('entry.set_custom_property', lambda: r.set_custom_property('k1', bad)), ('entry.set_custom_property key', lambda: r.set_custom_property('k' + bad, 'v')),
                        ('entry.set_custom_property type', lambda: r.set_custom_property('k1', None, protect=True)),
                        ('entry.set_custom_property reserved', lambda: r.set_custom_property(rng.choice(sorted(gen.RESERVED)), 'v'))]
            targets += [('entry.delete_custom_property reserved', lambda: r.delete_custom_property(rng.choice(sorted(set(e.fields) & set(M.RESERVED)) or ['Title'])))] * 3
            own = [k for k in e.fields if k not in M.RESERVED and not k.startswith('zz-frozen')]
            if own:
                k = rng.choice(own)
                targets += [('entry.set_custom_property own', lambda: r.set_custom_property(k, bad, protect=rng.choice([True, False])))] * 3
            targets.append(('entry.autotype_window', lambda: setattr(r, 'autotype_window', bad)))
            if e.att:
                i = rng.randrange(len(e.att))
                targets.append(('attachment.filename', lambda: setattr(r.attachments[i], 'filename', bad)))
        what, fn = rng.choice(targets)
        self.log('%s = invalid %r' % (what, bad))
        self.expect_raise('set', fn, what=what)
        return 'badset'

    # ---- tree
    def _new(self, node, real, t0, kind, expiry=False):
        """take over UUID and times of a created element, checking them"""
        t1 = datetime.now(UTC)
        u = b64u(real.uuid)
        if u in self.known:
            self.note('uuid', {'uuid'}, 'the new element has a UUID that is or was in use: %s' % u)
        self.known.add(u)
        node.uuid = u
        node.times = {}
        for k in M.TIMES:
            v = getattr(real, k)
            if not (t0 - SLACK <= v <= t1 + SLACK) and not (expiry and k == 'expiry_time'):
                self.note('time', {'times'}, '%s of the new element is %s at %s' % (k, v, t1))
            node.times[k] = v
        node.h = real

    def op_add_group(self):
        dest = self.group()
        nm = self.names(self.rng)
        icon = str(self.rng.randint(0, 68)) if self.rng.random() < .4 else None
        notes = self.texts(self.rng) if self.rng.random() < .4 else None
        self.log('add_group(%r, icon=%r, notes=%r)' % (nm, icon, notes))
        t0 = datetime.now(UTC)
        r = self.kp.add_group(self.real(dest), nm, icon=icon, notes=notes)
        g = M.G()
        g.parent, g.name, g.notes, g.icon, g.expires, g.entries, g.groups = dest, nm, notes or '', icon or '', 'False', [], []
        self._new(g, r, t0, 'tree')
        dest.groups.append(g)
        return 'tree'

    def op_add_entry(self):
        rng = self.rng
        dest = self.group()
        title, user = self.names(rng), self.texts(rng)
        if dest.entries and rng.random() < .25:
            o = rng.choice(dest.entries)
            title = o.get('Title')
            user = o.get('UserName') if rng.random() < .6 else user
        pw = self.texts(rng)
        if rng.random() < .05:
            title, user, pw = rng.choice([(None, user, pw), (title, None, pw), (title, user, None), (None, None, None)])
        kw = {}
        if rng.random() < .4:
            kw['url'] = self.texts(rng)
        if rng.random() < .4:
            kw['notes'] = self.texts(rng)
        if rng.random() < .3:
            kw['otp'] = 'otpauth://totp/' + self.names(rng)
        if rng.random() < .3:
            kw['tags'] = [gen.tag(rng) for _ in range(rng.randint(1, 3))]
        if rng.random() < .3:
            kw['icon'] = str(rng.randint(0, 68))
        if rng.random() < .3:
            kw['expiry_time'] = gen.instant(rng)
        direct = rng.random() < .12
        force = direct or rng.random() < .3
        auto = ['True', '', '']
        dup = any((x.get('Title'), x.get('UserName')) == (title or '', user or '') for x in dest.entries)
        rd = self.real(dest)
        make = lambda: self.kp.add_entry(rd, title, user, pw, **kw)
        expires = 'expiry_time' in kw
        if direct:
            # an entry object of one's own, appended to a group
            more = {}
            if rng.random() < .5:
                more['expires'] = expires = rng.random() < .5
            else:
                expires = False
            for i, k in enumerate(('autotype_enabled', 'autotype_sequence', 'autotype_window')):
                if rng.random() < .5:
                    more[k] = rng.random() < .5 if i == 0 else self.texts(rng)
                    auto[i] = str(more[k])
            from pykeepass.entry import Entry

            def make():
                x = Entry(title=title, username=user, password=pw, kp=self.kp, **more, **kw)
                rd.append(x)
                return x
            self.ctx.count('entry objects appended')
            self.log('append(Entry(%r, %r, %r, %r, %r))' % (title, user, pw, kw, more))
        else:
            if force:
                kw['force_creation'] = True
            self.log('add_entry(%r, %r, %r, %r)%s' % (title, user, pw, kw, ' (exists)' if dup else ''))
        if dup and not force:
            self.expect_raise('tree', lambda: self.kp.add_entry(rd, title, user, pw, **kw), what='adding an existing entry')
            return 'tree'
        t0 = datetime.now(UTC)
        r = make()
        e = M.E()
        e.parent = dest
        e.fields = {'Title': (title or '', False), 'UserName': (user or '', False), 'Password': (pw or '', True)}
        for k in ('url', 'notes', 'otp'):
            if kw.get(k):
                e.fields[M.FIELDS[k]] = (kw[k], k == 'otp')
        e.tags, e.icon, e.auto, e.att, e.hist = ';'.join(kw.get('tags', [])), kw.get('icon', ''), auto, [], []
        e.expires = str(expires)
        self._new(e, r, t0, 'tree', expiry='expiry_time' in kw)
        if 'expiry_time' in kw:
            self._instant('expiry_time', kw['expiry_time'], e.times['expiry_time'])
        dest.entries.append(e)
        return 'tree'

    def _instant(self, attr, want, got):
        if got is None or got.utcoffset() != timedelta(0):
            self.note('time', {'times'}, '%s reads as %r, which is not in UTC' % (attr, got))
        want = want.astimezone(UTC)
        if not stored_as(want, got, self.v4):
            self.note('time', {'times'}, '%s set to %s reads as %s' % (attr, want, got))

    def op_move_entry(self):
        e = self.entry()
        if e is None:
            return
        dest = self.group()
        self.log('move_entry %r -> %r' % (e.get('Title'), dest.name))
        if self.rng.random() < .7:
            self.kp.move_entry(self.real(e), self.real(dest))
        else:
            self.real(dest).append(self.real(e))
        self._detach(e)
        e.parent = dest
        dest.entries.append(e)
        return 'tree'

    def op_move_list(self):
        es = self.m.entries()
        if len(es) < 2:
            return
        sel = self.rng.sample(es, min(len(es), self.rng.randint(2, 4)))
        dest = self.group()
        self.log('append(list of %d entries) -> %r' % (len(sel), dest.name))
        self.real(dest).append([self.real(e) for e in sel])
        for e in sel:
            self._detach(e)
            e.parent = dest
            dest.entries.append(e)
        return 'tree'

    def _detach(self, x):
        lst = x.parent.entries if isinstance(x, M.E) else x.parent.groups
        del lst[index(lst, x)]

    def op_move_group(self):
        g = self.group(root=False)
        if g is None:
            return
        dest = self.group()
        self.log('move_group %r -> %r' % (g.name, dest.name))
        if g in dest.ancestors():
            self.expect_raise('tree', lambda: self.kp.move_group(self.real(g), self.real(dest)), what='moving a group into itself')
            return 'tree'
        self.kp.move_group(self.real(g), self.real(dest))
        self._detach(g)
        g.parent = dest
        dest.groups.append(g)
        return 'tree'

    def op_move_root(self):
        dest = self.group()
        self.log('move_group root -> %r' % dest.name)
        self.expect_raise('tree', lambda: self.kp.move_group(self.kp.root_group, self.real(dest)), what='moving the root group')
        return 'tree'

    def op_delete_entry(self):
        e = self.entry()
        if e is None:
            return
        self.log('delete_entry %r' % e.get('Title'))
        r = self.real(e)
        if self.rng.random() < .6:
            self.kp.delete_entry(r)
        else:
            r.delete()
        self._detach(e)
        return 'tree'

    def op_delete_group(self):
        g = self.group(root=False)
        if g is None or len(list(g.all_entries())) > self.bulk + 6:
            return
        self.log('delete_group %r' % g.name)
        r = self.real(g)
        if self.rng.random() < .6:
            self.kp.delete_group(r)
        else:
            r.delete()
        self._detach(g)
        return 'tree'

    def op_empty_group(self):
        g = self.group()
        if len(list(g.all_entries())) > self.bulk + 5:
            return
        self.log('empty_group %r' % g.name)
        self.kp.empty_group(self.real(g))
        g.entries, g.groups = [], []
        return 'tree'

    def op_reindex(self):
        e = self.entry()
        if e is None:
            return
        n = len(e.parent.entries)
        i = self.rng.randrange(n)
        self.log('reindex %r from %d to %d of %d' % (e.get('Title'), index(e.parent.entries, e), i, n))
        r = self.real(e)
        r.reindex(i)
        lst = e.parent.entries
        del lst[index(lst, e)]
        lst.insert(i, e)
        if r.index != i:
            self.note('tree', {'tree'}, 'index is %r' % r.index)
        return 'tree'

    def op_index(self):
        """index of every entry"""
        self.log('index')
        for g in self.m.groups():
            for i, e in enumerate(g.entries):
                if self._walk(e).index != i:
                    self.note('tree', {'tree'}, 'entry %d has index %r' % (i, self._walk(e).index))
        return 'read'

    # ---- recycle bin
    def binnode(self):
        for g in self.m.groups():
            if g.uuid == self.m.meta['recyclebin']:
                return g

    def op_trash(self):
        x = self.entry() if self.rng.random() < .5 else self.group()
        if x is None:
            return
        rb = self.binnode()
        if self.rng.random() < .15 and rb is not None:
            x = self.rng.choice(list(rb.ancestors()))
        is_e = isinstance(x, M.E)
        fn = self.kp.trash_entry if is_e else self.kp.trash_group
        self.log('trash %s %r%s' % ('entry' if is_e else 'group', x.get('Title') if is_e else x.name, '' if rb else ' (no bin)'))
        r = self.real(x)
        if not is_e and (x is self.m.root or x is rb):
            self.expect_raise('trash', lambda: fn(r), self.P.exceptions.UnableToSendToRecycleBin, what='trashing the root group or the bin')
            return 'trash'
        if not is_e and rb is not None and x in rb.ancestors():
            self.expect_raise('trash', lambda: fn(r), what='trashing a group that contains the bin')
            return 'trash'
        t0 = datetime.now(UTC)
        fn(r)
        if rb is None:
            real = self.kp.recyclebin_group
            if real is None:
                self.fail('trash', {'tree'}, 'no recycle bin is registered')
            rb = M.G()
            rb.parent, rb.name, rb.notes, rb.icon, rb.expires, rb.entries, rb.groups = self.m.root, 'Recycle Bin', '', '', 'False', [], []
            # name, icon and notes of a new bin are the library's choice
            rb.name, rb.notes, rb.icon = real.name or '', real.notes or '', real.icon or ''
            self._new(rb, real, t0, 'trash')
            self.m.root.groups.append(rb)
            self.m.meta['recyclebin'] = rb.uuid
            self.ctx.count('bins created')
        self._detach(x)
        x.parent = rb
        (rb.entries if is_e else rb.groups).append(x)
        return 'trash'

    def op_empty_bin(self):
        rb = self.binnode()
        if rb is None:
            return
        self.log('empty the recycle bin')
        self.kp.empty_group(self.kp.recyclebin_group)
        rb.entries, rb.groups = [], []
        return 'trash'

    def op_delete_bin(self):
        rb = self.binnode()
        if rb is None or rb is self.m.root or len(list(rb.all_entries())) > self.bulk + 4:
            return
        self.log('delete the recycle bin group')
        self.kp.delete_group(self.kp.recyclebin_group)
        self._detach(rb)
        return 'trash'

    # ---- history
    def op_save_history(self):
        e = self.entry()
        if e is None:
            return
        self.log('save_history %r' % e.get('Title'))
        r = self.real(e)
        before = own_xml(r)
        r.save_history()
        if own_xml(r) != before:
            self.note('hist', {'hist'}, 'save_history changed the entry itself')
        last = self._walk(e).history[-1]
        if own_xml(last) != before or etree.fromstring(last.dump_xml()).find('History') is not None:
            self.note('hist', {'hist'}, 'the new history entry is not a copy of the entry: %.600r' % last.dump_xml())
        self.ctx.count('exact snapshots')
        c = e.copy()
        c.parent = e
        e.hist.append(c)
        return 'hist'

    def op_delete_history(self):
        es = [e for e in self.m.entries() if e.hist]
        x = self.entry()
        if x is not None and self.rng.random() < .15:
            if not x.hist:
                self.log('delete_history(all=True), none')
                self.real(x).delete_history(all=True)
                self.ctx.count('no history deleted')
                return 'hist'
            es2 = [e for e in es if e is not x]
            if es2:
                h = self.rng.choice(self.rng.choice(es2).hist)
                self.log("delete_history of another entry's history")
                rh = self.real(h)
                self.expect_raise('hist', lambda: self.real(x).delete_history(rh), what='deleting the history of another entry')
                self.ctx.count('foreign history refused')
                return 'hist'
        if not es:
            return
        e = self.rng.choice(es)
        r = self.real(e)
        if self.rng.random() < .25:
            self.log('delete_history(all=True) %d' % len(e.hist))
            r.delete_history(all=True)
            e.hist = []
        else:
            i = self.rng.randrange(len(e.hist))
            self.log('delete_history(%d of %d)' % (i, len(e.hist)))
            r.delete_history(r.history[i])
            del e.hist[i]
        return 'hist'

    # ---- binaries
    def op_add_binary(self):
        data = gen.blob(self.rng, self.v4 and self.rng.random() < .06 and all(len(b.data) < 60000 for b in self.m.bins))
        kw = {}
        if self.rng.random() < .5:
            kw = {'compressed': self.rng.random() < .5, 'protected': self.rng.random() < .5}
        self.log('add_binary(%d bytes, %r)' % (len(data), kw))
        i = self.kp.add_binary(data, **kw)
        self.m.bins.append(M.Bin(data))
        self.m.bins[-1].flag = int(kw.get('protected', True)) if self.v4 else None
        if i != len(self.m.bins) - 1:
            self.note('bin', {'bins'}, 'add_binary returned %r, expected %d' % (i, len(self.m.bins) - 1))
        if self.rng.random() < .6:
            self.compare('bin')
            self.op_attach(i)
        return 'bin'

    def op_attach(self, i=None):
        e = self.entry()
        if e is None or not self.m.bins:
            return
        if i is None:
            i = self.rng.randrange(len(self.m.bins))
        fn = self.names(self.rng) if self.prop not in ('C13', 'C01') or self.rng.random() > .06 else ''
        self.log('add_attachment(%d, %r)' % (i, fn))
        a = self.real(e).add_attachment(i, fn)
        e.att.append([fn, self.m.bins[i]])
        self.atts.append((e, e.att[-1], a))
        if a.id != i or a.filename != fn or a.data != self.m.bins[i].data or a.binary != a.data or b64u(a.entry.uuid) != e.uuid:
            self.note('bin', {'att'}, 'the new attachment reports %r, %r' % (a.id, a.filename))
        return 'bin'

    def op_detach(self):
        es = [e for e in self.m.entries() if e.att]
        if not es:
            return
        e = self.rng.choice(es)
        i = self.rng.randrange(len(e.att))
        r = self.real(e)
        a = r.attachments[i]
        self.log('delete attachment %d of %d' % (i, len(e.att)))
        if self.rng.random() < .5:
            r.delete_attachment(a)
        else:
            a.delete()
        del e.att[i]
        return 'bin'

    def op_rename_att(self):
        es = [e for e in self.m.entries() if e.att]
        if not es:
            return
        e = self.rng.choice(es)
        i = self.rng.randrange(len(e.att))
        fn = self.names(self.rng) if self.prop not in ('C13', 'C01') or self.rng.random() > .06 else ''
        self.log('attachment %d .filename = %r' % (i, fn))
        a = self.real(e).attachments[i]
        a.filename = fn
        e.att[i][0] = fn
        self.atts.append((e, e.att[i], a))
        return 'bin'

    def op_repoint_att(self):
        es = [e for e in self.m.entries() if e.att]
        if not es:
            return
        e = self.rng.choice(es)
        i, j = self.rng.randrange(len(e.att)), self.rng.randrange(len(self.m.bins))
        self.log('attachment %d .id = %d' % (i, j))
        a = self.real(e).attachments[i]
        self.atts.append((e, e.att[i], a))
        a.id = j
        e.att[i][1] = self.m.bins[j]
        return 'bin'

    def op_delete_binary(self):
        n = len(self.m.bins)
        if n == 0 or self.rng.random() < .15:
            i = self.rng.choice([n, n + 1, -1, -n - 1, 10 ** 9])
            self.log('delete_binary(%d) of %d' % (i, n))
            self.expect_raise('bin', lambda: self.kp.delete_binary(i), self.P.exceptions.BinaryError, what='deleting an absent binary')
            return 'bin'
        i = self.rng.randrange(n)
        b = self.m.bins[i]
        self.log('delete_binary(%d) of %d' % (i, n))
        self.kp.delete_binary(i)
        del self.m.bins[i]
        for e in self.m.entries():
            for x in [e] + e.hist:
                x.att = [a for a in x.att if a[1] is not b]
        return 'bin'

    def op_swap_binary(self):
        """delete a binary and add another one of the same length at once"""
        n = len(self.m.bins)
        if n == 0:
            return
        i = self.rng.randrange(n)
        b = self.m.bins[i]
        data = self.rng.randbytes(len(b.data))
        self.log('delete_binary(%d) of %d; add_binary' % (i, n))
        self.kp.delete_binary(i)
        j = self.kp.add_binary(data)
        del self.m.bins[i]
        for e in self.m.entries():
            for x in [e] + e.hist:
                x.att = [a for a in x.att if a[1] is not b]
        self.m.bins.append(M.Bin(data))
        self.m.bins[-1].flag = 1 if self.v4 else None
        if j != n - 1:
            self.note('bin', {'bins'}, 'add_binary returned %r, expected %d' % (j, n - 1))
        return 'bin'

    # ---- times
    def op_set_time(self):
        x = self.entry() if self.rng.random() < .6 else self.group()
        if x is None:
            return
        attr = self.rng.choice(list(M.TIMES))
        t = gen.instant(self.rng)
        self.log('%s.%s = %r' % (type(x).__name__, attr, t))
        r = self.real(x)
        setattr(r, attr, t)
        got = getattr(r, attr)
        self._instant(attr, t, got)
        x.times[attr] = got
        return 'time'

    def op_touch(self):
        x = self.entry() if self.rng.random() < .6 else self.group()
        if x is None:
            return
        mod = self.rng.random() < .5
        self.log('touch(modify=%r)' % mod)
        r = self.real(x)
        t0 = datetime.now(UTC)
        r.touch(modify=mod) if mod or self.rng.random() < .5 else r.touch()
        t1 = datetime.now(UTC)
        for k in ['atime'] + ['mtime'] * mod:
            v = getattr(r, k)
            if not t0 - SLACK <= v <= t1 + SLACK:
                self.note('time', {'times'}, '%s is %s at %s' % (k, v, t1))
            x.times[k] = v
        return 'time'

    def op_expired(self):
        x = self.entry() if self.rng.random() < .6 else self.group()
        if x is None:
            return
        r = self.real(x)
        now = datetime.now(UTC)
        t = x.times['expiry_time']
        if t is not None and abs(t - now) < timedelta(seconds=30):
            return
        self.log('expired')
        want = x.expires == 'True' and t is not None and t < now
        if r.expired is not want:
            self.note('time', {'times'}, 'expired is %r, expires %s, expiry %s' % (r.expired, x.expires, t))
        return 'time'

    # ---- identity
    def op_set_uuid(self):
        x = self.entry() if self.rng.random() < .6 else self.group()
        if x is None:
            return
        u = gen.new_uuid(self.rng)
        if self.rng.random() < .4:
            # close to another one; the second kind has the same hash
            n = uuid.UUID(bytes=base64.b64decode(self.rng.choice(self.m.groups() + self.m.entries()).uuid)).int
            n = self.rng.choice([n ^ (1 << self.rng.randrange(128)), (n + (2 ** 61 - 1) * self.rng.randint(1, 9)) % (1 << 128), (n + (2 ** 61 - 1)) % (1 << 128), n ^ (self.rng.getrandbits(64) << 64), n ^ self.rng.getrandbits(64)])
            if b64u(uuid.UUID(int=n)) not in self.known:
                u = uuid.UUID(int=n)
                self.ctx.count('similar UUIDs')
        self.log('uuid = %s' % u)
        r = self.real(x)
        was_bin = x.uuid == self.m.meta['recyclebin']
        if was_bin:
            return
        r.uuid = u
        x.uuid = b64u(u)
        self.known.add(x.uuid)
        if r.uuid != u:
            self.note('uuid', {'uuid'}, 'reads back %s' % r.uuid)
        return 'uuid'

    # ---- reading
    def op_read(self):
        rng = self.rng
        kp = self.kp
        e, g = self.entry(), self.group()
        r = self.real(e) if e is not None else None
        rg = self.real(g)
        acts = [lambda: kp.entries, lambda: kp.groups, lambda: kp.attachments, lambda: kp.xml(), lambda: repr(rg), lambda: str(kp.groups), lambda: rg.path,
                lambda: kp.find_entries(title=self.names(rng)), lambda: kp.find_entries(title='.*', regex=True, flags='i', history=True),
                lambda: kp.find_groups(name=self.names(rng)), lambda: kp.find_attachments(filename='.', regex=True, history=True), lambda: kp.recyclebin_group,
                lambda: kp.find_groups(path=[self.names(rng)]), lambda: kp.find_entries(path=[self.names(rng), self.names(rng)]), lambda: kp.credchange_required,
                lambda: rg.dump_xml(pretty_print=rng.random() < .5), lambda: rg == kp.root_group, lambda: hash(rg), lambda: kp.binaries, lambda: rg.expired,
                lambda: kp.version and kp.encryption_algorithm and kp.kdf_algorithm and kp.database_salt, lambda: kp.deref(self.texts(rng)),
                lambda: kp.find_entries(tags=[gen.tag(rng)]), lambda: rg.is_root_group, lambda: rg.parentgroup, lambda: kp.tree, lambda: kp.transformed_key]
        if e is not None:
            acts += [lambda: repr(r), lambda: r.path, lambda: r.parentgroup, lambda: r.history and repr(r.history), lambda: r.attachments and repr(r.attachments),
                     lambda: r.custom_properties, lambda: r.deref('title'), lambda: r.ref('password'), lambda: r.dump_xml(), lambda: hash(r), lambda: r == kp.entries[0],
                     lambda: r.get_custom_property('nope'), lambda: r.index, lambda: r.expired, lambda: r.tags, lambda: kp.deref(r.ref('title')),
                     lambda: kp.find_entries(uuid=r.uuid, first=True), lambda: [a.data for a in r.attachments], lambda: kp.find_entries(string={'k1': self.texts(rng)})]
        i = rng.randrange(len(acts))
        self.log('read %d' % i)
        acts[i]()
        return 'read'

    # ---- saving
    def save_bytes(self):
        """save to a path or a stream; returns the file content"""
        r = self.rng.random()
        kp = self.kp
        if r < .35:
            b = io.BytesIO()
            self.log('save(stream)')
            kp.save(b)
            return b.getvalue()
        if r < .55:
            b = io.BytesIO(b'keep')
            b.seek(4)
            self.log('save(stream at 4)')
            kp.save(b)
            if b.getvalue()[:4] != b'keep':
                self.note('save', {'file'}, 'bytes before the stream position changed')
            return b.getvalue()[4:]
        p = os.path.join(self.scratch, self.rng.choice(self.outs))
        self.log('save(path %r)' % os.path.basename(p))
        kp.save(p if self.rng.random() < .7 else __import__('pathlib').Path(p))
        with open(p, 'rb') as f:
            return f.read()

    def op_save(self):
        own = self.kp.filename
        data = self.save_bytes()
        if self.kp.filename is not own and self.kp.filename != own:
            self.note('save', {'file name'}, 'saving to another place changed the file name of the object to %r' % (self.kp.filename,))
        self.compare('save')
        self.saved = self.compare_file(data)
        for f in self.on_save:
            f(data, self.saved)
        self.ctx.count('saves')
        if self.rng.random() < .6:
            self.reopen(data)
        return 'save'

    def reopen(self, data, **kw):
        self.log('reopen')
        cred = dict(password=self.pw, keyfile=io.BytesIO(self.keyfile) if self.keyfile is not None else None)
        src = io.BytesIO(data)
        if self.rng.random() < .3:
            src = os.path.join(self.scratch, self.re_name)
            with open(src, 'wb') as f:
                f.write(data)
        self.kp = self.P.PyKeePass(src, **cred)
        self.drop_handles()
        self.ctx.count('reopens')
        self.compare('reopen')

    def op_own_save(self):
        """save() to where the database came from, then reload()"""
        self.log('save(); reload()')
        self.kp.save()
        self.compare('save')
        own = self.kp.filename
        if hasattr(own, 'getvalue'):
            data = own.getvalue()
        else:
            with open(own, 'rb') as f:
                data = f.read()
        doc = self.compare_file(data)
        for f in self.on_save:
            f(data, doc)
        self.ctx.count('saves in place')
        if self.rng.random() < .7:
            self.kp.reload()
            self.drop_handles()
            self.ctx.count('reloads')
        return 'reopen'


def index(lst, x):
    for i, y in enumerate(lst):
        if y is x:
            return i
    raise ValueError


SET = [(6, 'set_field'), (.3, 'refill'), (1, 'set_tags'), (1, 'set_icon'), (2, 'set_auto'), (4, 'set_prop'), (1.5, 'del_prop'), (2, 'set_group'), (.7, 'set_expires'), (1, 'set_meta'), (.3, 'set_days')]
TREE = [(2, 'add_group'), (3, 'add_entry'), (2, 'move_entry'), (.7, 'move_list'), (2, 'move_group'), (.2, 'move_root'), (1, 'delete_entry'), (.7, 'delete_group'), (.5, 'empty_group'), (2, 'reindex')]
TRASH = [(3, 'trash'), (.4, 'empty_bin'), (.4, 'delete_bin')]
HIST = [(3, 'save_history'), (1, 'delete_history')]
BIN = [(2, 'add_binary'), (2, 'attach'), (.7, 'detach'), (.4, 'rename_att'), (.3, 'repoint_att'), (1, 'delete_binary'), (.4, 'swap_binary')]
TIME = [(3, 'set_time'), (1, 'touch'), (.5, 'expired')]
READ = [(1, 'read')]
SAVE = [(1, 'save'), (.5, 'own_save')]


def mix(**weights):
    """mix(SET=3, TREE=1, ...) -> weighted operation table"""
    out = []
    for k, w in weights.items():
        table = globals()[k] if k.isupper() else [(1, k)]
        tot = sum(x for x, _ in table)
        out += [(w * x / tot, n) for x, n in table]
    return out


def start(ctx, rng, prop, o=None, cfg=None, version=None, texts=gen.text, names=gen.name, pw='pw', keyfile=None, api=True, **cfgkw):
    """generate a database with the reference writer, open it with the library, check it, return an Engine"""
    import pykeepass
    cfg = cfg or gen.config(rng, version, **cfgkw)
    o = o or gen.Opt()
    o.texts, o.names = texts, names
    data, cfg, root, bins = gen.build(rng, o, cfg=cfg, pw=pw, keyfile=keyfile)
    doc = R.decode(data, password=pw, keyfile=keyfile)
    snap = M.from_doc(doc)
    path = os.path.join(ctx.scratch, 'db%d.kdbx' % ctx.fresh())
    with open(path, 'wb') as f:
        f.write(data)
    src = path
    if rng.random() < .4:
        src = io.BytesIO(data)
    kf = None
    if keyfile is not None:
        kf = path + '.key'
        with open(kf, 'wb') as f:
            f.write(keyfile)
    kp = pykeepass.PyKeePass(src, password=pw, keyfile=kf)
    eng = Engine(ctx, rng, kp, snap, cfg['version'], prop, pw=pw, keyfile=keyfile, scratch=ctx.scratch, texts=texts, names=names, api=api)
    eng.cfg, eng.data0, eng.root0, eng.path = cfg, data, root, path
    eng.log('open %s %s %s' % (cfg['version'], cfg['cipher'], cfg['kdf']['name']))
    eng.compare('open')
    return eng
