"""C10: searches return exactly the matching elements"""
import base64
import re
import uuid

from .. import engine, gen, model as M
from ..fw import Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 1100, 9000
RULE = ('One evaluation is one search call compared with a brute-force predicate over all elements of the XML tree: the result must be, in document order, every '
        'matching element and no other (first: the first one or None). A regular expression that matches the empty text may or may not match an empty or absent field. '
        'Distinct by (database, search); non-trivial if something matches or the search text occurs in the database.')
ASSUME = ['search texts are not empty and XML-representable', 'regular expressions follow Python syntax, as lxml implements them', 'find(recursive=False) is used with a group or entry']
MUST_OBSERVE = ['find_entries', 'find_groups', 'find_attachments', 'deprecated', 'regex', 'flags', 'history', 'group', 'not recursive', 'first', 'matches', 'no matches', 'quotes in text', 'combined',
                'none criteria', 'edits', 'large databases']
FIELDS = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}
YES, NO, MAYBE = 1, 0, 2


class Q:
    """a predicate on a text"""

    def __init__(self, regex, flags, value):
        self.regex, self.value = regex, value
        self.rx = re.compile(value, re.I if flags and 'i' in flags else 0) if regex else None

    def __call__(self, text):
        if self.rx is None:
            return YES if text == self.value else NO
        if not text:
            return MAYBE if self.rx.search('') else NO
        return YES if self.rx.search(text) else NO


def worst(rs):
    rs = list(rs)
    return NO if NO in rs else MAYBE if MAYBE in rs else YES


def best(rs):
    rs = list(rs)
    return YES if YES in rs else MAYBE if MAYBE in rs else NO


def fields(el):
    return {(s.findtext('Key') or ''): (s.findtext('Value') or '') for s in el.findall('String')}


def ident(el):
    """identity of an element of the tree"""
    if el.tag == 'Group':
        return ('g', el.findtext('UUID'))
    if el.tag == 'Entry':
        return ('e', fields(el).get('mk'))
    p = el.getparent()
    return ('a', fields(p).get('mk'), el.findtext('Key') or '', int(el.find('Value').get('Ref')))


def rident(r):
    """identity of a result, through its public interface"""
    name = type(r).__name__
    if name == 'Group':
        return ('g', base64.b64encode(r.uuid.bytes).decode())
    if name in ('Entry', 'HistoryEntry'):
        return ('e', r.get_custom_property('mk'))
    return ('a', r.entry.get_custom_property('mk'), r.filename or '', r.id)


def in_history(el):
    return any(a.tag == 'History' for a in el.iterancestors())


def test(el, crit, regex, flags):
    out = []
    for k, v in crit.items():
        if v is None:
            continue
        q = lambda t: Q(regex, flags, v)(t)
        if k == 'uuid':
            out.append(YES if el.findtext('UUID') == base64.b64encode(v.bytes).decode() else NO)
        elif k in ('name', 'filename'):
            out.append(q(el.findtext('Name' if k == 'name' else 'Key')))
        elif k == 'notes' and el.tag == 'Group':
            out.append(q(el.findtext('Notes')))
        elif k == 'id':
            out.append(YES if int(el.find('Value').get('Ref')) == v else NO)
        elif k in FIELDS:
            out.append(q(fields(el).get(FIELDS[k])))
        elif k == 'string':
            f = fields(el)
            for key, val in v.items():
                out.append(NO if key not in f else Q(regex, flags, val)(f[key]))
        elif k == 'tags':
            t = el.findtext('Tags') or ''
            out.append(worst([YES if x in t else NO for x in v]) if v else YES)
        elif k == 'autotype_enabled':
            out.append(YES if el.findtext('AutoType/Enabled') == str(v) else NO)
        elif k == 'autotype_sequence':
            out.append(q(el.findtext('AutoType/DefaultSequence')))
        elif k == 'autotype_window':
            w = [x.text for x in el.findall('AutoType/Association/Window')]
            out.append(best([q(x) for x in w] or [q(None)]))
        else:
            raise KeyError(k)
    return worst(out) if out else YES


def search_text(rng, pool):
    """mostly texts of the database, exact or nearly"""
    r = rng.random()
    if pool and r < .7:
        t = rng.choice(pool)
    elif pool and r < .9:
        t = rng.choice(pool)
        k = rng.randrange(7)
        t = [t.swapcase(), t[:-1], t[1:], t + rng.choice('x" \')'), ' ' + t, t + t, t.replace('"', "'")][k]
    else:
        t = gen.text(rng)
    return t


def valid(t):
    return t and not re.search('[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]', t)


def pattern(rng, pool):
    for _ in range(50):
        t = search_text(rng, pool)
        r = rng.random()
        if r < .35:
            p = re.escape(t)
        elif r < .5:
            p = '^' + re.escape(t) + '$'
        elif r < .6:
            p = re.escape(t[:2]) + '.*'
        elif r < .7:
            p = '(' + '|'.join(re.escape(x) for x in [t, search_text(rng, pool), 'zz']) + ')'
        elif r < .8:
            p = rng.choice(['.*', '.+', '^.$', '[a-z]+', '[A-Z]', '\\d+', '^$', '\\w{3}', 'a|b', '(?i)FOO', '["\']', 'o{2}', '\\s', '[^a-z]', '.', 'x?', '\\bfoo\\b'])
        else:
            p = t
        try:
            re.compile(p)
        except (re.error, OverflowError, RecursionError):
            continue
        if valid(p):
            return p
    return 'x'


def exact(rng, pool):
    while True:
        t = search_text(rng, pool)
        if valid(t):
            return t


class Checker:
    def __init__(self, ctx, rng, kp):
        self.ctx, self.rng, self.kp = ctx, rng, kp
        self.phase = 0

    def refresh(self):
        root = self.kp.tree.getroot()
        self.entries = [e for e in root.find('Root').iter('Entry')]
        self.groups = [g for g in root.find('Root').iter('Group')]
        self.atts = [b for e in self.entries for b in e.findall('Binary')]
        order = {el: i for i, el in enumerate(root.iter())}
        self.atts.sort(key=lambda b: order[b])
        ids = [ident(e) for e in self.entries]
        assert len(set(ids)) == len(ids), 'marks'
        self.pool = {}
        for k, key in FIELDS.items():
            self.pool[k] = [v for v in (fields(e).get(key) for e in self.entries) if v]
        self.pool['autotype_sequence'] = [v for v in (e.findtext('AutoType/DefaultSequence') for e in self.entries) if v]
        self.pool['autotype_window'] = [w.text for e in self.entries for w in e.findall('AutoType/Association/Window') if w.text]
        self.pool['name'] = [v for v in (g.findtext('Name') for g in self.groups) if v]
        self.pool['gnotes'] = [v for v in (g.findtext('Notes') for g in self.groups) if v]
        self.pool['filename'] = [v for v in (a.findtext('Key') for a in self.atts) if v]
        self.strings = [(k, v) for e in self.entries for k, v in fields(e).items() if k not in gen.RESERVED and v and k]
        self.tags = [t for e in self.entries for t in (e.findtext('Tags') or '').split(';') if t]
        self.alltext = '\n'.join(t for t in root.itertext() if t)
        self.phase += 1

    def judge(self, what, cands, crit, regex, flags, first, res, got_call):
        ctx = self.ctx
        must, may = [], []
        for el in cands:
            t = test(el, crit, regex, flags)
            if t:
                may.append(ident(el))
                if t == YES:
                    must.append(ident(el))
        ctx.eval((ctx.index, self.phase, what), nontrivial=bool(may) or any(isinstance(v, str) and v in self.alltext for v in crit.values()))
        ctx.count('matches' if must else 'no matches')
        info = {'search': what, 'must match': must[:20], 'may match': [x for x in may if x not in must][:20]}
        if first:
            got = None if res is None else rident(res)
            pre = []        # acceptable firsts
            for x in may:
                pre.append(x)
                if x in must:
                    break
            else:
                pre.append(None)
            if got not in pre:
                raise Violation('%s gives %r instead of %r' % (what, got, pre[0]), info)
            return
        if not isinstance(res, list):
            raise Violation('%s gives %r instead of a list' % (what, res), info)
        got = [rident(r) for r in res]
        j = 0
        for x in may:
            if j < len(got) and got[j] == x:
                j += 1
            elif x in must:
                raise Violation('%s: %r is missing at position %d, where %r is' % (what, x, j, got[j:j + 1]), dict(info, got=got[:30]))
        if j < len(got):
            raise Violation('%s: wrongly includes %r (or in the wrong order)' % (what, got[j]), dict(info, got=got[:30]))

    def criteria(self, kind, regex):
        rng = self.rng
        crit = {}
        mk = (lambda p: pattern(rng, p)) if regex else (lambda p: exact(rng, p))
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            if kind == 'groups':
                k = rng.choice(['name', 'name', 'notes', 'uuid'])
                if k == 'uuid':
                    v = self.a_uuid(self.groups)
                else:
                    v = mk(self.pool['name' if k == 'name' else 'gnotes'])
            elif kind == 'attachments':
                k = rng.choice(['filename', 'filename', 'id'])
                # as a pattern an id of several digits could match within another one
                if k == 'id' and regex and any(len(v.get('Ref', '')) != 1 for a in self.atts for v in a.findall('Value')):
                    continue
                v = rng.randrange(5) if k == 'id' else mk(self.pool['filename'])
            else:
                k = rng.choice(list(FIELDS) + ['string', 'string', 'uuid', 'tags', 'tags', 'autotype_enabled', 'autotype_sequence', 'autotype_window'])
                if k == 'string':
                    v = {}
                    for _ in range(rng.choice([1, 1, 2])):
                        key, val = rng.choice(self.strings) if self.strings else ('k1', 'x')
                        if rng.random() < .15:
                            key = gen.propkey(rng)
                        if rng.random() < .3 or not valid(val):
                            val = mk([x for _, x in self.strings])
                        elif regex:
                            val = pattern(rng, [val])
                        v[key] = val
                elif k == 'uuid':
                    v = self.a_uuid(self.entries)
                elif k == 'tags':
                    v = [exact(rng, self.tags) for _ in range(rng.choice([1, 1, 2]))]
                elif k == 'autotype_enabled':
                    if regex and rng.random() < .5:
                        continue
                    v = rng.choice([True, False])
                else:
                    v = mk(self.pool[k])
            if rng.random() < .06:
                v = None
                self.ctx.count('none criteria')
            crit[k] = v
            if isinstance(v, str) and ('"' in v or "'" in v):
                self.ctx.count('quotes in text')
        # combine criteria of one entry so that several hold together
        if kind == 'entries' and rng.random() < .25 and self.entries:
            e = rng.choice(self.entries)
            f = fields(e)
            crit = {}
            for k in rng.sample(list(FIELDS), 3):
                v = f.get(FIELDS[k])
                if v and valid(v):
                    crit[k] = pattern(rng, [v]) if regex else v
            if rng.random() < .3:
                crit['string'] = {'mk': re.escape(f['mk']) + '$' if regex else f['mk']}
            self.ctx.count('combined')
        return crit

    def a_uuid(self, els):
        rng = self.rng
        if els and rng.random() < .8:
            return uuid.UUID(bytes=base64.b64decode(rng.choice(els).findtext('UUID')))
        return gen.new_uuid(rng)

    def object_for(self, el):
        """a library object for an element of the tree, by walking from the root group"""
        if el.tag == 'Group':
            if el.getparent().tag == 'Root':
                return self.kp.root_group
            p = self.object_for(el.getparent())
            return p.subgroups[el.getparent().findall('Group').index(el)]
        if el.getparent().tag == 'History':
            return self.object_for(el.getparent().getparent()).history[el.getparent().findall('Entry').index(el)]
        return self.object_for(el.getparent()).entries[el.getparent().findall('Entry').index(el)]

    def one(self):
        rng, kp, ctx = self.rng, self.kp, self.ctx
        kind = rng.choice(['entries', 'entries', 'entries', 'groups', 'attachments'])
        regex = rng.random() < .45
        flags = rng.choice([None, None, 'i', 'i', '']) if regex else None
        crit = self.criteria(kind, regex)
        if regex:
            ctx.count('regex')
        if flags:
            ctx.count('flags')
        history = rng.random() < .4
        kw = dict(crit)
        if regex or rng.random() < .2:
            kw['regex'] = regex
        if flags is not None:
            kw['flags'] = flags
        cands = {'entries': self.entries, 'groups': self.groups, 'attachments': self.atts}[kind]
        scope = None
        if rng.random() < .45:
            scope = rng.choice(self.groups)
            if kind == 'attachments' and rng.random() < .6 and self.entries:
                scope = rng.choice(self.entries)
                if in_history(scope):
                    history = True
        if history:
            kw['history'] = True
            ctx.count('history')
        elif rng.random() < .1:
            kw['history'] = False
        if kind != 'groups' and not history:
            cands = [c for c in cands if not in_history(c)]
        if scope is not None:
            ctx.count('group')
            rec = rng.random() < .6
            if not rec:
                kw['recursive'] = False
                ctx.count('not recursive')
                cands = [c for c in cands if c.getparent() is scope]
            else:
                cands = [c for c in cands if scope in c.iterancestors()]
            kw['element' if kind == 'attachments' else 'group'] = self.object_for(scope)
        first = rng.random() < .3
        if first:
            kw['first'] = True
            ctx.count('first')
        what = 'find_%s(%s)' % (kind, ', '.join('%s=%s' % (k, ident(scope) if k in ('group', 'element') else repr(v)) for k, v in kw.items()))
        fn = getattr(kp, 'find_' + kind)
        dep = self.deprecated(kind, crit, kw) if rng.random() < .3 else None
        ctx.trace = [what]
        if dep:
            name, arg, kw = dep
            ctx.count('deprecated')
            what = '%s(%r, ...) as %s' % (name, arg, what)
            res = getattr(kp, name)(arg, **kw)
        else:
            ctx.count('find_' + kind)
            res = fn(**kw)
        self.judge(what, cands, crit, regex, flags, first, res, kw)

    def deprecated(self, kind, crit, kw):
        if len(crit) != 1 or kind == 'attachments' or 'recursive' in kw:
            return None
        k = list(crit)[0]
        if kind == 'groups':
            if k not in ('name', 'notes', 'uuid') or (k == 'name' and 'history' in kw):
                return None
            name = 'find_groups_by_' + k
        else:
            if k not in ('title', 'username', 'password', 'url', 'notes', 'uuid', 'string'):
                return None
            name = 'find_entries_by_' + k
        kw = dict(kw)
        arg = kw.pop(k)
        if arg is None:
            return None
        return name, arg, kw

    def lists(self):
        for what, cands, res in [('kp.entries', [e for e in self.entries if not in_history(e)], self.kp.entries), ('kp.groups', self.groups, self.kp.groups),
                                 ('kp.attachments', [a for a in self.atts if not in_history(a)], self.kp.attachments)]:
            self.judge(what, cands, {}, False, None, False, res, {})

    def edit(self):
        rng, kp, ctx = self.rng, self.kp, self.ctx
        ctx.count('edits')
        self.n = getattr(self, 'n', 0) + 1
        es = kp.entries
        r = rng.randrange(6)
        ctx.trace = ['edit %d' % r]
        if r == 0 or not es:
            e = kp.add_entry(rng.choice(kp.groups), gen.name(rng), gen.text(rng), gen.text(rng), url=gen.text(rng), notes=gen.text(rng), tags=[gen.tag(rng)], force_creation=True)
            e.set_custom_property('mk', 'new%d' % self.n)
        elif r == 1:
            setattr(rng.choice(es), rng.choice(list(FIELDS)), gen.name(rng))
        elif r == 2:
            e = rng.choice(es)
            e.save_history()
            e.history[-1].set_custom_property('mk', 'hist%d' % self.n)
        elif r == 3:
            kp.move_entry(rng.choice(es), rng.choice(kp.groups))
        elif r == 4:
            kp.add_group(rng.choice(kp.groups), gen.name(rng), notes=gen.text(rng))
        else:
            e = rng.choice(es)
            k = gen.propkey(rng)
            if k != 'mk':
                e.set_custom_property(k, gen.name(rng), protect=rng.random() < .5)


def names(rng):
    return gen.name(rng) if rng.random() < .6 else rng.choice(['foo', 'Foo', 'foobar', 'bar', 'a', '"', "it's", 'say "hi"'])


def case(ctx):
    rng = ctx.rng
    o = gen.Opt(groups=rng.choice([1, 4, 8]), entries=rng.choice([3, 8, 14]), nbin=rng.choice([0, 3]), hist=.6, att=.6, mark=True, unknown=rng.random() < .3)
    o.nbin = max(1, o.nbin)
    if ctx.index % 90 == 45:
        # many elements
        o = gen.Opt(groups=rng.choice([10, 60]), entries=rng.choice([120, 260]), nbin=3, hist=.2, att=.2, mark=True, full=True)
        ctx.count('large databases')
    e = engine.start(ctx, rng, '*', o, names=names, texts=lambda rng, *a, **k: names(rng) if rng.random() < .7 else gen.text(rng))
    c = Checker(ctx, rng, e.kp)
    for _ in range(3):
        c.refresh()
        c.lists()
        for _ in range(40):
            c.one()
        for _ in range(rng.randint(1, 4)):
            c.edit()
    ctx.sample({'case': ctx.index, 'last search': ctx.trace[0][:200]})
