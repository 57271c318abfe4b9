"""C21: elements keep unique, stable identities"""
import base64
import io
from datetime import timedelta
import random
import uuid

from .. import engine, gen, model as M, refkdbx as R
from ..fw import Foreign, Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 640, 5000
RULE = ('One evaluation compares the UUIDs of all groups, entries and history entries (tree and API) with the shadow model after one operation, checks one pair of objects for '
        'equality and hash, or judges one UUID lookup against a scan of the model. Workloads create, move, copy to history, trash, delete, re-assign and reload, with bulk '
        'creations and re-seeded global random state. Distinct by (case, operation history, pair or UUID).')
ASSUME = ['history entries are those in Entry.history']
MUST_OBSERVE = ['pairs', 'lookups', 'lookups of duplicates', 'created', 'bulk created', 'history pairs', 'reopens', 'reloads', 'similar UUIDs']


def uuids(kp):
    """[(kind, uuid)] in document order, from the tree"""
    out = []
    for el in kp.tree.iter('Group', 'Entry'):
        u = el.findtext('UUID')
        h = el.getparent().tag == 'History'
        if el.getparent().tag not in ('Group', 'Root', 'History'):
            continue
        out.append(('h' if h else el.tag[0], u))
    return sorted(out)


def model_uuids(m):
    out = [('G', g.uuid) for g in m.groups()]
    for e in m.entries():
        out.append(('E', e.uuid))
        out += [('h', h.uuid) for h in e.hist]
    return sorted(out)


def audit(ctx, e):
    a, b = model_uuids(e.m), uuids(e.kp)
    ctx.eval((ctx.index, e.th, 'all'))
    if a != b:
        lost, new = [x for x in a if x not in b], [x for x in b if x not in a]
        if not lost and not new:
            raise Foreign('number of elements')
        if len(a) == len(b):
            raise Violation('after %s: UUIDs changed: %r became %r' % (e.trace[-1], lost[:4], new[:4]), {'operations': e.trace[-40:]})
        if new and not any(k == 'h' for k, _ in new) and len(b) > len(a):
            raise Foreign('additional elements')
        raise Foreign('elements %r / %r' % (lost[:4], new[:4]))


def pairs(ctx, e, rng):
    """equality and hash against the model"""
    kp = e.kp
    items = []
    for g in e.m.groups():
        items.append((g, 'G', e._walk(g)))
        if rng.random() < .3:
            items.append((g, 'G', e._walk(g)))
    for n in e.m.entries():
        items.append((n, 'E', e._walk(n)))
        r = rng.random()
        if r < .3:
            items.append((n, 'E', e._walk(n)))
        elif r < .5:
            f = kp.find_entries(title=n.get('Title') or None, group=e._walk(n.parent), recursive=False)
            for x in f:
                if b(x.uuid) == n.uuid:
                    items.append((n, 'E', x))
        for h in n.hist:
            items.append((h, 'H', e._walk(h)))
    if len(items) > 24:
        items = rng.sample(items, 24)
    objs = set()
    for n, k, r in items:
        objs.add(r)
    for i, (n1, k1, r1) in enumerate(items):
        for n2, k2, r2 in items[i:]:
            if k1 == 'H' and k2 == 'H':
                same = n1.uuid == n2.uuid and n1.times['mtime'] == n2.times['mtime']
                ctx.count('history pairs')
            elif 'H' in (k1, k2):
                same = False
            else:
                same = n1.uuid == n2.uuid
            ctx.count('pairs')
            ctx.eval((ctx.index, e.th, n1.uuid, k1, n2.uuid, k2, str(n1.times['mtime'])))
            # unequal objects are allowed to have equal hashes
            got = (r1 == r2, r2 == r1, not (r1 != r2), hash(r1) == hash(r2) or not same)
            if got != (same, same, same, True):
                raise Violation('%s %s and %s %s: ==, reversed, not !=, consistent hashes give %r, expected %r' % (k1, n1.uuid, k2, n2.uuid, got, same), {'operations': e.trace[-40:]})
    for n, k, r in items:
        if r not in objs:
            raise Violation('%s %s is not found in a set it was put in' % (k, n.uuid), {'operations': e.trace[-40:]})
        if r == n.uuid or r == r.uuid or r == None or not (r != 7):
            raise Violation('%s %s equals something that is no element' % (k, n.uuid), {'operations': e.trace[-40:]})


def b(u):
    return base64.b64encode(u.bytes).decode()


def lookups(ctx, e, rng):
    kp = e.kp
    pool = [n.uuid for n in e.m.groups() + e.m.entries()]
    dup = [u for u in set(pool) if pool.count(u) > 1]
    pick = rng.sample(pool, min(5, len(pool))) + dup[:3]
    pick += [b(gen.new_uuid(rng)), b(uuid.UUID(int=0)), b(uuid.UUID(int=uuid.UUID(bytes=base64.b64decode(pick[0])).int ^ 1))]
    for t in pick:
        u = uuid.UUID(bytes=base64.b64decode(t))
        ents = [n for n in e.m.entries() if n.uuid == t]
        hist = [n for x in e.m.entries() for n in x.hist if n.uuid == t]
        grps = [g for g in e.m.groups() if g.uuid == t]
        ctx.count('lookups')
        if t in dup:
            ctx.count('lookups of duplicates')
        rx = rng.random() < .25
        kw = {'regex': True} if rx else {}

        def judge(what, got, want):
            ctx.eval((ctx.index, e.th, t, what))
            want = sorted(ident(e, n) for n in want)
            got = sorted(x.dump_xml() for x in got)
            if len(got) != len(want) or got != want:
                raise Violation('%s(uuid=%s) gives %d elements, %d have it: %.300r, expected %.300r' % (what, u, len(got), len(want), got, want), {'operations': e.trace[-40:]})
        judge('find_entries', kp.find_entries(uuid=u, **kw), ents)
        judge('find_entries+history', kp.find_entries(uuid=u, history=True, **kw), ents + hist)
        judge('find_groups', kp.find_groups(uuid=u, **kw), grps)
        f = kp.find_entries(uuid=u, first=True)
        ctx.check((f is None) == (not ents) and (f is None or b(f.uuid) == t), 'find_entries(uuid=%s, first=True) gives %r' % (u, f), operations=e.trace[-40:])
        f = kp.find_groups(uuid=u, first=True)
        ctx.check((f is None) == (not grps) and (f is None or b(f.uuid) == t), 'find_groups(uuid=%s, first=True) gives %r' % (u, f), operations=e.trace[-40:])
        g = e.group()
        judge('find_entries(group)', kp.find_entries(uuid=u, group=e._walk(g)), [x for x in g.all_entries() if x.uuid == t])
        judge('find_groups(group)', kp.find_groups(uuid=u, group=e._walk(g)), [x for x in list(g.all_groups())[1:] if x.uuid == t])


def ident(e, n):
    return e._walk(n).dump_xml()


def case(ctx):
    rng = ctx.rng
    o = gen.Opt(groups=4, entries=5, nbin=1, hist=.5)
    # few distinct modification times, so that history entries coincide
    e = engine.start(ctx, rng, 'C21', o, api=rng.random() < .3)
    ctx.trace = e.trace
    base = e.compare

    def compare(kind):
        audit(ctx, e)
        base(kind)
    e.compare = compare
    e.on_save.append(lambda data, doc: ctx.check(sorted_doc(doc) == model_uuids(e.m), 'UUIDs in the saved file differ', operations=e.trace[-40:]))
    for _ in range(rng.choice([2, 3])):
        if rng.random() < .3:
            random.seed(rng.choice([0, 1]))         # applications seed the global generator
        n0 = len(e.known)
        e.run(engine.mix(TREE=5, set_uuid=1, HIST=2, TRASH=1.5, SET=1.5, TIME=.7, BIN=.5, SAVE=.8), rng.choice([5, 12, 20]))
        ctx.count('created', len(e.known) - n0)
        if rng.random() < .4 and e.entry() is not None:
            same_mtime(e, rng)
        pairs(ctx, e, rng)
        lookups(ctx, e, rng)
    if rng.random() < .3:
        bulk(ctx, e, rng)
    elif rng.random() < .6:
        # several elements with one UUID; nothing but lookups is defined on them
        for _ in range(rng.choice([1, 2])):
            duplicate(ctx, e, rng)
        pairs(ctx, e, rng)
        lookups(ctx, e, rng)


def sorted_doc(doc):
    out = []
    for el in doc.root.iter('Group', 'Entry'):
        if el.getparent().tag in ('Group', 'Root', 'History'):
            out.append(('h' if el.getparent().tag == 'History' else el.tag[0], el.findtext('UUID')))
    return sorted(out)


def duplicate(ctx, e, rng):
    """assign the UUID of another element"""
    xs = [e.entry(), e.entry()] if rng.random() < .6 else [e.group(), e.group()]
    if rng.random() < .2:
        xs = [e.entry(), e.group()]
    if None in xs or e.m.meta['recyclebin'] in (xs[0].uuid, xs[1].uuid):
        return
    u = uuid.UUID(bytes=base64.b64decode(xs[1].uuid))
    e.log('uuid = that of another element')
    e.real(xs[0]).uuid = u
    xs[0].uuid = xs[1].uuid
    e.compare('uuid')


def same_mtime(e, rng):
    n = e.entry()
    r = e.real(n)
    for _ in range(rng.choice([1, 2])):
        e.log('save_history')
        r.save_history()
        c = n.copy()
        c.parent = n
        n.hist.append(c)
        if rng.random() < .6:
            t = gen.instant(rng)
            old = n.times['mtime']
            if rng.random() < .6 and old is not None and old.year < 9999:
                t = old + timedelta(seconds=rng.choice([1, 1, 2, 60, 3600, 86400]))
            e.log('mtime = %s' % t)
            r.mtime = t
            n.times['mtime'] = r.mtime
    e.compare('hist')


def bulk(ctx, e, rng):
    g = e.real(e.m.root)
    seen = set(e.known)
    name = gen.name(rng)
    n = rng.choice([100, 400])
    for i in range(n):
        if rng.random() < .1:
            random.seed(5)
        x = e.kp.add_group(g, name) if i % 3 == 0 else e.kp.add_entry(g, name, 'u', 'p', force_creation=True)
        u = b(x.uuid)
        if u in seen:
            raise Violation('a new element has the UUID of another one: %s' % u, {'operations': e.trace[-20:] + ['bulk creation %d' % i]})
        seen.add(u)
    ctx.eval((ctx.index, 'bulk', n))
    ctx.count('bulk created', n)
    now = [x for x in uuids(e.kp) if x[0] != 'h']
    old = [x for x in model_uuids(e.m) if x[0] != 'h']
    ctx.check(len(now) == len(old) + n, 'bulk creation gave %d elements' % (len(now) - len(old)), operations=e.trace[-20:])
