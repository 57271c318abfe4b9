"""C19: reading, searching and exporting never change the database"""
import io
import os
import re
import shutil
import xml.etree.ElementTree as ET

from lxml import etree

from .. import engine, gen, model as M, refkdbx as R
from ..fw import Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 900, 4000
RULE = ('One evaluation compares the serialised XML tree, binaries, credentials, header and every file in the directory before and after one read operation (getter, search, '
        'path, dereference, representation, comparison, export, failing search), or compares one export, parsed by an independent parser, with the content, or one access on '
        'a database opened without decryption. Distinct by (case, operation and arguments).')
ASSUME = ['the tree is observed through the public tree property']
MUST_OBSERVE = ['reads', 'reads that raise', 'exports', 'export files', 'undecrypted', 'refused saves', 'protected values in exports']


def state(kp, scratch, skip=()):
    t = kp.tree
    src = kp.filename
    files = {}
    for d, _, fs in os.walk(scratch):
        for f in fs:
            p = os.path.join(d, f)
            if f not in skip:
                with open(p, 'rb') as h:
                    files[os.path.relpath(p, scratch)] = h.read()
    try:
        inner = [bytes(b.data[:1]) for b in kp.payload.inner_header.binary] if kp.version[0] >= 4 else None
    except (AttributeError, TypeError):
        inner = None
    return {'xml': etree.tostring(t, encoding='utf-8'), 'binaries': list(kp.binaries), 'binary flags': inner,
            'password': kp.password, 'keyfile': kp.keyfile, 'transformed key': kp.transformed_key, 'filename': src,
            'stream': src.getvalue() if hasattr(src, 'getvalue') else None, 'settings': (kp.version, kp.encryption_algorithm, kp.kdf_algorithm, kp.database_salt), 'files': files}


def reads(e, rng):
    """(name, thunk) of a random read"""
    kp, m = e.kp, e.m
    P = e.P
    en, g = e.entry(), e.group()
    hs = [h for x in m.entries() for h in x.hist]
    r = e.real(en) if en is not None else None
    rg = e.real(g)
    t = lambda: e.texts(rng) or 'x'
    some = lambda: rng.choice([t(), t(), '.*', '['])
    acts = []

    def add(name, fn, w=1):
        acts.extend([(name, fn)] * w)
    for a in ('entries', 'groups', 'attachments', 'binaries', 'root_group', 'recyclebin_group', 'database_name', 'database_description', 'default_username', 'version', 'encryption_algorithm',
              'kdf_algorithm', 'transformed_key', 'database_salt', 'payload', 'tree', 'password', 'keyfile', 'credchange_required_days', 'credchange_recommended_days', 'credchange_date',
              'credchange_required', 'credchange_recommended'):
        add('kp.' + a, lambda a=a: getattr(kp, a))
    for a in ('name', 'notes', 'entries', 'subgroups', 'is_root_group', 'path', 'parentgroup', 'group', 'uuid', 'icon', 'expires', 'expired', 'expiry_time', 'ctime', 'atime', 'mtime'):
        add('group.' + a, lambda a=a: getattr(rg, a))
    add('repr(group)', lambda: (repr(rg), str(rg), repr(kp.groups)))
    add('hash(group)', lambda: (hash(rg), rg == kp.root_group, rg != kp.root_group, rg == 5, rg in kp.groups, {rg: 1}))
    add('group.dump_xml', lambda: (rg.dump_xml(), rg.dump_xml(pretty_print=True)), 2)
    rx, hist, first = rng.random() < .4, rng.random() < .4, rng.random() < .4
    fl = rng.choice([None, 'i', 'is']) if rx else None
    kw = dict(regex=rx, history=hist, first=first)
    if fl:
        kw['flags'] = fl
    k = rng.choice(['title', 'username', 'password', 'url', 'notes', 'otp', 'autotype_sequence', 'autotype_window', 'autotype_enabled', 'tags', 'string', 'uuid'])
    v = {'tags': [t()], 'string': {rng.choice(['k1', 'mk', t()]): t()}, 'uuid': r.uuid if r is not None else rg.uuid, 'autotype_enabled': rng.choice([True, False])}.get(k, some())
    scope = dict(rng.choice([{}, {'group': rg}, {'group': rg, 'recursive': False}]))
    add('find_entries(%s=%r, %r)' % (k, v, kw), lambda: kp.find_entries(**{k: v}, **kw, **scope), 5)
    gk = rng.choice(['name', 'notes', 'uuid'])
    gv = rg.uuid if gk == 'uuid' else some()
    add('find_groups(%s=%r, %r)' % (gk, gv, kw), lambda: kp.find_groups(**{gk: gv}, **kw, **scope), 3)
    ascope = {'element' if x == 'group' else x: y for x, y in scope.items()}
    add('find_attachments', lambda: kp.find_attachments(filename=some(), **kw, **ascope), 2)
    add('find_attachments(id)', lambda: kp.find_attachments(id=rng.randint(0, 4), history=hist, first=first))
    path = [t() for _ in range(rng.randint(0, 3))]
    if en is not None and rng.random() < .5:
        path = r.path or path
    add('find_entries(path=%r)' % path, lambda: kp.find_entries(path=path, regex=rx), 2)
    gpath = rg.path if rng.random() < .5 else path
    add('find_groups(path=%r)' % gpath, lambda: kp.find_groups(path=gpath, regex=rx), 2)
    add('find_entries(bad argument)', lambda: kp.find_entries(nonsense=1))
    add('find_groups(bad argument)', lambda: kp.find_groups(title=1, nope='x'))
    add('xpath', lambda: kp.xpath('//Entry', cast=rng.random() < .5))
    add('xml', lambda: kp.xml(), 2)
    add('deref(text)', lambda: kp.deref(rng.choice([t(), '{REF:T@U:%s}' % t(), '{REF:P@I:zz}', '{REF:X@I:00}', '{REF:T@T:%s}{REF:U@T:%s}' % (t(), t()), None, ''])), 3)
    add('with', lambda: kp.__enter__() and kp.__exit__(None, None, None))
    add('deprecated', lambda: (kp.find_groups_by_name(t()), kp.find_entries_by_title(t()), kp.find_entries_by_username(t()), kp.find_entries_by_password(t()), kp.find_entries_by_url(t()),
                               kp.find_entries_by_notes(t()), kp.find_groups_by_path([t()]), kp.find_entries_by_path([t()]), kp.find_entries_by_string({'k1': t()}),
                               kp.find_entries_by_uuid(rg.uuid), kp.find_groups_by_uuid(rg.uuid), kp.find_groups_by_notes(t())))
    if en is not None:
        rs = [r] + [x for x in r.history] if rng.random() < .5 else [r]
        if hs and rng.random() < .3:
            rs = [e.real(rng.choice(hs))]
        r = rng.choice(rs)
        for a in ('title', 'username', 'password', 'url', 'notes', 'otp', 'tags', 'icon', 'history', 'attachments', 'custom_properties', 'path', 'parentgroup', 'group', 'uuid', 'expires', 'expired',
                  'expiry_time', 'ctime', 'atime', 'mtime', 'autotype_enabled', 'autotype_sequence', 'autotype_window', 'is_a_history_entry'):
            add('entry.' + a, lambda a=a: getattr(r, a))
        if not r.is_a_history_entry:
            add('entry.index', lambda: r.index, 2)
        add('repr(entry)', lambda: (repr(r), str(r), repr(r.history), repr(r.attachments), repr(kp.entries)), 2)
        add('hash(entry)', lambda: (hash(r), r == kp.entries[0], r != rg, r in kp.entries, r in r.history, {r: 1}, r == None), 2)
        add('entry.dump_xml', lambda: (r.dump_xml(), r.dump_xml(pretty_print=True)), 2)
        add('entry.deref', lambda: [r.deref(a) for a in ('title', 'username', 'password', 'url', 'notes')], 3)
        add('entry.ref', lambda: [kp.deref(r.ref(a)) for a in ('title', 'username', 'password', 'url', 'notes', 'uuid')], 2)
        own = [x for x in en.fields if x not in M.RESERVED] + ['absent', t()]
        pk = rng.choice(own)
        add('get_custom_property(%r)' % pk, lambda: (r.get_custom_property(pk), r.is_custom_property_protected(pk)), 3)
        add('get_custom_property(reserved)', lambda: r.get_custom_property('Title'))
        add('attachment', lambda: [(a.id, a.filename, a.data, a.binary, a.entry, repr(a)) for a in r.attachments], 3)
        add('delete_custom_property(absent)', lambda: r.delete_custom_property('surely absent'))
        add('history setter', lambda: setattr(r, 'history', []))
    return rng.choice(acts)


def export(ctx, e, rng):
    """the export is exactly the current content"""
    kp = e.kp
    r = rng.random()
    raw = kp.xml()
    if r < .5:
        name = rng.choice(['out.xml', 'o \xe9.xml', 'x'])
        p = os.path.join(e.scratch, 'exp')
        os.makedirs(p, exist_ok=True)
        p = os.path.join(p, name)
        if rng.random() < .5:
            with open(p, 'wb') as f:
                f.write(b'old content' * rng.choice([1, 100000]))
        before = state(kp, e.scratch, skip=(name,))
        kp.dump_xml(p if rng.random() < .7 else __import__('pathlib').Path(p))
        after = state(kp, e.scratch, skip=(name,))
        ctx.check(before == after, 'dump_xml changed more than the requested file: %s' % [k for k in before if before[k] != after[k]], operations=e.trace[-30:])
        with open(p, 'rb') as f:
            dumped = f.read()
        shutil.rmtree(os.path.dirname(p))
        ctx.count('export files')
        raw = dumped
    ctx.check(isinstance(raw, bytes), 'xml() gives %s' % type(raw), operations=e.trace[-30:])
    ctx.count('exports')
    e.log('export')
    ctx.eval((ctx.index, e.th, len(e.trace), 'export'))
    m = re.match(rb'''\s*<\?xml\s[^>]*encoding=['"]([A-Za-z0-9._-]+)['"]''', raw)
    ctx.check(m, 'the export does not declare its encoding: %.60r' % raw, operations=e.trace[-30:])
    try:
        text = raw.decode(m.group(1).decode())
        root = ET.fromstring(raw)                       # expat
        lx = etree.fromstring(raw, etree.XMLParser(resolve_entities=False, huge_tree=True))
    except Exception as x:
        raise Violation('the export is not well-formed: %r' % x, {'operations': e.trace[-30:]})
    d = R.diff(strip(R.canon(lx)), strip(R.canon(kp.tree.getroot())))
    ctx.check(not d, 'the export differs from the content: %s' % d, operations=e.trace[-30:])
    got = M.from_root(root, e.m.snap()['bins'])
    want = e.m.snap()
    d = [x for x in M.diff(want, got) if 'prot' not in M.category(x[0])]
    ctx.check(not d, 'the export differs from the expected content: %s' % (d and M.fmt(d[0])), operations=e.trace[-30:])
    ctx.count('protected values in exports', sum(1 for x in e.m.entries() for k, (v, p) in x.fields.items() if p and v))
    if not e.v4:
        from types import SimpleNamespace
        bins = R.decoded_binaries(SimpleNamespace(version=(3, 1), root=lx))
        ctx.check([bins[i] for i in sorted(bins)] == want['bins'], 'binaries in the export differ', operations=e.trace[-30:])


def strip(c):
    """without the memory protection attributes of values"""
    if len(c) < 4:
        return c
    at = c[1]
    if c[0] in ('Value', 'Binary'):
        at = tuple(x for x in at if x[0] not in ('Protected', 'ProtectInMemory'))
    return (c[0], at, c[2], tuple(strip(k) for k in c[3])) + c[4:]


def undecrypted(ctx, e, rng):
    """decrypt=False"""
    P = e.P
    b = io.BytesIO()
    e.kp.save(b)
    data = b.getvalue()
    cfg = R.parse_header(data)[0]
    path = os.path.join(e.scratch, 'enc.kdbx')
    with open(path, 'wb') as f:
        f.write(data)
    listing = sorted(os.listdir(e.scratch))
    stream = io.BytesIO(data) if rng.random() < .4 else None
    cred = rng.choice([{}, {}, {'password': 'wrong'}, {'password': e.pw, 'keyfile': e.keyfile and io.BytesIO(e.keyfile)}])
    e.log('open with decrypt=False %r' % sorted(cred))
    kp = P.PyKeePass(stream if stream is not None else path, decrypt=False, **cred)
    ctx.count('undecrypted')
    rep = (kp.version, kp.encryption_algorithm, kp.kdf_algorithm, kp.database_salt)
    ctx.eval((ctx.index, len(e.trace), 'header'))
    ctx.check(rep == (cfg.version, cfg.cipher, cfg.kdf['name'], cfg.kdf['S']), 'header information without decryption is %r' % (rep,), operations=e.trace[-30:])
    if rng.random() < .3:
        try:
            kp.password = rng.choice(['new', None])
        except Exception:
            pass
    acts = {'entries': lambda: kp.entries, 'groups': lambda: kp.groups, 'xml': lambda: kp.xml(), 'tree': lambda: kp.tree, 'root_group': lambda: kp.root_group, 'binaries': lambda: kp.binaries,
            'payload': lambda: kp.payload, 'find_entries': lambda: kp.find_entries(title='.*', regex=True), 'attachments': lambda: kp.attachments, 'name': lambda: kp.database_name,
            'add_binary': lambda: kp.add_binary(b'x'), 'deref': lambda: kp.find_entries(title='x', first=True)}
    for k in rng.sample(sorted(acts), 5):
        try:
            got = acts[k]()
        except Exception:
            got = None
        ctx.eval((ctx.index, len(e.trace), k))
        ctx.check(not got, '%s gives %.100r without decryption' % (k, got), operations=e.trace[-30:])
    for target in rng.sample(['own', 'other', 'stream', 'dump'], 3):
        other = os.path.join(e.scratch, 'other.kdbx')
        with open(other, 'wb') as f:
            f.write(data)
        s = io.BytesIO(data)
        try:
            if target == 'own':
                kp.save()
            elif target == 'other':
                kp.save(other)
            elif target == 'stream':
                kp.save(s)
            else:
                kp.dump_xml(os.path.join(e.scratch, 'dump.xml'))
            raised = False
        except Exception:
            raised = True
        ctx.count('refused saves')
        ctx.eval((ctx.index, len(e.trace), 'save', target))
        ctx.check(raised, 'a database that is not decrypted can be saved (%s)' % target, operations=e.trace[-30:])
        ctx.check(open(path, 'rb').read() == data, 'a database that is not decrypted overwrote the stored file', operations=e.trace[-30:])
        ctx.check(stream is None or stream.getvalue() == data, 'a database that is not decrypted overwrote its stream', operations=e.trace[-30:])
        ctx.check(open(other, 'rb').read() == data and s.getvalue() == data, 'a database that is not decrypted overwrote the target of a save', operations=e.trace[-30:])
        os.remove(other)
        if os.path.exists(os.path.join(e.scratch, 'dump.xml')):
            os.remove(os.path.join(e.scratch, 'dump.xml'))
    ctx.check(sorted(os.listdir(e.scratch)) == listing, 'files are left behind', operations=e.trace[-30:])
    os.remove(path)
    # the other object still reads the same file with the credentials
    if rng.random() < .3:
        kp2 = P.PyKeePass(io.BytesIO(data), password=e.pw, keyfile=io.BytesIO(e.keyfile) if e.keyfile is not None else None)
        d = M.diff(e.m.snap(), M.from_tree(kp2))
        ctx.check(not d, 'content differs', operations=e.trace[-30:])


def case(ctx):
    rng = ctx.rng
    o = gen.Opt(groups=3, entries=6, nbin=3, hist=.5, att=.5, alt_times=rng.random() < .3, unknown=rng.random() < .3, shuffle_binaries=rng.random() < .3)
    kf = rng.choice([None, None, b'key'])
    e = engine.start(ctx, rng, 'C19', o, keyfile=kf, api=rng.random() < .3)
    ctx.trace = e.trace
    for _ in range(rng.choice([2, 3, 5])):
        if rng.random() < .6:
            e.run(engine.mix(SET=3, TREE=2, HIST=1, BIN=1, TRASH=.3, TIME=.5), rng.choice([1, 5]))
        if rng.random() < .4 and e.entry() is not None:
            # references to resolve
            a, b = e.entry(), e.entry()
            v = e.real(b).ref(rng.choice(['title', 'password', 'uuid', 'notes'])) + rng.choice(['', ' x'])
            e.log('entry.notes = %r' % v)
            e.real(a).notes = v
            a.fields['Notes'] = (v, a.fields.get('Notes', ('', False))[1])
        before = state(e.kp, e.scratch)
        for _ in range(rng.choice([10, 25])):
            name, fn = reads(e, rng)
            e.log('read ' + name)
            try:
                fn()
            except Exception as x:
                ctx.count('reads that raise')
            ctx.count('reads')
            after = state(e.kp, e.scratch)
            ctx.eval((ctx.index, e.th, name))
            if before != after:
                k = [k for k in before if before[k] != after[k]]
                msg = ''
                if k == ['xml']:
                    msg = R.diff(R.canon(etree.fromstring(before['xml'], etree.XMLParser(huge_tree=True))), R.canon(etree.fromstring(after['xml'], etree.XMLParser(huge_tree=True))))
                raise Violation('%s changed %s %s' % (name, k, msg or ''), {'operations': e.trace[-40:]})
        export(ctx, e, rng)
        if rng.random() < .5:
            undecrypted(ctx, e, rng)
