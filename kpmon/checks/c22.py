"""C22: content the library does not interpret survives"""
import base64
import io
import os

from lxml import etree

from .. import engine, fixtures, gen, model as M, refkdbx as R
from ..fw import Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 600, 6000
RULE = ('One evaluation compares all uninterpreted children and attributes (each carries a unique token) of every group, entry, history entry and of the metadata and root '
        'with those of the opened file, in memory after one operation or in one independently decoded saved file; in save-only cases the whole XML document is compared. '
        'Distinct by (case, operation history).')
ASSUME = ['comments and processing instructions inside the document are compared, character references and white space between elements are not']
MUST_OBSERVE = ['owners with foreign content', 'history entries with foreign content', 'saved files', 'whole documents', 'fixtures', 'header fields', 'foreign flags', 'custom icons']

ENTRY = {'UUID', 'IconID', 'Tags', 'String', 'Binary', 'Times', 'AutoType', 'History'}
GROUP = {'UUID', 'Name', 'Notes', 'IconID', 'Times', 'Entry', 'Group'}
META = {'HeaderHash', 'DatabaseName', 'DatabaseDescription', 'DefaultUserName', 'MasterKeyChanged', 'MasterKeyChangeRec', 'MasterKeyChangeForce', 'RecycleBinUUID', 'Binaries'}
TIMES = {'CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime', 'Expires'}


def rest(el, known):
    """canonical attributes and children that are not in known"""
    if el is None:
        return ((), ())
    return (tuple(sorted(el.attrib.items())), tuple(R.canon(c) for c in el if not isinstance(c.tag, str) or c.tag not in known))


def x_entry(el):
    # an element that holds nothing is the same as none: the library creates what it needs
    a = el.find('AutoType')
    assoc = tuple(rest(x, {'Window'} if i == 0 else set()) for i, x in enumerate(el.findall('AutoType/Association')))
    if assoc in ((((), ()),), (((), (R.canon(etree.Element('KeystrokeSequence')),)),)):
        assoc = ()
    out = [rest(el, ENTRY), rest(el.find('Times'), TIMES), rest(a, {'Enabled', 'DefaultSequence', 'Association'}), assoc]
    out.append(tuple(sorted(R.canon(s) for s in el.findall('String') if (s.findtext('Key') or '').startswith('zz-frozen'))))
    return tuple(out)


def x_group(el):
    return (rest(el, GROUP), rest(el.find('Times'), TIMES))


def x_doc(root):
    m = root.find('Meta')
    return {'document': tuple(sorted(root.attrib.items())), 'top': tuple(R.canon(c) for c in root if c.tag not in ('Meta', 'Root')),
            'meta': rest(m, META), 'root': rest(root.find('Root'), {'Group'}), 'binaries': tuple(sorted(m.find('Binaries').attrib.items())) if m.find('Binaries') is not None else ()}


def attach(m, root):
    """remember the foreign content on the model"""
    def ent(n, el):
        n.extra = x_entry(el)
        for h, x in zip(n.hist, el.findall('History/Entry')):
            ent(h, x)

    def grp(g, el):
        g.extra = x_group(el)
        for n, x in zip(g.entries, el.findall('Entry')):
            ent(n, x)
        for s, x in zip(g.groups, el.findall('Group')):
            grp(s, x)
    grp(m.root, root.find('Root/Group'))
    m.doc_extra = x_doc(root)


def audit(ctx, e, root, where):
    def bad(what, want, got):
        raise Violation('%s after %s: foreign content of %s changed: %s' % (where, e.trace[-1], what, first(want, got)), {'operations': e.trace[-40:], 'expected': repr(want)[:1500], 'got': repr(got)[:1500]})

    def ent(n, el, hist=False):
        if n.extra is not None:
            ctx.count('history entries with foreign content' if hist else 'owners with foreign content')
            got = x_entry(el)
            if got != n.extra:
                bad('history entry' if hist else 'entry %r' % n.get('Title'), n.extra, got)
        for h, x in zip(n.hist, el.findall('History/Entry')):
            ent(h, x, True)

    def grp(g, el):
        if g.extra is not None:
            ctx.count('owners with foreign content')
            got = x_group(el)
            if got != g.extra:
                bad('group %r' % g.name, g.extra, got)
        for n, x in zip(g.entries, el.findall('Entry')):
            ent(n, x)
        for s, x in zip(g.groups, el.findall('Group')):
            grp(s, x)
    ctx.eval((ctx.index, e.th, where, len(e.trace)))
    grp(e.m.root, root.find('Root/Group'))
    got = x_doc(root)
    for k, v in e.m.doc_extra.items():
        if got[k] != v:
            bad(k, v, got[k])


def first(a, b):
    """where two nested tuples differ"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return '%.200r instead of %.200r' % (b, a)
        for x, y in zip(a, b):
            if x != y:
                return first(x, y)
    return '%.200r instead of %.200r' % (b, a)


def spice(rng, root, v4):
    """foreign attributes and elements in places the library works on"""
    for el in list(root.iter()):
        if not isinstance(el.tag, str):
            continue
        if el.tag in ('Entry', 'Group', 'Times', 'AutoType', 'Association', 'Meta', 'Root', 'KeePassFile', 'History', 'MemoryProtection', 'Binaries', 'DeletedObjects') and rng.random() < .15:
            el.set('x' + '%08x' % rng.getrandbits(32), rng.choice(['', gen.text(rng), 'True']))
        if el.tag in ('Times', 'AutoType', 'Association') and rng.random() < .15:
            gen.sub(el, 'F-%08x' % rng.getrandbits(32), gen.text(rng))
        if el.tag == 'Times' and rng.random() < .15:
            f = etree.Element('F-%08x' % rng.getrandbits(32))
            for k in rng.sample(['CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime', 'Expires'], 2):
                gen.sub(f, k, 'decoy')
            el.insert(0, f)
        if el.tag == 'AutoType' and rng.random() < .3:
            s = gen.sub(el, 'Association', tok='%08x' % rng.getrandbits(32))
            gen.sub(s, 'Window', gen.text(rng))
            gen.sub(s, 'KeystrokeSequence', gen.text(rng))
        if el.tag == 'Entry' and rng.random() < .15:
            # looks like interpreted content, one level down
            f = gen.sub(el, 'Backup', tok='%08x' % rng.getrandbits(32))
            gen.sub(f, rng.choice(['Title', 'Times', 'Tags', 'IconID', 'UUID']), gen.text(rng))
        if el.tag == 'Entry' and rng.random() < .2:
            # a field nobody edits, with attributes of other programs
            s = gen.sub(el, 'String', tok='%08x' % rng.getrandbits(32))
            gen.sub(s, 'Key', 'zz-frozen%08x' % rng.getrandbits(32), k='1')
            v = gen.sub(s, 'Value', gen.text(rng), ProtectInMemory='True', w=gen.text(rng))
            if rng.random() < .5:
                v.set('Protected', 'True')
            gen.sub(s, 'Note', gen.text(rng))
        if el.tag == 'Entry' and rng.random() < .1:
            gen.sub(el, rng.choice(['QualityCheck', 'PreviousParentGroup', 'OverrideURL', 'BackgroundColor']), rng.choice(['False', base64.b64encode(rng.randbytes(16)).decode(), 'cmd://x "y"']))
        if el.tag in ('Entry', 'Group', 'Meta', 'Root') and rng.random() < .1:
            # elements that hold nothing, also more than once
            t = rng.choice(['CustomData', 'OverrideURL', 'ForegroundColor', 'CustomIcons', 'Empty', 'DefaultAutoTypeSequence'])
            for _ in range(rng.choice([1, 2, 3])):
                gen.sub(el, t, rng.choice([None, None, 'x']))
        if el.tag == 'Group' and rng.random() < .1:
            gen.sub(el, rng.choice(['PreviousParentGroup', 'Tags', 'EnableSearching']), rng.choice(['null', 'a;b', '']))
    if rng.random() < .2:
        gen.sub(root, 'Extension', gen.text(rng), tok='%08x' % rng.getrandbits(32))
    # binary-looking custom data
    if rng.random() < .3:
        cd = root.find('Meta').find('CustomData')
        if cd is None:
            cd = gen.sub(root.find('Meta'), 'CustomData')
        for i in range(3):
            it = gen.sub(cd, 'Item')
            gen.sub(it, 'Key', 'KPXC_%d' % i)
            gen.sub(it, 'Value', gen.text(rng))
            gen.sub(it, 'LastModificationTime', gen.enc_time(v4, gen.instant(rng)))


def header(ctx, data0, data, doc0, doc, e):
    for i in (1, 12):
        a = [v for k, v in doc0.header_fields if k == i]
        b = [v for k, v in doc.header_fields if k == i]
        if a:
            ctx.count('header fields')
        ctx.check(a == b, 'header field %d changed: %.100r instead of %.100r' % (i, b, a), operations=e.trace[-40:])
    for i in (11,):
        a, b = [{k: (t, x) for k, t, x in R._vardict(v)} for d in (doc0, doc) for k, v in d.header_fields if k == i] or (None, None)
        ctx.check(a == b, 'key-derivation parameters changed', operations=e.trace[-40:])


def case(ctx):
    rng = ctx.rng
    if ctx.index < len(fixtures.LIST):
        return fixture(ctx, rng, ctx.index)
    o = gen.Opt(groups=3, entries=5, nbin=3, hist=.5, unknown=True, mark=False)
    cfg = gen.config(rng, cipher=rng.choice(['aes256', 'chacha20', 'aes256', 'twofish']))
    v4 = cfg['version'][0] == 4
    if rng.random() < .5:
        cfg['header_extra'] = [(1, rng.choice([b'', b'comment', rng.randbytes(40)]))]
        if v4 and rng.random() < .7:
            cfg['header_extra'].append((12, rng.choice([rng.randbytes(9), R._wvardict([('app', 0x18, 'x'), ('b', 0x42, rng.randbytes(5))])])))
    if v4 and rng.random() < .3:
        cfg['vardict_extra'] = [('zz', 0x18, 'text'), ('yy', 0x08, True), ('xx', 0x0D, -3)]
    root, bins = gen.database(rng, cfg['version'], o)
    spice(rng, root, v4)
    # flag bits of the future
    bins = [(f | rng.choice([0, 0, 2, 0x80]), b) for f, b in bins]
    if v4 and any(f > 1 for f, _ in bins):
        ctx.count('foreign flags')
    if root.find('Meta/CustomIcons/Icon') is not None:
        ctx.count('custom icons')
    cfg['pretty'] = rng.random() < .3
    data = R.encode(cfg, root, password='pw', binaries=bins)
    import pykeepass
    doc0 = R.decode(data, password='pw')
    path = os.path.join(ctx.scratch, 'd.kdbx')
    with open(path, 'wb') as f:
        f.write(data)
    kp = pykeepass.PyKeePass(path if rng.random() < .6 else io.BytesIO(data), password='pw')
    e = engine.Engine(ctx, rng, kp, M.from_doc(doc0), cfg['version'], 'C22', pw='pw', scratch=ctx.scratch, api=False)
    ctx.trace = e.trace
    e.log('open %s' % (cfg['version'],))
    attach(e.m, doc0.root)
    for b, (f, _) in zip(e.m.bins, doc0.binaries or ()):
        b.flag = f
    audit(ctx, e, e.kp.tree.getroot(), 'in memory')

    def on_save(data1, doc):
        ctx.count('saved files')
        audit(ctx, e, doc.root, 'in the saved file')
        header(ctx, data, data1, doc0, doc, e)
        if v4:
            want = [b.flag for b in e.m.bins]
            got = [f for f, _ in doc.binaries]
            ctx.check(got == want, 'binary flags are %r, expected %r' % (got, want), operations=e.trace[-40:])
    e.on_save.append(on_save)
    # unrelated saves: the whole document
    for _ in range(rng.choice([1, 2])):
        out = io.BytesIO()
        e.log('save')
        e.kp.save(out)
        doc = R.decode(out.getvalue(), password='pw')
        ctx.count('whole documents')
        ctx.eval((ctx.index, 'whole', len(e.trace)))
        d = R.diff(R.canon(doc0.root), R.canon(doc.root))
        ctx.check(not d, 'opening and saving changed the document: %s' % d, operations=e.trace)
        on_save(out.getvalue(), doc)
        if rng.random() < .5:
            e.reopen(out.getvalue())
    base = e.compare

    def compare(kind):
        base(kind)
        audit(ctx, e, e.kp.tree.getroot(), 'in memory')
    e.compare = compare
    for _ in range(rng.choice([2, 4])):
        e.run(engine.mix(SET=3, TREE=3, HIST=1.5, TRASH=1, BIN=1.5, TIME=1, READ=.5, set_uuid=.3, bad_set=.3), rng.choice([3, 8]))
        e.op_save()
        if rng.random() < .2:
            e.op_own_save()
            e.compare('save')


def fixture(ctx, rng, i):
    f = fixtures.load(i)
    if f is None:
        return
    name, data, pw, kf = f
    ctx.count('fixtures')
    import pykeepass
    doc0 = R.decode(data, password=pw, keyfile=kf)
    kp = pykeepass.PyKeePass(io.BytesIO(data), password=pw, keyfile=io.BytesIO(kf) if kf is not None else None)
    e = engine.Engine(ctx, rng, kp, M.from_tree(kp), kp.version, 'C22', scratch=ctx.scratch, api=False)
    ctx.trace = e.trace
    e.log('fixture ' + name)
    attach(e.m, doc0.root)
    b = io.BytesIO()
    kp.save(b)
    doc = R.decode(b.getvalue(), password=pw, keyfile=kf)
    ctx.eval((name, 'whole'))
    audit(ctx, e, doc.root, 'in the saved file')
    header(ctx, data, b.getvalue(), doc0, doc, e)
