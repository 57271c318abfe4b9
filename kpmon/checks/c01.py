"""C01: saving and reopening preserves everything"""
import io
import os

from .. import engine, fixtures, gen, model as M, refkdbx as R
from ..fw import Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 300, 6000
RULE = ('One evaluation compares the shadow model with the complete content (XML tree, every getter, independent decoding of the saved file) after one '
        'operation; a case is a random database (version x cipher x KDF x compression x inner cipher) edited by a random operation sequence with '
        'saves and reopens, or a large one (payload around 1 MiB block boundaries, texts over 10 MB, hundreds of nested groups, thousands of protected '
        'values), or a fixture. Distinct by the whole operation history so far; non-trivial if the history contains an edit or a save.')
ASSUME = ['text is XML-representable', 'custom property keys are not empty']
MUST_OBSERVE = ['saves', 'reopens', 'reloads', 'large databases', 'exact multiples of the block size', 'payload lengths around powers of two', 'saves in place']

LETTERS = 'abcdefghijklmnopqrstuvwxyz0123456789'


def boundaries(ctx, rng, e, put, version):
    """payloads whose stored length meets or just misses a multiple of the writer's block size"""
    def total():
        b = io.BytesIO()
        e.kp.save(b)
        doc = R.decode(b.getvalue(), password=e.pw)
        return sum(doc.block_sizes), doc
    n, doc = total()
    binary = doc.compressed and version[0] == 4
    for target in rng.sample([1, 1, 2], 2):
        size = target * R.BLOCK - n
        goal = target * R.BLOCK + rng.choice([0, 0, 0, -16, -1, 1, 16])
        held = False
        for attempt in range(8):
            size = max(1, size)
            if binary:
                # incompressible, so that the length can be steered
                data = rng.randbytes(size)
                if held:
                    e.kp.delete_binary(len(e.m.bins) - 1)
                    e.m.bins.pop()
                e.kp.add_binary(data)
                e.m.bins.append(M.Bin(data))
                e.log('binary of %d bytes' % size)
                held = True
            else:
                put('filler', ''.join(rng.choices(LETTERS, k=size)))
            have, _ = total()
            if have == goal or (e.cfg_cipher != 'chacha20' and have == goal - goal % -16 and version[0] == 4):
                break
            size += goal - have
        if have % R.BLOCK == 0:
            ctx.count('exact multiples of the block size')
        ctx.count('sizes around block boundaries')
        e.op_save()
        if held:
            e.kp.delete_binary(len(e.m.bins) - 1)
            e.m.bins.pop()
            e.log('binary deleted')
        n, _ = total()
        if not binary:
            put('filler', '')
            n, _ = total()


SIZES = [(1 << k) + d for k in range(12, 24) for d in (-1, 0, 1)]


def sizes(ctx, rng, e, put):
    """plain payload lengths around powers of two"""
    def plain():
        b = io.BytesIO()
        e.kp.save(b)
        doc = R.decode(b.getvalue(), password=e.pw)
        return len(doc.xml_raw) + (sum(5 + len(v) for _, v in doc.inner_fields) if doc.version[0] == 4 else 0)
    put('filler', 'x')
    n = plain() - 1
    for want in SIZES[ctx.index // 96 % 3::3]:
        if want <= n:
            continue
        put('filler', 'x' * (want - n))
        if plain() == want:
            ctx.count('payload lengths around powers of two')
        e.op_save()
        put('filler', 'x')
        n = plain() - 1


def large(ctx, rng):
    """boundaries that small random content never reaches"""
    version = rng.choice([(4, 0), (3, 1)])
    slot = ctx.index // 12 % 8
    kind = ['block', 'sizes', 'text', 'block', 'deep', 'sizes', 'many', 'binary'][slot]
    cipher = rng.choice(['aes256', 'chacha20'])
    o = gen.Opt(groups=3, entries=4, nbin=2, big=kind == 'binary')
    e = engine.start(ctx, rng, 'C01', o, cfg=gen.config(rng, version, cipher=cipher, compressed=slot == 1 if kind == 'sizes' else ctx.index // 96 % 2 == 0 if kind == 'text' else rng.random() < .4))
    e.cfg_cipher = cipher
    ctx.trace = e.trace
    ctx.count('large databases')
    ctx.count('large: ' + kind)
    kp = e.kp
    if not e.m.entries():
        e.step([(1, 'add_entry')])
    n = e.entry()
    r = e.real(n)
    prot = kind not in ('block', 'sizes') and rng.random() < .5

    def put(key, v):
        e.log('property %r of %d characters' % (key, len(v)))
        e.real(n).set_custom_property(key, v, protect=prot)
        n.fields.pop(key, None)
        n.fields[key] = (v, prot)
    if kind == 'block':
        boundaries(ctx, rng, e, put, version)
    elif kind == 'sizes':
        e.api = False
        sizes(ctx, rng, e, put)
    elif kind == 'text':
        put('huge', rng.choice(['x', '\xe9', '<']) * [17_500_000, 10_000_001, 9_999_999, 11_500_000][ctx.index // 96 % 4])
        e.api = False
        e.op_save()
    elif kind == 'deep':
        g = e.m.root
        for i in range([280, 130, 400, 256][ctx.index // 96 % 4]):
            rg = kp.add_group(g.h or kp.root_group, 'n%d' % i)
            c = M.G()
            c.parent, c.name, c.notes, c.icon, c.expires, c.entries, c.groups = g, 'n%d' % i, '', '', 'False', [], []
            c.uuid, c.times, c.h = engine.b64u(rg.uuid), {k: getattr(rg, k) for k in M.TIMES}, rg
            g.groups.append(c)
            g = c
        e.log('nested groups')
        e.compare('open')
        e.op_save()
    elif kind == 'many':
        for i in range(rng.choice([300, 900])):
            k, v, p = 'p%d' % i, gen.text(rng), rng.random() < .8
            r.set_custom_property(k, v, protect=p)
            n.fields.pop(k, None)
            n.fields[k] = (v, p)
        e.log('many properties')
        e.op_save()
    else:
        for _ in range(3):
            data = gen.blob(rng, True)
            kp.add_binary(data)
            e.m.bins.append(M.Bin(data))
        e.log('big binaries')
        e.op_save()
    e.compare('save')
    e.run(engine.mix(SET=3, TREE=1, BIN=1, SAVE=1), 4)
    e.op_save()


def fixture(ctx, rng, i):
    import pykeepass
    f = fixtures.load(i)
    if f is None:
        return False
    name, data, pw, kf = f
    doc = R.decode(data, password=pw, keyfile=kf)
    path = os.path.join(ctx.scratch, name)
    with open(path, 'wb') as f:
        f.write(data)
    if kf is not None:
        with open(path + '.key', 'wb') as f:
            f.write(kf)
    kp = pykeepass.PyKeePass(path, password=pw, keyfile=path + '.key' if kf is not None else None)
    e = engine.Engine(ctx, rng, kp, M.from_doc(doc), doc.version, 'C01', pw=pw, keyfile=kf, scratch=ctx.scratch)
    e.log('open fixture ' + name)
    ctx.trace = e.trace
    e.compare('open')
    ctx.count('fixtures')
    e.run(engine.mix(SET=4, TREE=3, TRASH=.5, HIST=1.5, BIN=2, TIME=1), 10)
    e.op_own_save()
    e.compare('save')
    e.op_save()
    return True


def case(ctx):
    rng = ctx.rng
    if ctx.index < len(fixtures.LIST) and fixture(ctx, rng, ctx.index):
        return
    if ctx.index % 12 == 11:
        return large(ctx, rng)
    o = gen.Opt(groups=rng.choice([1, 4, 8]), entries=rng.choice([2, 6, 12]), nbin=rng.choice([0, 3, 12]), unknown=rng.random() < .3)
    e = engine.start(ctx, rng, 'C01', o, pw=rng.choice(['pw', gen.password(rng)]), keyfile=rng.choice([None, None, b'kf', rng.randbytes(32)]))
    ctx.trace = e.trace
    e.run(engine.mix(SET=4, TREE=3, TRASH=.5, HIST=1.5, BIN=2, TIME=1, SAVE=2), rng.choice([8, 15, 30]))
    e.op_save()
