"""C07: protected fields stay protected and nothing is written in clear"""
import base64
import os
import re
import tempfile
import zlib

from lxml import etree

from .. import engine, gen, model as M, refkdbx as R, shim
from ..fw import Violation

SHIM = True
LEVEL = 'exploration'
QUICK, THOROUGH = 700, 4000
RULE = ('One evaluation compares the protection status of every field of every entry and history entry with the shadow model after one operation, or inspects one '
        'saved file: each protected value of its payload is ciphertext of the inner cipher, and none of the unique tokens in fields and attachments occurs in the '
        'bytes written to disk (captured at libc write, temporary files included). Distinct by operation history; non-trivial if the database has a protected value.')
ASSUME = ['set_custom_property states the protection on every call (default: none)']
MUST_OBSERVE = ['saves', 'protected values in payloads', 'bytes captured', 'reopens', 'emptied and set again']


class Tokens:
    """texts with a unique token each"""
    def __init__(self, ctx):
        self.n = 0
        self.ctx = ctx
        self.all = []

    def tok(self, rng):
        self.n += 1
        t = 'Tk%d%s' % (self.n, ''.join(rng.choices('abcdefghijklmnopqrstuvwxyz0123456789', k=14)))
        self.all.append(t)
        return t

    def text(self, rng, *a, **k):
        r = rng.random()
        if r < .05:
            return ''
        if r < .1:
            return rng.choice([' ', '   ', '\n', '\t', '\u3000', '=', 'ab==', 'AAAA'])
        if r < .3:
            return gen.text(rng) + self.tok(rng)
        return self.tok(rng)

    def name(self, rng):
        return self.tok(rng) + rng.choice(['', '"', "'", ' \xe9'])


def in_clear(raw, toks):
    hay = [raw]
    for m in re.finditer(rb'\x1f\x8b\x08', raw):
        try:
            hay.append(zlib.decompressobj(31).decompress(raw[m.start():]))
        except zlib.error:
            pass
    for t in toks:
        b = t.encode()
        # every alignment of base64
        forms = [b, t.encode('utf-16-le'), b.hex().encode()] + [base64.b64encode(b'\0' * k + b)[(k * 4 + 2) // 3 + 1:-5] for k in range(3)]
        for h in hay:
            for f in forms:
                if f in h:
                    return t
    return None


def case(ctx):
    rng = ctx.rng
    tk = Tokens(ctx)
    o = gen.Opt(groups=2, entries=rng.choice([2, 5]), nbin=3, hist=.5, prot_std=rng.choice([.05, .4]))
    e = engine.start(ctx, rng, 'C07', o, cfg=gen.config(rng, compressed=rng.random() < .4), texts=tk.text, names=tk.name)
    ctx.trace = e.trace
    e.uses = tk
    base = os.path.realpath(ctx.scratch)
    tempfile.tempdir = os.path.join(base, 'tmp')
    os.makedirs(tempfile.tempdir, exist_ok=True)
    try:
        for _ in range(rng.choice([2, 4])):
            e.run(engine.mix(SET=6, refill=1.2, TREE=2, HIST=2, TRASH=.3, BIN=.7), rng.choice([4, 8]))
            if rng.random() < .5:
                data = tk.tok(rng).encode() * 3
                e.kp.add_binary(data, compressed=False)
                e.m.bins.append(M.Bin(data))
                e.op_attach(len(e.m.bins) - 1)
            save(ctx, e, tk, base)
    finally:
        tempfile.tempdir = None


def save(ctx, e, tk, base):
    cap = tempfile.TemporaryFile(dir='/dev/shm' if os.path.isdir('/dev/shm') else base)
    shim.arm(base, shim.COUNT)
    shim.capture(cap.fileno())
    try:
        if e.rng.random() < .6:
            p = os.path.join(base, 'out%d.kdbx' % e.rng.randint(0, 2))
            e.log('save(path)')
            e.kp.save(p)
            data = open(p, 'rb').read()
        else:
            e.log('save()')
            e.kp.save()
            if hasattr(e.kp.filename, 'read'):
                data = e.kp.filename.getvalue()
            else:
                data = open(e.kp.filename, 'rb').read()
    finally:
        shim.capture(-1)
        shim.disarm()
    cap.seek(0)
    raw = cap.read()
    cap.close()
    ctx.count('saves')
    ctx.count('bytes captured', len(raw))
    e.compare('save')
    # the stored payload: protected values are ciphertext
    try:
        raw_root = R.decode(data, password=e.pw, keyfile=e.keyfile, raw=True).root
    except Exception:
        raw_root = None
    raws, clears = list(raw_root.iter('Value')) if raw_root is not None else [], list(e.kp.tree.getroot().iter('Value'))
    if len(raws) == len(clears):
        for a, b in zip(raws, clears):
            if b.get('Protected') == 'True' and b.text and a.text == b.text:
                raise Violation('the protected value %.60r is stored in clear in the payload' % b.text, {'operations': e.trace[-30:]})
    doc = e.compare_file(data)
    clear = in_clear(raw, tk.all) or in_clear(data, tk.all)
    ctx.eval((ctx.index, e.th, 'bytes'))
    if clear:
        raise Violation('the text %r was written in clear' % clear, {'operations': e.trace[-30:]})
    # their text occurs nowhere else unless an unprotected field has it too
    parser = etree.XMLParser(resolve_entities=False, huge_tree=True)
    raw_root = etree.fromstring(doc.xml_raw, parser)
    prot, unprot = [], []
    raws, clears = list(raw_root.iter('Value')), list(doc.root.iter('Value'))
    ctx.check(len(raws) == len(clears), 'payload structure')
    for a, b in zip(raws, clears):
        if a.get('Protected') == 'True':
            if b.text:
                prot.append(b.text)
                ctx.count('protected values in payloads')
        else:
            unprot.append(b.text or '')
    joined = '\n'.join(unprot + [x.text or '' for x in doc.root.iter('Key')] + [x.text or '' for t in ('Name', 'Notes', 'Window', 'DefaultSequence', 'KeystrokeSequence', 'DatabaseName', 'DatabaseDescription', 'DefaultUserName', 'Tags') for x in doc.root.iter(t)])
    for v in prot:
        for t in re.findall(r'Tk\d+[a-z0-9]{14}', v):
            if t.encode() in doc.xml_raw and t not in joined:
                raise Violation('the protected text %r occurs in clear in the payload' % t, {'operations': e.trace[-30:]})
    ctx.eval((ctx.index, e.th, 'payload'), nontrivial=bool(prot))
    if e.rng.random() < .6:
        e.reopen(data)
