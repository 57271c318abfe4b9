"""C14: field references resolve to the referenced text"""
import base64
import re
import resource
import signal
import time
import uuid

from .. import engine, gen
from ..fw import Timeout, Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 1600, 7000
RULE = ('One evaluation is one deref (of a text, of an entry attribute, or of a reference made by ref) on a random graph of field references, compared with an independent '
        'resolver over the XML tree; circular ones must end in None or an exception within 20 s and 4 GB. Distinct by (database, text); non-trivial if the text has a reference.')
ASSUME = ['substituted texts do not put together new references']
MUST_OBSERVE = ['resolved', 'nested', 'dangling', 'circular', 'ref', 'no reference', 'two references', 'uuid results', 'unset results', 'duplicates', 'edits']
LETTER = {'T': 'Title', 'U': 'UserName', 'P': 'Password', 'A': 'URL', 'N': 'Notes', 'I': None}
ATTR = {'T': 'title', 'U': 'username', 'P': 'password', 'A': 'url', 'N': 'notes', 'I': 'uuid'}
RX = re.compile(r'\{REF:([TUPANI])@([TUPANI]):([^}]+)\}')
SAFE = ['', '', 'x', ' ', '{', '}', '{}', '{TITLE}', '{REF:X@I:00}', '{ref:T@I:00}', '\\1', '\\g<0>', '$1', '%s', '\u4e2d', '\U0001f600', '"', "'", 'a"b\'c', '&<', 'end\n', '{{', '}}', '.*', '(', 'REF']


class Circular(Exception):
    pass


class Oracle:
    def __init__(self, kp):
        self.es = []
        for el in kp.tree.getroot().find('Root').iter('Entry'):
            if el.getparent().tag == 'History':
                continue
            f = {s.findtext('Key'): s.findtext('Value') or '' for s in el.findall('String')}
            u = uuid.UUID(bytes=base64.b64decode(el.findtext('UUID')))
            self.es.append((u, f))

    def field(self, e, letter):
        return e[0].hex.upper() if letter == 'I' else e[1].get(LETTER[letter], '')

    def find(self, letter, value):
        if letter == 'I':
            try:
                u = uuid.UUID(value)
            except ValueError:
                return None
            return next((e for e in self.es if e[0] == u), None)
        return next((e for e in self.es if self.field(e, letter) == value), None)

    def expand(self, text, active=()):
        """-> text or None (a reference without target); raises Circular"""
        failed = False
        out, pos = [], 0
        for m in RX.finditer(text):
            if m.group(0) in active:
                raise Circular()
            out.append(text[pos:m.start()])
            pos = m.end()
            e = self.find(m.group(2), m.group(3))
            if e is None:
                failed = True
                continue
            t = self.expand(self.field(e, m.group(1)), active + (m.group(0),))
            if t is None:
                failed = True
                continue
            out.append(t)
        if failed:
            return None
        return ''.join(out) + text[pos:]

    def reaches_cycle(self, text):
        try:
            self.expand(text)
            return False
        except Circular:
            return True


def guarded(fn):
    """-> ('value', v) or ('raised', e) or ('no answer', None)"""
    def late(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, late)
    t0 = time.monotonic()
    left = signal.alarm(20)
    lim = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, lim[1]))
    try:
        return 'value', fn()
    except Timeout:
        return 'no answer', 'no end within 20 s'
    except MemoryError:
        return 'no answer', 'out of memory'
    except Exception as e:
        return 'raised', e
    finally:
        resource.setrlimit(resource.RLIMIT_AS, lim)
        signal.signal(signal.SIGALRM, old)
        signal.alarm(max(1, left - int(time.monotonic() - t0)))


def judge(ctx, orc, what, text, fn):
    nref = len(RX.findall(text))
    ctx.eval((ctx.index, ctx.phase, what, text), nontrivial=nref > 0)
    kind, got = guarded(fn)
    info = {'text': text, 'got': repr(got)[:300], 'operations': ctx.trace[-20:]}
    if kind == 'no answer':
        raise Violation('%s of %r: %s' % (what, text, got), info)
    try:
        want = orc.expand(text)
    except Circular:
        ctx.count('circular')
        if kind == 'value' and got is not None:
            raise Violation('%s of the circular %r gives %r' % (what, text, got), info)
        return
    if kind == 'raised':
        raise Violation('%s of %r raises %r' % (what, text, got), info)
    if got != want:
        raise Violation('%s of %r gives %r instead of %r' % (what, text, got, want), dict(info, want=want))
    ctx.count('dangling' if want is None else 'resolved' if nref else 'no reference')
    if nref > 1:
        ctx.count('two references')
    if want is not None and any(RX.search(orc.field(e, m[0]) or '') for m in RX.findall(text) for e in [orc.find(m[1], m[2])] if e):
        ctx.count('nested')


def make_ref(rng, kp, es, orc_fields):
    """a reference text to one of the entries or to nothing"""
    w = rng.choice('TUPANI')
    r = rng.random()
    if r < .12 or not es:
        v = rng.choice(['00', gen.new_uuid(rng).hex.upper(), 'nobody', 'F' * 32, 'x' * 33, '"', "it's"])
        return '{REF:%s@%s:%s}' % (w, rng.choice('TUPANI'), v)
    e = rng.choice(es)
    if r < .6:
        u = e.uuid.hex
        return '{REF:%s@I:%s}' % (w, u.upper() if rng.random() < .8 else u)
    s = rng.choice('TUPAN')
    v = getattr(e, ATTR[s]) or 'nobody'
    if '}' in v or RX.search(v):
        return '{REF:%s@I:%s}' % (w, e.uuid.hex.upper())
    return '{REF:%s@%s:%s}' % (w, s, v)


def make_text(rng, kp, es):
    n = rng.choice([0, 1, 1, 2, 3])
    parts = [rng.choice(SAFE)]
    for _ in range(n):
        parts.append(make_ref(rng, kp, es, None))
        parts.append(rng.choice(SAFE))
    if n > 1 and rng.random() < .2:
        parts.append(parts[1])
    return ''.join(parts)


def plain(rng, *a, **k):
    while True:
        t = gen.text(rng)
        if 'REF' not in t and '{' not in t and '}' not in t:
            return t


def pname(rng):
    while True:
        t = plain(rng)
        if t:
            return t


def composed(orc, text):
    """do substituted texts put together references that neither part has?"""
    try:
        r = orc.expand(text)
    except Circular:
        return False
    return r is not None and RX.search(r) is not None


def case(ctx):
    rng = ctx.rng
    ctx.phase = 0
    o = gen.Opt(groups=rng.choice([0, 3]), entries=rng.choice([3, 7]), hist=.4, nbin=1)
    e = engine.start(ctx, rng, '*', o, texts=plain, names=pname)
    kp = e.kp
    ctx.trace = []
    for _ in range(rng.choice([1, 2])):
        kp.add_entry(rng.choice(kp.groups), pname(rng), plain(rng), plain(rng), force_creation=True)
    for phase in range(3):
        ctx.phase = phase
        es = kp.entries
        if phase:
            ctx.count('edits')
        # duplicates, so that "first" matters
        if len(es) > 2 and rng.random() < .5:
            a, b = rng.sample(es, 2)
            b.title = a.title or 'dup'
            ctx.count('duplicates')
        # reference graph
        for _ in range(rng.choice([1, 3, 6])):
            x = rng.choice(es)
            at = rng.choice(['title', 'username', 'password', 'url', 'notes'])
            t = make_text(rng, kp, es)
            if t:
                ctx.trace.append('%s.%s = %r' % (x.uuid.hex[:6], at, t))
                setattr(x, at, t)
        r = rng.random()
        if r < .25:
            # explicit cycle, possibly with growing text
            k = rng.choice([1, 2, 3, 5])
            cyc = [rng.choice(es) for _ in range(k)]
            for i, x in enumerate(cyc):
                y = cyc[(i + 1) % k]
                t = rng.choice(['', 'pad ', '{']) + '{REF:N@I:%s}' % y.uuid.hex.upper() * rng.choice([1, 1, 2])
                x.notes = t
                ctx.trace.append('%s.notes = %r' % (x.uuid.hex[:6], t))
        elif r < .45:
            # long chain
            k = rng.choice([2, 6, 12, 12, 40])
            prev = None
            chain = []
            for i in range(k):
                x = kp.add_entry(rng.choice(kp.groups), 'chain%d-%d' % (phase, i), 'u', 'p', force_creation=True)
                x.notes = pname(rng) if prev is None else rng.choice(SAFE) + '{REF:N@%s}' % rng.choice(['I:' + prev.uuid.hex.upper(), 'T:' + prev.title])
                prev = x
            es = kp.entries
        orc = Oracle(kp)
        for _ in range(14):
            t = make_text(rng, kp, es)
            if composed(orc, t):
                ctx.count('composed, skipped')
                continue
            judge(ctx, orc, 'deref', t, lambda: kp.deref(t))
        for x in rng.sample(es, min(len(es), 5)):
            for at in ('title', 'username', 'password', 'url', 'notes'):
                v = getattr(x, at)
                if v and not composed(orc, v):
                    judge(ctx, orc, 'Entry.deref(%s)' % at, v, lambda: x.deref(at))
                ref = x.ref(at)
                ctx.count('ref')
                want = '{REF:%s@I:%s}' % ([k for k in ATTR if ATTR[k] == at][0], x.uuid.hex.upper())
                ctx.check(ref == want, 'ref(%r) gives %r instead of %r' % (at, ref, want))
                pre, post = rng.choice(SAFE), rng.choice(SAFE)
                if composed(orc, pre + ref + post):
                    continue
                judge(ctx, orc, 'deref(ref(%s))' % at, pre + ref + post, lambda: kp.deref(pre + ref + post))
                if not v:
                    ctx.count('unset results')
                    ctx.check(kp.deref(ref) == '', 'a reference to an unset field gives %r' % kp.deref(ref))
            ref = x.ref('uuid')
            ctx.count('uuid results')
            judge(ctx, orc, 'deref(ref(uuid))', ref, lambda: kp.deref(ref))
            ctx.check(kp.deref(ref) == x.uuid.hex.upper(), 'a reference to a UUID gives %r' % kp.deref(ref))
        # moves must not matter
        if phase < 2 and es:
            kp.move_entry(rng.choice(es), rng.choice(kp.groups))
    ctx.sample({'case': ctx.index, 'edits': ctx.trace[:6]})
