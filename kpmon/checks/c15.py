"""C15: timestamps keep their exact instant"""
import base64
import os
import re
import time
from datetime import datetime, timedelta, timezone

from .. import engine, gen, model as M
from ..fw import Violation

UTC = timezone.utc
LEVEL = 'exploration'
QUICK, THOROUGH = 1500, 8000
RULE = ('One evaluation compares all times of all elements (XML text and getters) with the shadow model after one operation, or checks the encoding of every time in a '
        'saved file, or checks one expired verdict near the instant; the process runs under varying local time zones. Distinct by operation history; non-trivial if a time '
        'was set.')
ASSUME = ['datetimes are timezone-aware and at least a day inside the representable range']
MUST_OBSERVE = ['op:set_time', 'op:touch', 'op:add_entry', 'op:add_group', 'saves', 'reopens', 'encodings checked', 'near expiry: yes', 'near expiry: no', 'alternative encodings', 'expiry flag off']
ZONES = ['UTC', 'XYZ-5:30', 'ABC+11', 'EST5EDT', 'CET-1CEST,M3.5.0,M10.5.0/3', 'LHST-10:30LHDT-11', 'NNN-14']


def encoding(ctx, e, alt):
    def check(data, doc):
        for el in doc.root.find('Root').iter('CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime', 'LocationChanged'):
            if alt:
                continue
            t = el.text or ''
            if not t:
                continue
            if e.v4:
                ok = False
                try:
                    ok = len(base64.b64decode(t, validate=True)) == 8
                except ValueError:
                    pass
            else:
                ok = re.fullmatch(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,6})?(Z|\+00:00)', t) is not None
            ctx.count('encodings checked')
            if not ok:
                raise Violation('%s is stored as %r in a version %s file' % (el.tag, t, e.version), {'operations': e.trace[-30:]})
        ctx.eval((ctx.index, e.th, 'encoding'))
    return check


def near(ctx, e):
    """expired around the instant itself"""
    rng = e.rng
    x = e.entry() if rng.random() < .6 else e.group()
    if x is None:
        return
    r = e.real(x)
    delta = timedelta(seconds=rng.choice([-86400, -3600, -5, -1, 2, 5, 60, 3600, 7200, 86400]) + rng.random())
    off = timezone(timedelta(minutes=rng.choice([0, 0, 60, -300, 840, -720])))
    t = (datetime.now(UTC) + delta).astimezone(off)
    flag = rng.random() < .8
    e.log('expiry_time = now%+.1f s in %s, expires = %r' % (delta.total_seconds(), off, flag))
    r.expiry_time = t
    r.expires = flag
    x.expires = str(flag)
    x.times['expiry_time'] = r.expiry_time
    e._instant('expiry_time', t, r.expiry_time)
    stored = r.expiry_time
    t0 = datetime.now(UTC)
    got = r.expired
    t1 = datetime.now(UTC)
    if not flag:
        want = False
        ctx.count('expiry flag off')
    elif stored < t0:
        want = True
        ctx.count('near expiry: yes')
    elif stored > t1:
        want = False
        ctx.count('near expiry: no')
    else:
        return
    ctx.eval((ctx.index, e.th, 'expired'))
    if got is not want:
        raise Violation('expired is %r at %s with expiry time %s, flag %r' % (got, t1, stored, flag), {'operations': e.trace[-30:]})
    e.compare('time')


def case(ctx):
    rng = ctx.rng
    zone = rng.choice(ZONES)
    old = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        alt = rng.random() < .3
        o = gen.Opt(groups=2, entries=rng.choice([1, 4]), hist=.4, nbin=1, far_times=rng.random() < .5, alt_times=alt)
        e = engine.start(ctx, rng, 'C15', o, cfg=gen.config(rng, cipher=rng.choice(['aes256', 'chacha20'])))
        ctx.trace = e.trace
        e.log('TZ=%s' % zone)
        if alt:
            ctx.count('alternative encodings')
        e.on_save.append(encoding(ctx, e, alt))
        for _ in range(rng.choice([2, 4])):
            e.run(engine.mix(TIME=8, add_entry=1.5, add_group=1, HIST=.7, set_field=.7, set_expires=.5, move_entry=.3, save=.6, own_save=.3), rng.choice([4, 8]))
            near(ctx, e)
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()
