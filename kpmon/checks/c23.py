"""C23: credential-change policy"""
import io
import os
from datetime import datetime, timedelta, timezone

from .. import engine, gen, model as M, refkdbx as R
from ..fw import Violation

UTC = timezone.utc
LEVEL = 'exploration'
QUICK, THOROUGH = 2400, 6000
RULE = ('One evaluation judges required / recommended for one combination of change date and limits against the definition (dates within seconds of every day boundary, future '
        'dates, limits -1, 0, absent), the values read back after one assignment, in memory or from the saved file, or the metadata after one unrelated operation. Distinct '
        'by (date offset, limits, format) or operation history.')
ASSUME = ['the clock does not jump during an evaluation; dates closer than 3 s to a boundary are not judged']
MUST_OBSERVE = ['judged required', 'judged recommended', 'required', 'recommended', 'not required', 'credential changes', 'absent date', 'absent limit', 'saved', 'other operations', 'unset limit']


def now():
    return datetime.now(UTC)


def judge(ctx, e, date, force, rec, why=''):
    """date: instant or None; force / rec: int or None"""
    kp = e.kp
    if date is not None:
        # not too close to a whole number of days
        s = (now() - date).total_seconds() % 86400
        if s > 86400 - 3 or s < .5:
            return
    for what, lim in (('required', force), ('recommended', rec)):
        got = getattr(kp, 'credchange_' + what)
        days = None if date is None else (now() - date) // timedelta(days=1)
        want = date is not None and lim is not None and lim != -1 and days > lim
        ctx.eval((what, e.v4, days, lim, str(date and (now() - date).seconds // 60)))
        ctx.count('judged ' + what)
        ctx.count(what if want else 'not ' + what)
        if date is None:
            ctx.count('absent date')
        if lim is None:
            ctx.count('absent limit')
        if lim == -1:
            ctx.count('unset limit')
        if bool(got) is not want or got is None:
            raise Violation('credential change %s is %r, %s days after the change with limit %r %s' % (what, got, days, lim, why), {'operations': e.trace[-30:]})


def meta(ctx, e, snap, kp=None):
    kp = kp or e.kp
    m = e.m.meta
    got = (kp.credchange_date, kp.credchange_required_days, kp.credchange_recommended_days)
    want = (m['changed'], None if m['force'] == '' else int(m['force']), None if m['rec'] == '' else int(m['rec']))
    ctx.eval((ctx.index, len(e.trace), 'meta', snap))
    if got != want:
        raise Violation('%s: date and limits are %r, expected %r' % (snap, got, want), {'operations': e.trace[-30:]})


def boundary(rng):
    """(offset from now, limit)"""
    d = rng.choice([0, 1, 2, 7, 29, 30, 31, 182, 365, 366, 3650, 36500])
    delta = timedelta(seconds=rng.choice([-86400, -3600, -60, -5, 1, 5, 60, 3600, 40000, 86399 - 5]))
    lim = rng.choice([d, d, d - 1, d + 1, -1, 0, 1, 10 ** 6])
    if lim < -1:
        lim = 0
    return timedelta(days=d) + delta, lim


def spell(rng, t):
    off = rng.choice([0, 60, -300, 345, 839])
    return t.astimezone(rng.choice([UTC, timezone(timedelta(minutes=off)), gen.Summer(off)]))


def case(ctx):
    rng = ctx.rng
    o = gen.Opt(groups=2, entries=3, nbin=2)
    cfg = gen.config(rng, cipher=rng.choice(['aes256', 'chacha20']))
    root, bins = gen.database(rng, cfg['version'], o)
    m = root.find('Meta')
    if rng.random() < .4:
        for k in ('MasterKeyChanged', 'MasterKeyChangeRec', 'MasterKeyChangeForce'):
            if rng.random() < .5:
                for x in m.findall(k):
                    m.remove(x)
    if rng.random() < .3 and m.find('MasterKeyChanged') is not None:
        t = now() - boundary(rng)[0]
        m.find('MasterKeyChanged').text = gen.enc_time_alt(rng, cfg['version'][0] == 4, t) if rng.random() < .5 else gen.enc_time(cfg['version'][0] == 4, t)
    for k in ('MasterKeyChangeRec', 'MasterKeyChangeForce'):
        if m.find(k) is not None and rng.random() < .5:
            m.find(k).text = str(boundary(rng)[1])
    data = R.encode(cfg, root, password='pw', binaries=bins)
    import pykeepass
    snap = M.from_doc(R.decode(data, password='pw'))
    path = os.path.join(ctx.scratch, 'd.kdbx')
    with open(path, 'wb') as f:
        f.write(data)
    kp = pykeepass.PyKeePass(path, password='pw')
    e = engine.Engine(ctx, rng, kp, snap, cfg['version'], 'C23', pw='pw', scratch=ctx.scratch, api=False)
    ctx.trace = e.trace
    e.log('open')

    def state():
        mm = e.m.meta
        return mm['changed'], None if mm['force'] == '' else int(mm['force']), None if mm['rec'] == '' else int(mm['rec'])
    meta(ctx, e, 'after opening')
    judge(ctx, e, *state())
    for _ in range(rng.choice([4, 8, 14])):
        r = rng.random()
        if r < .25:
            t = spell(rng, now() - boundary(rng)[0] if rng.random() < .8 else gen.instant(rng))
            e.log('credchange_date = %s' % t)
            e.kp.credchange_date = t
            got = e.kp.credchange_date
            ctx.eval((ctx.index, len(e.trace), 'date'))
            ctx.check(got is not None and got.utcoffset() == timedelta(0) and engine.stored_as(t, got, e.v4), 'credchange_date set to %s reads %s' % (t, got), operations=e.trace[-30:])
            e.m.meta['changed'] = got
        elif r < .5:
            attr, k = rng.choice([('credchange_required_days', 'force'), ('credchange_recommended_days', 'rec')])
            v = boundary(rng)[1]
            cur = e.m.meta['changed']
            if cur is not None and rng.random() < .6:
                v = max(-1, (now() - cur).days + rng.choice([-1, 0, 0, 1]))
            e.log('%s = %d' % (attr, v))
            setattr(e.kp, attr, v)
            e.m.meta[k] = str(v)
        elif r < .65:
            t0 = now()
            if rng.random() < .5:
                e.pw = rng.choice(['pw', 'new', '', None, e.pw])
                e.log('password = %r' % e.pw)
                e.kp.password = e.pw
            else:
                e.keyfile = rng.choice([None, b'k', rng.randbytes(32), e.keyfile])
                p = None
                if e.keyfile is not None:
                    old = e.kp.keyfile
                    if old is not None and rng.random() < .5:
                        # the same file again, perhaps with new content
                        p = old
                        if hasattr(p, 'read'):
                            e.keyfile = p.getvalue()
                    elif rng.random() < .2:
                        p = io.BytesIO(e.keyfile)
                    else:
                        p = os.path.join(ctx.scratch, 'k%d' % rng.randint(0, 2))
                    if not hasattr(p, 'read'):
                        with open(p, 'wb') as f:
                            f.write(e.keyfile)
                        p = rng.choice([p, __import__('pathlib').Path(p)])
                e.log('keyfile = %s' % ('...' if p else None))
                e.kp.keyfile = p
            t1 = now()
            got = e.kp.credchange_date
            ctx.count('credential changes')
            ctx.eval((ctx.index, len(e.trace), 'cred'))
            ctx.check(got is not None and t0 - timedelta(seconds=1) <= got <= t1, 'assigning a credential at %s sets the change date to %s' % (t1, got), operations=e.trace[-30:])
            e.m.meta['changed'] = got
            for what, lim in (('required', state()[1]), ('recommended', state()[2])):
                ctx.check(getattr(e.kp, 'credchange_' + what) is False, 'a credential change is %s right after one' % what, operations=e.trace[-30:])
        elif r < .85:
            e.run(engine.mix(SET=3, TREE=2, HIST=1, TRASH=1, BIN=1, TIME=1, READ=2, bad_set=1), rng.choice([1, 4]))
            ctx.count('other operations')
        elif r < .93:
            e.op_save()
            ctx.count('saved')
        else:
            e.log('save(); reload()')
            e.kp.save()
            if not hasattr(e.kp.filename, 'read'):
                e.kp.reload()
                e.drop_handles()
            ctx.count('saved')
        d = M.diff(e.m.snap()['meta'], M.x_meta(e.kp.tree.getroot()))
        ctx.check(not d, 'after %s: %s' % (e.trace[-1], d and M.fmt(d[0])), operations=e.trace[-30:])
        meta(ctx, e, 'after ' + e.trace[-1])
        judge(ctx, e, *state(), why='after ' + e.trace[-1])
