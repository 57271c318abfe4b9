"""C11: paths name elements and resolve back to them"""
import re
import uuid

from .. import engine, gen, model as M
from ..fw import Violation

LEVEL = 'exploration'
QUICK, THOROUGH = 1000, 5000
RULE = ('One evaluation compares the path property of every group, entry and history entry with the shadow model after some tree edits and renames, or looks up one '
        'present, absent or perturbed path (entries, groups, deprecated forms, anchored and loose patterns) and compares the result with the first model element in document order that '
        'has this path. Distinct by (history, path); non-trivial if the tree has a subgroup or the path has at least one component.')
ASSUME = ['group names and looked-up titles are not empty']
MUST_OBSERVE = ['paths compared', 'lookups found', 'lookups none', 'duplicate paths', 'regex lookups', 'loose patterns', 'history paths', 'root lookups', 'wrong kind lookups', 'path with other arguments', 'deep trees']


def names(rng):
    return rng.choice(['a', 'b', 'a', 'foo', '"', "'", 'a"b\'c', 'a/b', 'Root', 'x]', '*', '..']) if rng.random() < .55 else gen.name(rng)


def gpath(g):
    return [] if g.parent is None else gpath(g.parent) + [g.name]


def epath(e):
    if isinstance(e.parent, M.E):
        return epath(e.parent)[:-1] + [e.get('Title')]
    return gpath(e.parent) + [e.get('Title')]


def norm(p):
    return [x or '' for x in p]


def paths(ctx, e):
    """the path of every element"""
    n = 0

    def one(real, want, what):
        nonlocal n
        n += 1
        got = real.path
        if not isinstance(got, list) or norm(got) != want:
            raise Violation('the path of %s is %r instead of %r' % (what, got, want), {'operations': e.trace[-40:]})

    def walk(rg, g):
        one(rg, gpath(g), 'a group')
        for re_, x in zip(rg.entries, g.entries):
            one(re_, epath(x), 'an entry')
            for rh, h in zip(re_.history, x.hist):
                one(rh, epath(h), 'a history entry')
                ctx.count('history paths')
        for rs, s in zip(rg.subgroups, g.groups):
            walk(rs, s)
    walk(e.kp.root_group, e.m.root)
    for x in e.m.groups() + e.m.entries():
        if x.h is not None and e.rng.random() < .3:
            one(x.h, gpath(x) if isinstance(x, M.G) else epath(x), 'a kept object')
    ctx.count('paths compared', n)
    ctx.eval((ctx.index, e.th, 'paths'), nontrivial=len(e.m.groups()) > 1)


def lookup(ctx, e, path, kind):
    rng, kp = e.rng, e.kp
    cands = [x for x in (e.m.entries() if kind == 'entries' else e.m.groups()) if (epath(x) if kind == 'entries' else gpath(x)) == path]
    if len(cands) > 1:
        ctx.count('duplicate paths')
    want = cands[0].uuid if cands else None
    r = rng.random()
    if r < .12 and path:
        # patterns that match within the names
        flags = rng.choice([None, 'i', 'i'])
        pat = []
        for x in path:
            y = x.swapcase() if flags and x.isascii() else x
            k = rng.randrange(5)
            i = rng.randint(1, len(y))
            pat.append([re.escape(y[:i]), '^' + re.escape(y[:i]), re.escape(y[-i:]) + '$', '.', re.escape(y) + '|' + re.escape(y[:i])][k])
        if any(re.search('[\x00-\x08]', x) for x in pat):
            return
        rx = [re.compile(x, re.I if flags else 0) for x in pat]
        hit = lambda p: len(p) == len(rx) and all(y and r.search(y) for r, y in zip(rx, p))
        cands = [x for x in (e.m.entries() if kind == 'entries' else e.m.groups()) if hit(epath(x) if kind == 'entries' else gpath(x))]
        want = cands[0].uuid if cands else None
        form = rng.choice(['find_%s', 'find_%s', 'find_%s_by_path']) % kind
        call = '%s(path=%r, regex=True, flags=%r)' % (form, pat, flags)
        if form.endswith('by_path'):
            res = getattr(kp, form)(pat, regex=True, flags=flags)
        else:
            res = getattr(kp, form)(path=pat, regex=True, flags=flags)
        ctx.count('loose patterns')
    elif r < .25 and path:
        call = 'find_%s(path=%r, regex=True)' % (kind, path)
        pat = ['^' + re.escape(x) + r'\Z' for x in path]
        if any(re.search('[\x00-\x08]', x) for x in pat):
            return
        res = getattr(kp, 'find_' + kind)(path=pat, regex=True)
        ctx.count('regex lookups')
    elif r < .4 and path:
        call = 'find_%s_by_path(%r)' % (kind, path)
        res = getattr(kp, 'find_%s_by_path' % kind)(path)
    else:
        kw = rng.choice([{}, {}, {}, {'first': True}, {'first': False}])
        if rng.random() < .15:
            # a path decides alone
            kw = dict(kw)
            for k in rng.sample(['first', 'recursive', 'group', 'notes', 'uuid', 'history', 'name'], rng.randint(1, 3)):
                if k == 'group':
                    kw['group'] = rng.choice([x for x in [kp.root_group] + kp.root_group.subgroups])
                elif k == 'notes':
                    kw['notes'] = rng.choice(['', 'zz', gen.text(rng)])
                elif k == 'name':
                    kw['title' if kind == 'entries' else 'name'] = rng.choice(['zz', names(rng)])
                elif k == 'uuid':
                    kw['uuid'] = uuid.UUID(int=rng.getrandbits(128))
                elif k != 'history' or kind == 'entries':
                    kw[k] = rng.random() < .5
            ctx.count('path with other arguments')
        call = 'find_%s(path=%r%s)' % (kind, path, ', ' + repr(kw) if kw else '')
        res = getattr(kp, 'find_' + kind)(path=path, **kw)
    ctx.eval((ctx.index, e.th, call), nontrivial=bool(path))
    ctx.count('lookups found' if want else 'lookups none')
    info = {'operations': e.trace[-40:]}
    if isinstance(res, list):
        raise Violation('%s gives a list' % call, info)
    if res is not None and type(res).__name__ != {'entries': 'Entry', 'groups': 'Group'}[kind]:
        raise Violation('%s gives %r' % (call, res), info)
    got = None if res is None else engine.b64u(res.uuid)
    if got != want:
        raise Violation('%s gives %s instead of %s' % (call, 'nothing' if res is None else '%r (%s)' % (res, got), want), info)


def lookups(ctx, e, n):
    rng = e.rng
    eps = [p for p in (epath(x) for x in e.m.entries()) if all(p)]
    gps = [p for p in (gpath(x) for x in e.m.groups()) if all(p)]
    lookup(ctx, e, [], 'groups')
    ctx.count('root lookups')
    for _ in range(n):
        kind = rng.choice(['entries', 'groups'])
        own, other = (eps, gps) if kind == 'entries' else (gps, eps)
        r = rng.random()
        if r < .5 and own:
            p = rng.choice(own)
        elif r < .65 and other:
            p = rng.choice(other)
            ctx.count('wrong kind lookups')
        else:
            p = list(rng.choice(eps + gps)) if eps + gps else []
            k = rng.randrange(7)
            if k == 0 and p:
                del p[rng.randrange(len(p))]
            elif k == 1:
                p.insert(0, e.m.root.name or 'Root')
            elif k == 2 and p:
                i = rng.randrange(len(p))
                p[i] = rng.choice([p[i].swapcase(), p[i] + ' ', p[i][:-1], p[i] + '"', '*', '.'])
            elif k == 3:
                p = p[::-1]
            elif k == 4:
                p.append(rng.choice(p) if p else names(rng))
            elif k == 5:
                p = [names(rng) for _ in range(rng.randint(1, 4))]
            elif p:
                p[rng.randrange(len(p))] = names(rng)
        if not all(p) or (not p and kind == 'entries'):
            continue
        lookup(ctx, e, list(p), kind)


def case(ctx):
    rng = ctx.rng
    o = gen.Opt(groups=rng.choice([3, 6, 12]), entries=rng.choice([4, 9]), hist=.5, unknown=rng.random() < .3, nbin=1)
    if ctx.index % 90 == 45:
        # deep trees
        o = gen.Opt(groups=rng.choice([40, 90]), entries=12, hist=.3, nbin=1, full=True, chain=.97)
        ctx.count('deep trees')
    e = engine.start(ctx, rng, 'C11', o, names=names)
    ctx.trace = e.trace
    ops = engine.mix(TREE=6, set_group=2, set_field=1, HIST=.5, TRASH=.5, set_hist=.3, save=.1, own_save=.1)
    for _ in range(rng.choice([3, 6])):
        paths(ctx, e)
        lookups(ctx, e, 12)
        e.run(ops, rng.choice([2, 5]))
    paths(ctx, e)
    lookups(ctx, e, 12)
