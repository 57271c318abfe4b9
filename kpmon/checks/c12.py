"""C12: history entries are faithful and immutable snapshots"""
from .. import engine, gen, model as M

LEVEL = 'exploration'
QUICK, THOROUGH = 900, 4500
RULE = ('One evaluation compares every history entry (all fields, protection, times, attachments, order) and the current entries with the shadow model after one '
        'operation. Distinct by operation history; non-trivial if the database has history.')
ASSUME = []
MUST_OBSERVE = ['op:save_history', 'op:delete_history', 'history reports', 'exact snapshots', 'reopens', 'long histories']


def reports(e):
    """history entries report themselves and stay out of the current entries"""
    kp = e.kp
    nh = 0
    allh = 0
    for n in e.m.entries():
        r = e._walk(n)
        e.ctx.check(not r.is_a_history_entry, 'a current entry reports itself as history', operations=e.trace[-30:])
        hs = r.history
        e.ctx.check(len(hs) == len(n.hist), 'history has %d entries, expected %d' % (len(hs), len(n.hist)), operations=e.trace[-30:])
        for h in hs:
            allh += 1
            e.ctx.check(h.is_a_history_entry is True, 'a history entry does not report itself as one', operations=e.trace[-30:])
            nh += 1
    e.ctx.count('history reports', nh)
    n = len(e.m.entries())
    for what, lst in (('kp.entries', kp.entries), ('find_entries()', kp.find_entries()), ('group entries', [x for g in kp.groups for x in g.entries])):
        e.ctx.check(len(lst) == n and not any(x.is_a_history_entry for x in lst), '%s has %d elements, expected %d current entries' % (what, len(lst), n), operations=e.trace[-30:])
    lst = kp.find_entries(history=True)
    e.ctx.check(len(lst) == n + allh, 'with history there are %d entries, expected %d' % (len(lst), n + allh), operations=e.trace[-30:])
    e.ctx.eval((e.ctx.index, e.th, 'reports'), nontrivial=nh > 0)


def case(ctx):
    rng = ctx.rng
    if ctx.index % 90 == 45:
        # a long history
        o = gen.Opt(groups=0, entries=1, full=True, hist=.5, nbin=2, sparse=False)
        e = engine.start(ctx, rng, 'C12', o)
        ctx.trace = e.trace
        e.run(engine.mix(save_history=6, SET=1, delete_history=.1), rng.choice([60, 150]))
        reports(e)
        e.run(engine.mix(HIST=3, SET=1, SAVE=1), 8)
        reports(e)
        ctx.count('long histories')
        return
    o = gen.Opt(groups=rng.choice([1, 4]), entries=rng.choice([2, 5]), hist=rng.choice([0, .6]), nbin=4, att=.6, unknown=rng.random() < .3)
    e = engine.start(ctx, rng, 'C12', o)
    ctx.trace = e.trace
    for _ in range(rng.choice([3, 6])):
        e.run(engine.mix(HIST=5, SET=4, TREE=2, BIN=2.5, TIME=1, TRASH=.4, SAVE=.6, set_uuid=.1), rng.choice([5, 8]))
        reports(e)
