"""C13: attachments always resolve to their own bytes"""
from .. import engine, gen

LEVEL = 'exploration'
QUICK, THOROUGH = 700, 4500
RULE = ('One evaluation compares, after one operation, every binary and the name, id and bytes of every attachment of every entry and history entry with the shadow '
        'model, in memory and (after saves) in an independent decoding of the file. Distinct by operation history; non-trivial if there is an attachment.')
ASSUME = ['binary ids of the database opened are 0..n-1']
MUST_OBSERVE = ['op:add_binary', 'op:attach', 'op:detach', 'op:delete_binary', 'op:save', 'reopens', 'refusals', 'attachment listings', 'many binaries']


def listing(e):
    """kp.attachments and find_attachments agree with the model"""
    kp, m = e.kp, e.m
    want = [(f, m.bins.index(b), b.data) for n in order(m.root) for f, b in n.att]
    got = [(a.filename or "", a.id, a.data) for a in kp.attachments]
    e.ctx.eval((e.ctx.index, e.th, 'listing'), nontrivial=bool(want))
    e.ctx.count('attachment listings')
    e.ctx.check(sorted(got) == sorted(want), 'kp.attachments lists %d attachments, expected %d, or other ones' % (len(got), len(want)), operations=e.trace[-40:])
    wanth = want + [(f, m.bins.index(b), b.data) for n in m.entries() for h in n.hist for f, b in h.att]
    goth = [(a.filename or "", a.id, a.data) for a in kp.find_attachments(history=True)]
    e.ctx.check(sorted(goth) == sorted(wanth), 'find_attachments(history=True) gives %d attachments, expected %d, or other ones' % (len(goth), len(wanth)), operations=e.trace[-40:])
    if m.bins:
        i = e.rng.randrange(len(m.bins))
        got = sorted((a.filename or "", a.id) for a in kp.find_attachments(id=i))
        e.ctx.check(got == sorted((f, k) for f, k, _ in want if k == i), 'find_attachments(id=%d) is wrong' % i, operations=e.trace[-40:])


def order(g):
    return list(g.all_entries())


def case(ctx):
    rng = ctx.rng
    if ctx.index % 90 == 45:
        # more binaries than a byte can count
        o = gen.Opt(groups=1, entries=12, nbin=rng.choice([135, 262, 270]), att=.9, hist=.3, shuffle_binaries=rng.random() < .3, full=True)
        e = engine.start(ctx, rng, 'C13', o)
        ctx.trace = e.trace
        e.run(engine.mix(BIN=3, attach=2, delete_binary=2), 12)
        listing(e)
        e.run(engine.mix(BIN=3, SAVE=1), 4)
        listing(e)
        ctx.count('many binaries')
        return
    o = gen.Opt(groups=2, entries=rng.choice([3, 6]), nbin=rng.choice([0, 3, 13, 24]), att=.8, hist=.5, shuffle_binaries=rng.random() < .3, prot_meta_binaries=rng.random() < .2)
    e = engine.start(ctx, rng, 'C13', o)
    ctx.trace = e.trace
    for _ in range(rng.choice([3, 6])):
        e.run(engine.mix(BIN=8, HIST=1.5, TREE=.7, TRASH=.2, SET=.5, SAVE=1), rng.choice([5, 8]))
        listing(e)
