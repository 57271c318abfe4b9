"""C16: the recycle bin keeps what is trashed"""
from .. import engine, gen

LEVEL = 'exploration'
QUICK, THOROUGH = 1100, 4500
RULE = ('One evaluation compares the whole tree and the registered recycle bin with the shadow model after one operation (trash, refused trash, restore by move, '
        'delete or empty the bin, save, reopen). Distinct by operation history; non-trivial if something was trashed.')
ASSUME = []
MUST_OBSERVE = ['op:trash', 'op:empty_bin', 'op:delete_bin', 'refusals', 'bins created', 'reopens', 'full bins']


def case(ctx):
    rng = ctx.rng
    if ctx.index % 90 == 45:
        # a bin that fills up
        o = gen.Opt(groups=3, entries=rng.choice([80, 120]), hist=.02, att=0, nbin=1, bin_uuid=rng.choice([None, 'group', 'dangling', 'none']), full=True)
        e = engine.start(ctx, rng, 'C16', o)
        ctx.trace = e.trace
        e.run(engine.mix(trash=1), 75)
        e.bulk = 1000
        e.run(engine.mix(empty_bin=2, trash=1, save=.5), 6)
        ctx.count('full bins')
        return
    o = gen.Opt(groups=rng.choice([2, 6]), entries=rng.choice([3, 8]), bin_uuid=rng.choice([None, 'group', 'dangling', 'none']), unknown=rng.random() < .2)
    e = engine.start(ctx, rng, 'C16', o, names=rng.choice([gen.name, lambda r: r.choice(['Recycle Bin', 'a', 'b'])]))
    ctx.trace = e.trace
    e.run(engine.mix(TRASH=8, move_entry=1, move_group=1, add_entry=1, add_group=1, delete_group=.4, SET=.5, save_history=.3, save=.6, own_save=.3), rng.choice([12, 25]))
