"""C09: tree edits move, add and remove exactly what was named"""
from .. import engine, gen

LEVEL = 'exploration'
QUICK, THOROUGH = 700, 5000
RULE = ('One evaluation compares the whole tree (order, content, index of every entry) with the shadow model after one add, move, delete, empty, append or reindex '
        'operation, including refused ones. Distinct by operation history; non-trivial if at least one tree edit was made.')
ASSUME = ['a duplicate is an entry with the same title and user name, empty and None being equal']
MUST_OBSERVE = ['op:add_group', 'op:add_entry', 'op:move_entry', 'op:move_list', 'op:move_group', 'op:delete_entry', 'op:delete_group', 'op:empty_group', 'op:reindex', 'op:index', 'refusals', 'crowded groups']
FEW = ['a', 'b', 'Title', '"', "it's", 'x"y\'z']


def few(rng):
    return rng.choice(FEW) if rng.random() < .8 else gen.name(rng)


def crowd(ctx, rng):
    """groups with many entries or subgroups"""
    wide = rng.random() < .3
    o = gen.Opt(groups=rng.choice([90, 140]) if wide else 1, entries=20 if wide else rng.choice([150, 280]), hist=.02, att=0, nbin=1, full=True, chain=0)
    e = engine.start(ctx, rng, 'C09', o)
    ctx.trace = e.trace
    e.run(engine.mix(TREE=4, move_list=2, reindex=2, index=1), 6)
    e.bulk = 1000
    e.run(engine.mix(empty_group=1), 2)
    e.run(engine.mix(TREE=4, save=1), 3)
    ctx.count('crowded groups')


def case(ctx):
    rng = ctx.rng
    if ctx.index % 90 == 45:
        return crowd(ctx, rng)
    o = gen.Opt(groups=rng.choice([2, 6, 12]), entries=rng.choice([3, 8, 16]), unknown=rng.random() < .4, dup_uuid=rng.random() < .3)
    names = few if rng.random() < .5 else gen.name
    e = engine.start(ctx, rng, 'C09', o, names=names, texts=few if rng.random() < .5 else gen.text)
    ctx.trace = e.trace
    e.run(engine.mix(TREE=10, index=1, save_history=.4, set_field=.5, save=.2, own_save=.1), rng.choice([15, 30, 50]))
