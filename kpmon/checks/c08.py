"""C08: field assignments are exact and change nothing else"""
from .. import engine, gen

LEVEL = 'exploration'
QUICK, THOROUGH = 900, 5000
RULE = ('One evaluation compares the whole database (XML tree and every getter of every element) with the shadow model after one assignment, valid or invalid. '
        'Distinct by operation history; non-trivial if at least one assignment was made.')
ASSUME = ['text is XML-representable', 'custom property keys are not empty']
MUST_OBSERVE = ['op:set_field', 'op:set_prop', 'op:set_group', 'op:set_meta', 'op:bad_set', 'op:set_hist', 'refusals']


def case(ctx):
    rng = ctx.rng
    o = gen.Opt(groups=rng.choice([0, 3, 6]), entries=rng.choice([1, 4, 8]), hist=.5, unknown=rng.random() < .3)
    e = engine.start(ctx, rng, 'C08', o)
    ctx.trace = e.trace
    e.run(engine.mix(SET=10, bad_set=3, set_hist=1, add_entry=.7, add_group=.4, save_history=.5, save=.15), rng.choice([15, 30, 45]))
