"""Work conservation, merge priority"""
import dyn

FAMS = [
    ('py', 70, {'topo': ['merge', 'merge', 'cross', 'ring', 'grid']}),
    ('cpp', 90, {'topo': ['merge', 'merge', 'cross', 'ring', 'grid']}),
    ('py', 30, {'topo': ['merge'], 'focus': 'nodecap'}),
    ('cpp', 40, {'topo': ['merge'], 'focus': 'caps'}),
    ('py', 15, {'exact': False, 'topo': ['merge']}),
    ('cpp', 25, {'exact': False, 'topo': ['merge']}),
    ('py', 15, {'focus': 'lanes', 'topo': ['merge', 'cross']}),
    ('cpp', 20, {'focus': 'lanes', 'topo': ['merge', 'cross']}),
]
SMALL = ['merge', 'signal', 'diverge', 'ring']


def run(ctx):
    dyn.standard(ctx, "C07", FAMS, SMALL, draws=("merge", dyn.merge_draws))
