"""Conservation and life cycle"""
import dyn

FAMS = [
    ('py', 60, {}),
    ('cpp', 90, {}),
    ('py', 25, {'exact': False}),
    ('cpp', 35, {'exact': False}),
    ('py', 20, {'topo': ['deadend', 'parallel', 'merge']}),
    ('cpp', 25, {'topo': ['deadend', 'parallel', 'merge']}),
]
SMALL = ['merge', 'spill', 'diverge', 'deadend', 'ring']


def run(ctx):
    dyn.standard(ctx, "C01", FAMS, SMALL)
