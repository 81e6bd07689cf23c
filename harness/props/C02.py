"""FIFO, spacing, speed"""
import dyn

FAMS = [
    ('py', 40, {}),
    ('cpp', 60, {}),
    ('py', 30, {'focus': 'spill', 'topo': ['line', 'line', 'merge']}),
    ('cpp', 40, {'focus': 'spill', 'topo': ['line', 'line', 'merge']}),
    ('py', 30, {'topo': ['merge', 'line', 'parallel'], 'focus': 'caps'}),
    ('cpp', 40, {'topo': ['merge', 'line', 'parallel'], 'focus': 'caps'}),
    ('py', 20, {'exact': False}),
    ('cpp', 30, {'exact': False}),
    ('py', 15, {'focus': 'lanes', 'topo': ['line', 'merge', 'cross']}),
    ('cpp', 20, {'focus': 'lanes', 'topo': ['line', 'merge', 'cross']}),
]
SMALL = ['merge', 'spill', 'diverge', 'ring']


def run(ctx):
    dyn.standard(ctx, "C02", FAMS, SMALL)
