"""Spill-back and origin queues"""
import dyn

FAMS = [
    ('py', 60, {'focus': 'caps', 'topo': ['line', 'ring', 'merge', 'grid']}),
    ('cpp', 80, {'focus': 'caps', 'topo': ['line', 'ring', 'merge', 'grid']}),
    ('py', 40, {'focus': 'spill', 'topo': ['line', 'line', 'merge']}),
    ('cpp', 50, {'focus': 'spill', 'topo': ['line', 'line', 'merge']}),
    ('py', 20, {'exact': False, 'focus': 'spill', 'topo': ['line']}),
    ('cpp', 25, {'exact': False, 'focus': 'spill', 'topo': ['line']}),
    ('py', 15, {}),
    ('cpp', 20, {}),
]
SMALL = ['spill', 'merge', 'ring']


def run(ctx):
    dyn.standard(ctx, "C05", FAMS, SMALL)
