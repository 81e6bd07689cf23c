"""Capacities"""
import dyn

FAMS = [
    ('py', 60, {'topo': ['line', 'merge', 'cross', 'ring', 'tworoute', 'diverge'], 'focus': 'caps'}),
    ('cpp', 80, {'topo': ['line', 'merge', 'cross', 'ring', 'tworoute', 'diverge'], 'focus': 'caps'}),
    ('py', 30, {'focus': 'nodecap'}),
    ('cpp', 40, {'focus': 'nodecap'}),
    ('py', 20, {'exact': False, 'focus': 'caps'}),
    ('cpp', 30, {'exact': False, 'focus': 'caps'}),
]
SMALL = ['merge', 'spill', 'diverge']


def run(ctx):
    dyn.standard(ctx, "C04", FAMS, SMALL)
