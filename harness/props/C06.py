"""Signals"""
import dyn

FAMS = [
    ('py', 60, {'topo': ['cross', 'merge', 'grid', 'ring']}),
    ('cpp', 80, {'topo': ['cross', 'merge', 'grid', 'ring']}),
    ('py', 20, {'topo': ['cross'], 'events': True}),
    ('cpp', 30, {'topo': ['cross'], 'events': True}),
    ('py', 25, {'exact': False, 'topo': ['cross']}),
    ('cpp', 30, {'exact': False, 'topo': ['cross']}),
]
SMALL = ['signal', 'merge']


def run(ctx):
    dyn.standard(ctx, "C06", FAMS, SMALL)
