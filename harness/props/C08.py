"""Routes and trip end"""
import dyn

FAMS = [
    ('py', 70, {'focus': 'routes', 'topo': ['grid', 'tworoute', 'rand', 'deadend', 'parallel']}),
    ('cpp', 90, {'focus': 'routes', 'topo': ['grid', 'tworoute', 'rand', 'deadend', 'parallel']}),
    ('py', 40, {'focus': 'wander', 'topo': ['grid', 'rand', 'cross', 'ring', 'deadend']}),
    ('cpp', 50, {'focus': 'wander', 'topo': ['grid', 'rand', 'cross', 'ring', 'deadend']}),
    ('py', 15, {}),
    ('cpp', 20, {}),
    ('py', 15, {'exact': False}),
    ('cpp', 25, {'exact': False}),
    ('py', 20, {'focus': 'lanes', 'topo': ['line', 'merge', 'diverge', 'deadend']}),
    ('cpp', 25, {'focus': 'lanes', 'topo': ['line', 'merge', 'diverge', 'deadend']}),
]
SMALL = ['routes', 'deadend', 'diverge']


def run(ctx):
    dyn.standard(ctx, "C08", FAMS, SMALL)
