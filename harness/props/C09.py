"""Route choice"""
import dyn

FAMS = [
    ('py', 70, {'topo': ['tworoute', 'grid', 'rand', 'parallel']}),
    ('cpp', 90, {'topo': ['tworoute', 'grid', 'rand', 'parallel']}),
    ('py', 16, {'focus': 'reopen', 'topo': ['tworoute', 'grid', 'rand']}),
    ('cpp', 40, {'focus': 'reopen', 'topo': ['tworoute', 'grid', 'rand']}),
    ('py', 20, {}),
    ('cpp', 30, {}),
    ('py', 20, {'exact': False, 'topo': ['tworoute', 'grid']}),
    ('cpp', 30, {'exact': False, 'topo': ['tworoute', 'grid']}),
]
SMALL = ['routes', 'diverge']


def run(ctx):
    dyn.standard(ctx, "C09", FAMS, SMALL, draws=("route", dyn.route_draws))
