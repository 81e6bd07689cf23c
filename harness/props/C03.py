"""Newell car following"""
import dyn

FAMS = [
    ('py', 60, {}),
    ('cpp', 80, {}),
    ('py', 50, {'exact': False}),
    ('cpp', 60, {'exact': False}),
]
SMALL = ['merge', 'spill', 'signal', 'ring']


def run(ctx):
    dyn.standard(ctx, "C03", FAMS, SMALL)
