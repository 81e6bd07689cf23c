"""Recorded times, logs and curves"""
import dyn

FAMS = [
    ('py', 60, {}),
    ('cpp', 90, {}),
    ('py', 40, {'exact': False}),
    ('cpp', 60, {'exact': False}),
    ('py', 8, {'logint': 2}),
    ('py', 8, {'logint': 3}),
    ('py', 8, {'logint': 7}),
    ('py', 8, {'logint': -1}),
    ('cpp', 12, {'logint': -1}),
]
SMALL = ['merge', 'routes', 'deadend']


def run(ctx):
    dyn.standard(ctx, "C10", FAMS, SMALL)
