RULE = ('every case builds a domain (at the axis or away from it) with generated staggered fields, ghosts included, and interpolates 20..60 positions '
        '(generic, on faces, mid-cell, domain edges): value against a long-double volume-weighting reference, impulse response of single nodes, analytic '
        'fields, continuity, equality of two domains holding the same global field; distinct = different set of (position kind, scenario class)')
ASSUMPTIONS = ['particles are at least half a cell away from the axis, as reflection keeps them']


def run(c):
    n = 6000 if c.quick else 200000
    c.harness('h_gather.cpp', n)
    c.harness('h_gather.cpp', n, san='fast', prefix='fast:', extra=('-fno-finite-math-only',))
    for k in ('generic', 'radial face', 'axial face', 'radial middle', 'axial middle', 'inner edge', 'outer edge', 'right edge', 'left edge',
              'silent nodes', 'felt nodes', 'linear field', 'uniform field', 'continuity'): c.need(k, 50)
