RULE = ('every case deposits 1..18 macroparticles with generated moves (generic, strictly/almost axial or radial, through a '
        'grid node, along a cell face, at rest; all 9 cell-crossing directions, on and off the axis) and compares the grid '
        'with the charge continuity equation; non-trivial and distinct = different set of (move kind, crossing, axis) situations')


def run(c):
    n = 6000 if c.quick else 150000
    c.harness('h_current.cpp', n, dict(ccs='VB'), prefix='vb:')
    c.harness('h_current.cpp', n // 2, dict(ccs='ZIGZAG'), prefix='zigzag:')
    for d in ('+0+0', '+0+1', '+0-1', '+1+0', '+1+1', '+1-1', '-1+0', '-1+1', '-1-1'):
        c.need('vb:cells:' + d, 20)
