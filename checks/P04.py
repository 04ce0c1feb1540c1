RULE = ('every case places 0..60 macroparticles (generic, first cell, axis, exactly on radial/axial faces, at the outer/right domain edge; slow and '
        'relativistic) on a generated grid, computes all maps in random order, recomputes and rescales them, and compares every node (ghosts included) '
        'with an independent long-double reference; distinct = different set of (placement kind, population class)')
SUB = ['specieP', 'msg', 'algo', 'math', 'phys']


def run(c):
    n = 4000 if c.quick else 100000
    c.harness('h_weight.cpp', n, subset=SUB)
    c.harness('h_weight.cpp', n, san='fast', prefix='fast:', subset=SUB, extra=('-fno-finite-math-only',))
    for k in ('generic', 'first cell', 'axis', 'edge of the first cell', 'radial face', 'axial face', 'outer edge', 'right edge'): c.need(k, 50)
    c.need('nodes with particles', 10000)
