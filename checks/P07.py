RULE = ('cases: 1..4 steps of the solver on a generated grid (any wall set, layers, currents, ghosts as after an exchange), every node after every half-step '
        'compared with a long-double reference; closed boxes run 100..400 steps with bounded energy; layer conductivity per cell; not-a-number reports; '
        'distinct = different set of (node class, damping, layer set, scenario)')
ASSUMPTIONS = ['not-a-number reports are monitored in builds without -ffast-math (that option removes every such test by definition)',
               'the corner node of axis and left wall (Ez) is not compared', 'the cell at the very edge of a layer may be inside or outside of it (rounding)']
SUB = ['domain', 'pusher', 'maxwellSolver', 'current/', 'specieP', 'beamP', 'outEngine', 'outWriter', 'collisions', 'msg', 'algo', 'math', 'phys']
FF = ('-fno-finite-math-only', '-DVH_NO_NAN')


def run(c):
    n = 3000 if c.quick else 60000
    c.prebuild([('h_maxwell.cpp', dict(subset=SUB)), ('h_maxwell.cpp', dict(variant=dict(pml=False), subset=SUB)), ('h_maxwell.cpp', dict(san='fast', extra=FF, subset=SUB))])
    c.harness('h_maxwell.cpp', n, subset=SUB)
    c.harness('h_maxwell.cpp', n // 2, dict(pml=False), prefix='nopml:', subset=SUB)
    c.harness('h_maxwell.cpp', n, san='fast', prefix='fast:', subset=SUB, extra=FF)
    for k in ('E axis', 'E left', 'E inner', 'half-steps', 'closed boxes', 'boxes with layers', 'outer layer', 'left layer', 'right layer', 'free cells', 'broken fields'): c.need(k, 20)
