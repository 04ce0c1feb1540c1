RULE = ('every case steps up to 36 particles of 1..3 species (beams included) 1..3 times through the move, return-to-plane, reflect and bind phases and '
        'compares position, velocity, weight, old position, cell and particle set with a Cartesian long-double reference after each phase; '
        'distinct = different set of (particle kind, wall set)')
ASSUMPTIONS = ['cell numbers and wall hits within rounding of a face are accepted on either side']


def run(c):
    n = 12000 if c.quick else 400000
    c.harness('h_motion.cpp', n)
    c.harness('h_motion.cpp', n, san='fast', prefix='fast:', extra=('-fno-finite-math-only',))
    for k in ('generic', 'towards the axis', 'on the axis', 'over the axis', 'exactly onto the axis', 'towards the outer wall', 'towards the right wall',
              'towards the left wall', 'at zero', 'at rest', 'through the whole domain', 'into the corner', 'generic (beam)', 'over the axis (beam)',
              'multiple reflections', 'corner reflections', 'reflections', 'no reflection', 'negative cell', 'landed on the axis'): c.need(k, 20)
