RULE = ('every case runs the whole injection schedule of 1..2 beams (1..4 bunches, generated start, length, gap, radius, density, velocity, domains, step), '
        'checks every injected particle (bunch window, place, velocity, weight, cell, specie) and the amount, charge and profile of every bunch; '
        'distinct = different (bunches, radial domains, population class) set')
ASSUMPTIONS = ['bunches last at least 10 steps with gaps of more than two steps', 'charge is compared up to one step, half a cell of the radius (the code '
               'shifts the beam off the axis by half a cell) and 7 standard deviations of the random radii']


def run(c):
    n = 400 if c.quick else 10000
    c.harness('h_beam.cpp', n)
    c.harness('h_beam.cpp', n, san='fast', prefix='fast:', extra=('-fno-finite-math-only',))
    for k, m in (('injection events', 10000), ('bunches weighed', 100), ('profiles', 50), ('several radial domains', 20), ('several axial domains', 20), ('two beams', 20)): c.need(k, m)
