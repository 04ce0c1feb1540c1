RULE = ('every case collides a plasma of known velocities many times: a stream of 1..9 electrons through 1..9 ions in a random frame of reference (deflection of every particle '
        'against the theory of Coulomb collisions, azimuth, nobody left out), electrons in all directions among heavy ions, 2..9 charged particles among neutral ones (intensity of collisions inside the species), single pairs (distribution of the angle, large ones included) and series of steps during '
        'one second of the clock (who meets whom); distinct = different (amounts, masses, charges, frame)')
ASSUMPTIONS = ['equal macroparticle weights within a cell', 'small-angle scattering (mean 1 - cos of a step up to 0.002; any angle for single pairs), relative velocities of 2e6..6.5e7 m/s',
               'Coulomb logarithm and Debye length as defined by the helpers, with mean kinetic energy as temperature', 'limits at 7 or more standard deviations plus 3 % (25 % for streams beyond 5e7 m/s)']


def run(c):
    n = 300 if c.quick else 6000
    h = 'h_rates.cpp'
    v = [{'collisions': x} for x in ('TA77S', 'SK98', 'P12')]
    sub = ['collisions', 'specieP', 'algo', 'math', 'phys', 'msg']
    f = ('-fno-finite-math-only',)
    c.prebuild([(h, dict(variant=x, san=s, extra=f, subset=sub)) for x in v for s in ('fast', 'asan')])
    for x in v:
        p = x['collisions'] + ':'
        c.harness(h, n, x, san='fast', prefix=p, extra=f, subset=sub)
        c.harness(h, n // 10, x, san='asan', prefix='asan ' + p, extra=f, subset=sub)
        if p != 'TA77S:': c.need(p + 'streams', 50)
        for k, m in (('thermal cases', 50), ('like cases', 50), ('angle cases', 50), ('pairings', 5000), ('pairs scattered', 100000)): c.need(p + k, m)
