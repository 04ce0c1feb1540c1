RULE = ('every case fills a generated grid with electrons and ions (empty cells, single particles, odd numbers, immobile, parallel and equal velocities), runs the '
        'collision operator 1..3 times and compares momentum, energy and state of every cell; distinct = different (population kind, mass, charge, weights, fill, offset)')
ASSUMPTIONS = ['equal macroparticle weights within a cell for the SK98 operator (and for the exact balance of P12); speeds below 0.1 c for the non-relativistic TA77S operator',
               'scattering rates are not judged']


def run(c):
    n = 1500 if c.quick else 20000
    h = 'h_collide.cpp'
    v = [{'collisions': x} for x in ('TA77S', 'SK98', 'P12')]
    sub = ['collisions', 'specieP', 'algo', 'math', 'phys', 'msg']
    f = ('-fno-finite-math-only',)
    c.prebuild([(h, dict(variant=x, subset=sub)) for x in v] + [(h, dict(variant=x, san='fast', extra=f, subset=sub)) for x in v])
    for x in v:
        p = x['collisions'] + ':'
        c.harness(h, n, x, prefix=p, subset=sub)
        c.harness(h, n, x, san='fast', prefix='fast ' + p, extra=f, subset=sub)
        for k, m in (('cells weighed', 10000), ('collided cells', 3000), ('regular cells', 500), ('cells with the only particle', 100), ('cases with other species', 200)): c.need(p + k, m)
    c.need('P12:unequal pairs balanced well', 30)
