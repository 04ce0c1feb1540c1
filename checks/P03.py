RULE = ('every case loads one species into a domain of generated size, offset, walls, density (flat or gradient), temperature, mass and '
        'macroparticle amount; distinct = different (walls, gradient, temperature decade, mass) situation')
SUB = ['specieP', 'msg', 'algo', 'math', 'phys']


def run(c):
    n = 1600 if c.quick else 20000
    combos = [('FLAT', 'THERMAL'), ('RANDOM', 'RECTANGULAR'), ('REGULAR', 'EIGEN'), ('CENTERED', 'THERMAL')]
    if not c.quick: combos += [(s, v) for s in ('FLAT', 'RANDOM', 'REGULAR', 'CENTERED') for v in ('THERMAL', 'RECTANGULAR', 'EIGEN') if (s, v) not in combos]
    for s, v in combos:
        c.harness('h_loading.cpp', n, dict(spatial=s, velocity=v), prefix='%s/%s:' % (s.lower(), v.lower()), subset=SUB)
        c.need('%s/%s:particles' % (s.lower(), v.lower()), 10000)
    c.harness('h_fill.cpp', 160 if c.quick else 4000, dict(pml=False), prefix='system:', san='o0' if c.quick else 'asan', per=None if c.quick else 100)
    c.need('system:filled domains', 1000)
