RULE = ('every case pushes up to 36 particles (at rest, slow, at the classical limit, fast, ultrarelativistic) of 1..3 species 1..4 times through generated '
        'fields (both, magnetic only, electric only, none) and compares every velocity with a long-double reference of the scheme, plus speed, momentum-gain '
        'and gyration invariants; distinct = different set of (speed class, field mode) per pusher')
ASSUMPTIONS = ['classical schemes are checked below a third of light speed']
SUB = ['domain', 'pusher', 'maxwellSolver', 'current/', 'specieP', 'beamP', 'outEngine', 'outWriter', 'collisions', 'msg', 'algo', 'math', 'phys']


PUSHERS = ('BORIS_ADAPTIVE', 'BORIS', 'BORIS_RELATIVISTIC', 'HC', 'VAY')
FF = ('-fno-finite-math-only',)


def run(c):
    n = 2600 if c.quick else 100000
    fast = PUSHERS[:1] if c.quick else PUSHERS
    c.prebuild([('h_pusher.cpp', dict(variant=dict(pusher=p), subset=SUB)) for p in PUSHERS] +
               [('h_pusher.cpp', dict(variant=dict(pusher=p), subset=SUB, san='fast', extra=FF)) for p in fast])
    for p in PUSHERS: c.harness('h_pusher.cpp', n, dict(pusher=p), prefix=p + ':', subset=SUB)
    for p in fast: c.harness('h_pusher.cpp', n, dict(pusher=p), san='fast', prefix=p + ':fast:', subset=SUB, extra=FF)
    for p in PUSHERS:
        for k in ('at rest', 'slow', 'classical', 'purely magnetic', 'purely electric', 'gyrations'): c.need(p + ':' + k, 20)
        if p != 'BORIS': c.need(p + ':ultrarelativistic', 20)
