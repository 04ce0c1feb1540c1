RULE = ('every case is a generated configuration whose parameters lie around the limits of the method (light crossing a cell, plasma period, Debye length against cell and '
        'system, macroparticles per cell); messages captured while the configuration is read are compared with the limits calculated from the values themselves, '
        'announced number included; distinct = different (set of exceeded limits, names of electrons, number of species)')
ASSUMPTIONS = ['messages are taken from the stand-in of the logging library', 'values closer to a limit than 1e-5 are not judged']


def run(c):
    n = 1500 if c.quick else 40000
    v = [dict(), dict(pusher='VAY', ccs='ZIGZAG', collisions='TA77S'), dict(pusher='HC', collisions='SK98'), dict(pusher='BORIS', collisions='P12'), dict(pusher='BORIS_RELATIVISTIC', ccs='ZIGZAG')]
    if c.quick: v = [v[0], v[1 + c.seed % 2], v[3]]
    c.prebuild([('h_limits.cpp', dict(variant=x)) for x in v])
    for x in v: c.harness('h_limits.cpp', n if not x else n // 3, variant=x, per=None if c.quick else 4000, prefix='' if not x else '%s:' % '/'.join(x.values()))
    for k in ('time', 'cell', 'small', 'large', 'macro'): c.need('told: ' + k, 20)
    c.need('schemes', 1000)
