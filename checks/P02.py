RULE = ('every particle has a unique identity; every case either scatters particles over the wrong domains and calls the transfer, or runs a multi-step history, and '
        'locates each particle after each step; distinct = different (split, remainder, someone left, distant jump) combination')
ASSUMPTIONS = ['particles are kept 1e-6 of a cell away from cell edges, where the owner is ambiguous by rounding', 'a step never carries a particle over a whole domain (jumps to distant domains are only tried with one thread)']


def run(c):
    n = 600 if c.quick else 12000
    h = 'h_decomp.cpp'
    e = ('-DDECOMP_LEDGER',)
    c.prebuild([(h, dict(variant={}, extra=e)), (h, dict(variant={}, san='plain', openmp=True, extra=e))])
    c.harness(h, n, {}, extra=e)
    c.harness(h, n, {}, san='plain', openmp=True, env={'OMP_WAIT_POLICY': 'passive'}, prefix='threads:', extra=e)
    for k, m in (('particles located', 10**5), ('transfers', 10**4), ('distant transfers', 500), ('out of region', 500), ('history steps', 3000), ('beam particles that left', 50), ('threads:runs with several threads', 100)): c.need(k, m)
