RULE = ('every case steps one generated world (grid, particles, fields, absorbing layers) both as one domain and as RxZ domains and compares every interior node of '
        'E, H and current and every particle after every step; distinct = different (split, cells per domain, remainder, layers, beam) combination')
ASSUMPTIONS = ['1..60 steps from equal particles and fields (random loading and injection are not repeatable between decompositions)', 'density is compared by P11']


def run(c):
    n = 500 if c.quick else 6000
    h = 'h_decomp.cpp'
    b = [(h, dict(variant={'pml': True})), (h, dict(variant={'pml': False, 'ccs': 'ZIGZAG', 'pusher': 'VAY'}, san='fast', extra=('-fno-finite-math-only',))),
         (h, dict(variant={'pml': True}, san='plain', openmp=True))]
    c.prebuild(b)
    c.harness(h, n, {'pml': True})
    c.harness(h, n, {'pml': False, 'ccs': 'ZIGZAG', 'pusher': 'VAY'}, san='fast', prefix='zigzag:', extra=('-fno-finite-math-only',))
    c.harness(h, n, {'pml': True}, san='plain', openmp=True, env={'OMP_WAIT_POLICY': 'passive'}, prefix='threads:')
    for k, m in (('nodes compared', 10**6), ('trajectory points compared', 10**5), ('jumps', 2000), ('corner jumps', 10), ('with absorbing layers', 100), ('uneven splits', 200), ('threads:runs with several threads', 100)): c.need(k, m)
