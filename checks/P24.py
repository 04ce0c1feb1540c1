RULE = ('every case steps one generated world both on one node as one domain and on 2..4 MPI nodes (stand-in library) and compares all the fields, the current and all the '
        'particles after every step, or throws particles over the borders of the nodes, or runs the main function on 1..5 nodes; distinct = different (nodes, split, remainders, layers, beam, kind of sends)')
ASSUMPTIONS = ['the MPI library delivers messages in order and intact', 'output to the data file is not distributed']
SUB = ('current', 'maxwell', 'pusher', 'math', 'phys', 'algo', 'SMB', 'beamP', 'cfg', 'collisions', 'domain', 'msg', 'specieP')


def run(c):
    n = 400 if c.quick else 8000
    a = dict(variant={'mpi': True}, subset=SUB)
    f = dict(variant={'mpi': True, 'pml': False, 'ccs': 'ZIGZAG', 'pusher': 'VAY'}, san='fast', extra=('-fno-finite-math-only',), subset=SUB)
    m = dict(variant={'mpi': True}, subset=SUB + ('out',))
    c.prebuild([('h_mpi.cpp', a), ('h_mpi.cpp', f)])
    c.harness('h_mpi.cpp', n, **a)
    c.harness('h_mpi.cpp', n, prefix='zigzag:', **f)
    c.harness('h_mpimain.cpp', n // 5, prefix='main:', **m)
    for k, x in (('nodes compared', 10**5), ('trajectory points compared', 10**4), ('moves between nodes', 200), ('transfers between nodes', 500), ('with sends that wait for the receiver', 50), ('with buffered sends', 50),
                 ('uneven splits', 50), ('main:worlds', 40), ('main:uneven worlds', 10), ('main:refused worlds', 1)): c.need(k, x)
