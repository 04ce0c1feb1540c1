RULE = ('every case is a generated world with external fields (electric, magnetic, both, none), decomposition and fields: the external field at points (domain borders included) is compared with the configured amplitude, '
        'the push with that of the same uniform field on the grid, the fields and currents with those of a world without external fields; distinct = different (scenario, decomposition, fields, steps)')
ASSUMPTIONS = ['only the profiles that are implemented (none, const_z) are claimed', 'the external field falls off within two cells of the walls of the simulated region, as coded']


def run(c):
    h = 'h_ext.cpp'
    vs = [dict(external=True, pml=True), dict(external=True, pml=False, pusher='VAY'), dict(external=True, pml=False, pusher='HC')]
    if not c.quick: vs += [dict(external=True, pml=False, pusher='BORIS'), dict(external=True, pml=True, pusher='BORIS_RELATIVISTIC', ccs='ZIGZAG')]
    sub = ['domain', 'pusher', 'maxwellSolver', 'current/', 'specieP', 'beamP', 'SMB', 'cfg', 'outEngine', 'outWriter', 'collisions', 'msg', 'algo', 'math', 'phys']
    c.prebuild([(h, dict(variant=v, subset=sub)) for v in vs])
    for v in vs: c.harness(h, 500 if c.quick else 15000, v, prefix=v.get('pusher', 'boris').lower() + ':', subset=sub)
    for p in [v.get('pusher', 'boris').lower() + ':' for v in vs]:
        for k, m in (('points compared', 1000), ('points at domain borders', 500), ('both', 20), ('particles pushed', 500), ('nodes compared', 5000), ('refused', 5)): c.need(p + k, m)
