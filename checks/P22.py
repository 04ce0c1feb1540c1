RULE = ('every case draws arguments of one group of helpers (speeds from 0 to c incl. the neighbourhood of the classical limit, masses, '
        'plasma parameters over 20 decades, strings, command lines, files, durations) and compares with an independent reference; '
        'distinct = different argument class')
SUB = ['msg', 'algo', 'phys', 'math']


def run(c):
    n = 30000 if c.quick else 1000000
    c.harness('h_helpers.cpp', n, subset=SUB)
    c.harness('h_helpers.cpp', n // 4, san='fast', prefix='fast:', subset=SUB, extra=('-fno-finite-math-only',))
    for k in ('monotonic pairs', 'superluminal', 'log floored', 'log plain'): c.need(k, 100)
