RULE = ('every case seeds the generator afresh, draws 300..200000 values of one sampler and compares range, Kolmogorov-Smirnov distance, moments, '
        'tails and serial correlation with the stated distribution (limits at more than 6 standard deviations), or compares the '
        'low-discrepancy sequence with its exact definition; distinct = different (sampler, parameter class, seed)')
SUB = ['msg', 'algo', 'phys', 'math']


def run(c):
    n = 1200 if c.quick else 40000
    c.harness('h_random.cpp', n, subset=SUB)
    c.harness('h_random.cpp', n, san='fast', extra=('-fno-finite-math-only',), prefix='fast:', subset=SUB)
    c.need('samples', 100000); c.need('thread groups', 10)
