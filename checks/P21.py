RULE = ('every case draws two vectors and a scalar (zeros, tiny, huge, equal and ordinary components) and compares every operation '
        'with a long-double reference; distinct = different pattern of zero/tiny/huge/sign of the six components')


def run(c):
    n = 12000 if c.quick else 1000000
    c.harness('h_vector.cpp', n, subset=['msg', 'algo'])
    c.harness('h_vector.cpp', n // 4, san='fast', prefix='fast:', subset=['msg', 'algo'])
    for k in ('equal', 'unequal', 'divisions'): c.need(k, 100)
