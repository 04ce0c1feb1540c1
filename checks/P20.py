RULE = ('every case is a history of 1..12 random grid operations (element-wise, whole-grid, ghost fill, copies) or a ghost-cell exchange '
        'between two grids in one of the four directions, mirrored on a plain map and compared node by node after every operation; '
        'distinct = different operation history or (direction, sizes)')


def run(c):
    n = 8000 if c.quick else 300000
    c.harness('h_grid.cpp', n, subset=['msg', 'algo'])
    c.harness('h_grid.cpp', n // 2, san='fast', prefix='fast:', subset=['msg', 'algo'])
    for k in ('overlay_x', 'overlay_y', 'overlay_xy', 'overlay_yx'): c.need(k, 50)
    for k in ('set', 'inc', 'dec', 'mul', 'div', '=', '+=', '-=', '*=', '/=', 'overlay_set', 'copy'): c.need('op ' + k, 50)
