"""P19: requests to the reader library (lib/python/picopic), every answer compared with what is in the data file.
usage: reader_drive.py LIB DATA.H5 CONFIG.JSON SEED N"""
import json, os, random, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'pystub'), sys.argv[1]]
import io, contextlib
import numpy as np
import h5py
lib, data, conf, seed, n = sys.argv[1:]
rnd = random.Random(int(seed)); n = int(n)
out = dict(counters={}, violations={}, checks=0)


def saw(k, m=1): out['counters'][k] = out['counters'].get(k, 0) + m


def fail(key, msg): out['violations'].setdefault(key, msg)


def ok(cond, key, msg):
    out['checks'] += 1
    if not cond: fail(key, msg)
    return cond


raw = json.load(open(data)); cfg = json.load(open(conf))
DS = {k: np.array(v['data'], dtype=float).reshape(v['dims']) for k, v in raw['datasets'].items()}


def base(p): return p['component'] + ('/' + p['specie'] if p['component'][0].islower() else '')


def path(p):
    s = '/' + base(p) + '/' + p['shape'] + '/'
    if p['shape'] == 'rec': return s + '%d-%d_%d-%d' % (p['start']['r'], p['end']['r'], p['start']['z'], p['end']['z'])
    return s + {'col': lambda: str(p['z']), 'row': lambda: str(p['r']), 'dot': lambda: '%d_%d' % (p['r'], p['z'])}[p['shape']]()


def same(key, what, f, want):
    """the answer of the library, and what is in the file"""
    try: got = f()
    except Exception as e: return ok(False, key + ':exception', '%s: %s' % (what, ''.join(traceback.format_exception_only(type(e), e)).strip() + ' at ' + traceback.format_tb(e.__traceback__)[-1].strip()))
    try: g = np.asarray(got, dtype=float)
    except Exception as e: return ok(False, key + ':type', '%s returned %r' % (what, got))
    want = np.asarray(want, dtype=float)
    saw(key)
    if not ok(g.shape == want.shape, key + ':shape', '%s: shape %s, in the file %s' % (what, g.shape, want.shape)): return
    ok(np.array_equal(g, want, equal_nan=True), key + ':value', '%s: %s, in the file %s' % (what, g.ravel()[:8], want.ravel()[:8]))


def request(h):
    p = rnd.choice(cfg['data']['probes']); a = DS[path(p)]; b = base(p); nf = a.shape[0]
    i = rnd.randrange(nf); s, e = sorted((rnd.randrange(nf + 1), rnd.randrange(nf + 1)))
    whole = rnd.random() < .4
    lim, sub = ([], a) if whole else ([s, e], a[s:e])
    if not whole and rnd.random() < .3: lim, sub = [s], a[s:]
    t = '%s frame %d range %s of %s' % (path(p), i, lim, nf)
    if p['shape'] == 'rec':
        sh = [p['start']['r'], p['start']['z'], p['end']['r'], p['end']['z']]
        r, z = rnd.randrange(sh[0], sh[2]), rnd.randrange(sh[1], sh[3]); y, x = r - sh[0], z - sh[1]
        t += ' at %d,%d' % (r, z)
        w = rnd.randrange(9)
        if sh[0] or sh[1]: saw('requests to rectangles off the origin')
        if w == 0: same('rec', 'rec ' + t, lambda: h.rec(b, sh, i), a[i])
        if w == 1: same('col_rec', 'col_rec ' + t, lambda: h.col_rec(b, z, sh, i), a[i][:, x])
        if w == 2: same('row_rec', 'row_rec ' + t, lambda: h.row_rec(b, r, sh, i), a[i][y])
        if w == 3: same('dot_rec', 'dot_rec ' + t, lambda: h.dot_rec(b, r, z, sh, i), a[i][y, x])
        if w in (4, 8): same('rec_range', 'rec_range ' + t, lambda: h.rec_range(b, sh, *lim), sub)
        if w == 5: same('col_rec_range', 'col_rec_range ' + t, lambda: h.col_rec_range(b, z, sh, *lim), sub[:, :, x])
        if w == 6: same('row_rec_range', 'row_rec_range ' + t, lambda: h.row_rec_range(b, r, sh, *lim), sub[:, y, :])
        if w == 7: same('dot_rec_range', 'dot_rec_range ' + t, lambda: h.dot_rec_range(b, r, z, sh, *lim), sub[:, y, x])
    one = rnd.random() < .5
    if p['shape'] == 'col': same('col', 'col ' + t, lambda: h.col(b, p['z'], i), a[i]) if one else same('col_range', 'col_range ' + t, lambda: h.col_range(b, p['z'], *lim), sub)
    if p['shape'] == 'row': same('row', 'row ' + t, lambda: h.row(b, p['r'], i), a[i]) if one else same('row_range', 'row_range ' + t, lambda: h.row_range(b, p['r'], *lim), sub)
    if p['shape'] == 'dot':
        if one: same('dot', 'dot ' + t, lambda: np.ravel(h.dot(b, p['r'], p['z'], i)), a[i])
        else: same('dot_range', 'dot_range ' + t, lambda: h.dot_range(b, p['r'], p['z'], *lim), sub[:, 0])
    saw('requests')


def meta(m):
    g = cfg['geometry']
    def eq(what, got, want): ok(got == want, 'meta:' + what, '%s is %r, configured %r' % (what, got, want)); saw('metadata fields')
    for what, f, want in (
        ('size', lambda: list(m.geometry_size), [g['size']['radius'], g['size']['longitude']]),
        ('grid', lambda: list(m.geometry_grid), [g['grid']['radius'], g['grid']['longitude']]),
        ('domains', lambda: list(m.geometry_domains), [g['domains_amount']['radius'], g['domains_amount']['longitude']]),
        ('pml', lambda: list(m.geometry_pml), [g['pml'][k] for k in ('left_wall', 'right_wall', 'outer_wall', 'sigma_1', 'sigma_2')]),
        ('time', lambda: list(m.time), [cfg['time'][k] for k in ('start', 'end', 'step')]),
        ('species', lambda: [(s.name, s.charge, s.mass, s.density[0], s.density[1], s.temperature) for s in m.species], [(s['name'], s['charge'], s['mass'], s['density'], s['density'], s['temperature']) for s in cfg['particles']]),
        ('beams', lambda: [(s.name, s.charge, s.mass, s.velocity, s.start_time, s.bunch_density, s.bunch_amount, s.bunch_length, s.bunch_radius, s.bunches_distance) for s in m.beams],
         [(s['name'], s['charge'], s['mass'], s['velocity'], s['start_time'], s['bunch']['density'], s['bunch']['amount'], s['bunch']['length'], s['bunch']['radius'], s['bunch']['distance']) for s in cfg['beams']]),
        ('compression', lambda: (m.use_compression, m.compression_level), (cfg['data']['compression']['use'], cfg['data']['compression']['level'])),
        ('plot', lambda: [m.plot_cmap, m.plot_ticks_x, m.plot_ticks_y, m.plot_ticks_z, m.plot_cbar, m.figure_color, m.figure_width, m.figure_height, m.figure_dpi, m.figure_font_family, m.figure_font_size, m.figure_font_name, m.video_codec, m.video_fps, m.video_bitrate],
         (lambda p: [p['subplot']['cmap']] + [p['subplot']['ticks'][k] for k in ('x_amount', 'y_amount', 'z_amount', 'cbar_amount')] + [p['figure'][k] for k in ('color', 'width', 'height', 'dpi')] + [p['figure']['font'][k] for k in ('family', 'size', 'name')] + [p['video'][k] for k in ('codec', 'fps', 'bitrate')])(cfg['data']['plot'])),
        ('probes', lambda: [(p.shape, p.component, p.schedule, p.specie) for p in m.probes], [(p['shape'], p['component'], p['schedule'], p.get('specie')) for p in cfg['data']['probes']]),
        ('probe rectangles', lambda: [list(p.size) for p in m.probes if p.shape == 'rec'], [[p['start']['r'], p['start']['z'], p['end']['r'], p['end']['z']] for p in cfg['data']['probes'] if p['shape'] == 'rec']),
        ('probe columns', lambda: [p.size[1] for p in m.probes if p.shape == 'col'], [p['z'] for p in cfg['data']['probes'] if p['shape'] == 'col']),
        ('probe rows', lambda: [p.size[0] for p in m.probes if p.shape == 'row'], [p['r'] for p in cfg['data']['probes'] if p['shape'] == 'row']),
        ('probe dots', lambda: [list(p.size[:2]) for p in m.probes if p.shape == 'dot'], [[p['r'], p['z']] for p in cfg['data']['probes'] if p['shape'] == 'dot'])):
        try: eq(what, f(), want)
        except Exception as e: ok(False, 'meta:' + what, 'can not get %s: %r' % (what, e))
    nr, nz, R, Z, dt = g['grid']['radius'], g['grid']['longitude'], g['size']['radius'], g['size']['longitude'], cfg['time']['step']
    for _ in range(30):
        i, j, k, d = rnd.randrange(nr + 1), rnd.randrange(nz + 1), rnd.randrange(0, 5000), rnd.randrange(1, 200)
        u, v, w = rnd.uniform(-.45, .45), rnd.uniform(-.45, .45), rnd.uniform(-.45, .45)
        close = lambda a, b: abs(a - b) <= 1e-9 * abs(b)
        try:
            eq('row number', m.get_row_by_radius((i + u) * R / nr), i); eq('column number', m.get_col_by_longitude((j + v) * Z / nz), j)
            eq('radius', close(m.get_radius_by_row(i), i * R / nr), True); eq('longitude', close(m.get_longitude_by_col(j), j * Z / nz), True)
            eq('frame number', m.get_frame_number_by_timestamp((k + w) * d * dt, d), k); eq('timestamp', close(m.get_timestamp_by_frame_number(k, d), k * d * dt), True)
        except Exception as e: ok(False, 'meta:conversion', 'conversion failed: %r' % e)


def strip(x):
    x = dict(x); x.pop('base_path', None); x.pop('build_options', None); x['data'] = dict(x['data']); x['data'].pop('data_root', None)
    x['data']['probes'] = [{k: v for k, v in p.items() if v is not None} for p in x['data']['probes']]
    return x


touched = []   # what the library changes in the file system


def audit(event, args):
    if event == 'open' and (isinstance(args[1], str) and set(args[1]) & set('wax+') or isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)): touched.append('%s %s' % (event, args[0]))
    elif event in ('os.mkdir', 'os.rmdir', 'os.remove', 'os.rename', 'os.chmod', 'os.truncate', 'os.link', 'os.symlink', 'subprocess.Popen', 'os.system'): touched.append('%s %s' % (event, args[0]))


def cache(d):
    """what is put in the cache is what is got from it, also by another instance"""
    from picopic.tinycache import TinyCache
    root = tempfile.mkdtemp(dir=d); t = TinyCache(root); kept = {}
    for k in range(40):
        key = 'k%d' % rnd.randrange(12)
        if rnd.random() < .5:
            w = rnd.choice([lambda: rnd.uniform(-1e9, 1e9), lambda: np.array([rnd.gauss(0, 1) for _ in range(rnd.randrange(1, 50))]), lambda: np.array([[rnd.gauss(0, 1e20) for _ in range(3)] for _ in range(rnd.randrange(1, 9))]), lambda: [1, 2, rnd.randrange(99)],
                            lambda: np.array([[[rnd.random()] * 2] * 3] * 2), lambda: np.array([float('nan'), float('inf'), -0.])])()
            t.update_cache(key, w); kept[key] = np.array(w, dtype=float)
        elif rnd.random() < .4: t = TinyCache(root); saw('cache sessions')
        else:
            ok((key in t) == (key in kept), 'cache:contains', '%s is %sin the cache' % (key, '' if key in t else 'not '))
            if key in kept: same('cache', 'cached %s' % key, lambda: t.get_cache(key), kept[key])
            else: ok(np.size(t.get_cache(key)) == 0, 'cache:nothing', 'value of absent key'); saw('cache misses')


try:
    import shutil, tempfile   # nothing of the interpreter itself is counted
    sys.addaudithook(audit)
    from picopic.h5_reader import H5Reader
    d = os.path.dirname(data)
    quiet = io.StringIO()
    h = H5Reader(d if rnd.random() < .5 else data, verbose=False)
    c0 = strip(cfg)
    ok(strip(h.meta.json) == c0, 'meta:document', 'the document read from the file differs from the configuration')
    ok(os.path.realpath(h.meta.data_path) == os.path.realpath(os.path.join(d, cfg['data']['data_root'])), 'meta:data_path', 'data path %s' % h.meta.data_path)
    meta(h.meta)
    for _ in range(n): request(h)
    v = H5Reader(data, verbose=True)
    with contextlib.redirect_stdout(quiet):
        for _ in range(n // 4): request(v)
    try:
        with H5Reader(d) as w:
            for _ in range(n // 4): request(w)
        saw('contexts')
        ok(not w.file, 'context:open', 'data file is left open after the context')
    except Exception as e: ok(False, 'context', 'use as a context: %r' % e)
    try: H5Reader(os.path.join(d, 'nothing here')); ok(False, 'missing', 'no error about the missing file')
    except FileNotFoundError: saw('missing files')
    except Exception as e: ok(False, 'missing', 'missing file is reported as %r' % e)
    for p in cfg['data']['probes'][:3]:   # something not in the file must not be answered
        nf = DS[path(p)].shape[0]; b = base(p)
        fs = {'rec': lambda k: h.rec(b, [p['start']['r'], p['start']['z'], p['end']['r'], p['end']['z']], k), 'col': lambda k: h.col(b, p['z'], k), 'row': lambda k: h.row(b, p['r'], k), 'dot': lambda k: h.dot(b, p['r'], p['z'], k)}
        try: x = fs[p['shape']](nf + rnd.randrange(5)); ok(False, 'beyond', '%s: %r is returned for a frame, which was not written' % (path(p), x))
        except Exception: saw('refusals'); out['checks'] += 1
    ok(not touched, 'writes', 'reading changes the file system: %s' % touched[:5]); saw('sessions without cache'); del touched[:]
    u = H5Reader(d, use_cache=True); same('range', 'frames with the cache', lambda: len(u.meta.probes), len(cfg['data']['probes']))
    for _ in range(5): request(u)
    ok(not [x for x in touched if not os.path.realpath(x.split(' ', 1)[1]).startswith(os.path.realpath(os.path.join(d, '.cache')))], 'writes:cache', 'the cache is not kept near the data: %s' % touched[:5])
    cache(d)
except Exception as e:
    ok(False, 'reader:' + type(e).__name__, traceback.format_exc()[-1500:])
print('READER ' + json.dumps(out, default=str))
