"""C23: the shipped programs, run on files in a scratch directory; the monitor re-reads what they wrote and printed."""
import os, sys, random, math, struct, array, re, subprocess, threading, hashlib, time

PROGS = {'cp2d': 'sz_compress_cp_preserve_2d_test.cpp', '2deb': 'sz_compress_2d_with_eb.cpp', 'pwr': 'sz_compress_test.cpp', '2dpwreb': 'sz_compress_test_with_eb.cpp',
         'cp3d': 'sz_compress_cp_preserve_3d_test.cpp', 'cp3u': 'sz_compress_cp_preserve_3d_unstructured_test.cpp'}

def f32(x): return struct.unpack('f', struct.pack('f', x))[0]

BIG = {0: 1 << 19, 3: 300000, 2: 700000, 6: 1500000, 4: 600000, 16: 4400000}   # runs on files of more than 1, 2, 4 and 16 MiB

def field(g, r1, r2, rel):
    if r1 * r2 > 60000:   # rows of a smaller field over and over: the files must be large, not interesting
        t = max(1, min(r1, 40000 // r2)); k, v = field(g, t, r2, rel); return k + '*', (v * (r1 // t + 1))[:r1 * r2]
    kind = g.choice(['waves', 'noise', 'const', 'steps', 'walk', 'wide', 'mask', 'offset', 'lin'])
    a, b, c, d, ph = [g.uniform(-0.6, 0.6) for _ in range(4)] + [g.uniform(0, 6)]
    sc = 10 ** g.uniform(-3, 4) if g.random() < .6 else 1.0
    v, w = [], 0.0
    for i in range(r1):
        for j in range(r2):
            s = math.sin(a * i + b * j + ph) + 0.5 * math.cos(c * i - d * j)
            if kind == 'noise': s = g.uniform(-1, 1)
            elif kind == 'const': s = ph
            elif kind == 'steps': s = (3.0 if i + j > (r1 + r2) / 2 else -1.0) + .01 * s
            elif kind == 'walk': w += g.gauss(0, .1); s = w
            elif kind == 'wide': s = g.choice([-1, 1]) * 10 ** g.uniform(-4, 4)
            elif kind == 'mask': s = 0.0 if s < 0.2 else s
            elif kind == 'offset': s += 1000
            elif kind == 'lin': s = a * i + b * j + c
            v.append(s * sc)
    return kind, v

TETS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
def mesh(g):
    """a tetrahedral mesh: a distorted box, cells split in six, some tetrahedra left out, vertices of each in any order"""
    d = [g.randint(2, 7) for _ in range(3)]; st = (d[1] * d[2], d[2], 1)
    pts = [c + g.uniform(-.2, .2) for i in range(d[0]) for j in range(d[1]) for k in range(d[2]) for c in (i, j, k)]
    tets = []
    for i in range(d[0] - 1):
        for j in range(d[1] - 1):
            for k in range(d[2] - 1):
                for p in TETS:
                    if g.random() < .1: continue
                    t = [i * st[0] + j * st[1] + k]
                    for q in p: t.append(t[-1] + st[q])
                    g.shuffle(t); tets += t
    return d, array.array('f', pts), array.array('i', tets or [0, 1, 2, 3])

def shape(g):
    u = g.random()
    if u < .08: return 1, g.randint(1, 300)
    if u < .16: return g.randint(1, 300), 1
    if u < .3: return g.randint(1, 4), g.randint(1, 4)
    if u < .45: return 12 * g.randint(1, 4), 12 * g.randint(1, 4)
    if u < .48: return g.randint(60, 180), g.randint(60, 180)
    return g.randint(2, 50), g.randint(2, 50)

def parse_verify(txt):
    out = []
    for m in re.finditer(r'Min=(\S+), Max=(\S+), range=(\S+)\nMax absolute error = (\S+)\nMax relative error = (\S+)\nMax pw relative error = (\S+)\nPSNR = (\S+), NRMSE= (\S+)\n', txt):
        out.append([float(x) for x in m.groups()])
    return out

def close(a, b, rel, ab=0.0): return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))

def check_verify(v, x, y, dbl, cnt):
    """v: printed numbers; x original, y decompressed (None when the program does not write it)"""
    mn, mx = min(x), max(x)
    if v[0] != mn or v[1] != mx: return 'printed minimum/maximum %r %r, the data has %r %r' % (v[0], v[1], mn, mx)
    rg = (mx - mn) if dbl else f32(mx - mn)
    if not close(v[2], rg, 1e-6): return 'printed range %r, the data has %r' % (v[2], rg)
    if y is not None:
        err = max(abs(p - q) for p, q in zip(x, y))
        if not close(v[3], err, 1e-6, 1e-9): return 'printed maximum error %r, the written file has %r' % (v[3], err)
        pw = max([abs(p - q) / abs(p) for p, q in zip(x, y) if abs(p) > 1] or [0])
        if not close(v[5], pw, 1e-4, 2e-6): return 'printed pointwise relative error %r, the written file has %r' % (v[5], pw)
        mse = sum((p - q) ** 2 for p, q in zip(x, y)) / len(x)
        if rg > 0 and mse > (1e-70 if dbl else 1e-30):   # err*err must not underflow in the type
            if not close(v[7], math.sqrt(mse) / rg, 2e-5): return 'printed NRMSE %r, the written file has %r' % (v[7], math.sqrt(mse) / rg)
            ps = 20 * math.log10(rg) - 10 * math.log10(mse)
            if abs(ps - v[6]) > 2e-4: return 'printed PSNR %r, the written file has %r' % (v[6], ps)
            cnt['psnr_recomputed'] = cnt.get('psnr_recomputed', 0) + 1
    return None

def one(rc, variant, exe, key, seed, i, d, cnt):
    g = random.Random('%s/%d/%d' % (key, seed, i))
    r1, r2 = shape(g); q = g.randint(0, 1)
    big = variant == 'plain' and BIG.get(i) and g.randint(BIG[i], BIG[i] * 11 // 10)
    if big: r2 = g.randint(300, 1500); r1 = big // r2; cnt['large_files'] = 1
    small_ok = variant == 'asan' and g.random() < .3
    while ((key == '2deb' and q) or key == '2dpwreb') and r1 * r2 < 1000 and not small_ok: r1 *= 2; r2 *= 2   # see known_findings.txt
    n = r1 * r2
    dbl = key == '2dpwreb'; tc = 'd' if dbl else 'f'
    if key == 'cp3d':
        r3 = g.randint(1, 12); r1, r2 = min(r1, 300 if big else 16), min(r2, 300 if big else 16); n = r1 * r2 * r3; kind, v = field(g, r1, r2 * r3, False)
    elif key == 'cp3u':
        md, pts, tets = mesh(g); n = md[0] * md[1] * md[2] * 3; r1, r2 = n, 1; kind, v = field(g, n, 1, True)
    else: kind, v = field(g, r1, r2, key in ('pwr', '2dpwreb'))
    x = array.array(tc, v)
    def put(name, arr):
        with open(d + '/' + name, 'wb') as f: f.write(arr.tobytes())
    def get(name, t):
        a = array.array(t)
        with open(d + '/' + name, 'rb') as f: a.frombytes(f.read())
        return a
    for f in os.listdir(d): os.unlink(d + '/' + f)
    env = dict(rc.ENV, CPSZ_EBS=d + '/ebs')
    put('x', x); inputs = {'x': x.tobytes()}
    rng = max(max(v) - min(v), 1e-6 * max(abs(max(v)), abs(min(v))), 1e-30)
    if key == 'cp2d':
        y = array.array('f', field(g, r1, r2, False)[1]); put('y', y); inputs['y'] = y.tobytes()
        eb = g.choice([rng * 10 ** g.uniform(-5, 0), 1e-3, 0.1]); args = ['x', 'y', str(r1), str(r2), repr(eb)]
    elif key == 'cp3d':
        args = ['x', 'y', 'z', str(r1), str(r2), str(r3)]; comp = [x]
        for name in ('y', 'z'): a = array.array('f', field(g, r1, r2 * r3, False)[1]); put(name, a); inputs[name] = a.tobytes(); comp.append(a)
        eb = g.choice([rng * 10 ** g.uniform(-5, 0), 1e-3, 0.1]); args.append(repr(eb))
    elif key == 'cp3u':
        put('p', pts); put('t', tets); inputs['p'] = pts.tobytes(); inputs['t'] = tets.tobytes()
        eb = 10 ** g.uniform(-4, -.2); args = ['p', 'x', 't', repr(eb)]
    elif key == '2deb':
        m = g.randint(0, 3); e0 = rng * 10 ** g.uniform(-5, 0)
        ebs = array.array('d', [e0 if m == 0 else 0.0 if m == 1 and g.random() < .5 else e0 * 10 ** g.uniform(-2, 2) if m else e0 for _ in range(n)])
        put('e', ebs); inputs['e'] = ebs.tobytes()
        args = ['x', 'e', str(r1), str(r2), str(q)]
        # the quantized bounds index an alphabet of 1024 entries
        if g.random() < .5: args.append(repr(10 ** g.uniform(-12, -6)))
    elif key == 'pwr':
        eb = 10 ** g.uniform(-4, -.4); f = [q for q in range(1, r1 + 1) if r1 % q == 0]; a = g.choice(f); args = ['x', str(a), str(r1 // a), str(r2), repr(eb)]
    else:
        e0 = 10 ** g.uniform(-4, -.4); ebs = array.array('d', [e0 if i % 2 else e0 * 10 ** g.uniform(-2, 0) for _ in range(n)]); put('ebs', ebs); inputs['ebs'] = ebs.tobytes()
        f = [q for q in range(1, r1 + 1) if r1 % q == 0]; a = g.choice(f); args = ['x', str(a), str(r1 // a), str(r2), str(g.choice([2, 2, 4, 10]))]
    old = {'cp2d': ['x.out', 'y.out'], '2dpwreb': ['x.out'], 'cp3d': ['x.out', 'y.out', 'z.out'], 'cp3u': ['x.out']}.get(key, []) if g.random() < .4 else []
    for o in old:   # outputs of an earlier run on other data: they must be replaced, not added to
        with open(d + '/' + o, 'wb') as f: f.write(bytes(g.randrange(256) for _ in range(g.choice([1, n * x.itemsize, n * x.itemsize + g.randint(1, 4000)]))))
    desc = '%s%s %s %dx%d args %s%s' % ('[fewer than 1000 values] ' if n < 1000 else '', PROGS[key][:-4], kind, r1, r2, ' '.join(args), ' over existing output' if old else '')
    try: p = subprocess.run([exe] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired: return desc, 'no result after 120 s', ''
    out, err = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    if p.returncode != 0: 
        a = re.search(r'allocated by thread.*?\n.*?\n\s+#1 .*?(/\S+:\d+)', err, re.S)
        return desc, 'exit status %d: %s%s' % (p.returncode, rc.crash_text(err) or err[-300:], ' buffer allocated at ' + a.group(1) if a else ''), ''
    for k, b in inputs.items():
        if open(d + '/' + k, 'rb').read() != b: return desc, 'input file %s was changed' % k, ''
    extra = set(os.listdir(d)) - set(inputs) - {k + '.out' for k in inputs}
    if extra: return desc, 'left behind %s' % sorted(extra), ''
    if 'not respected' in err: return desc, err.strip()[:300], ''
    vs = parse_verify(out); tot = {'cp2d': 2, 'cp3d': 3}.get(key, 1)
    if len(vs) != tot: return desc, 'printed %d verification blocks instead of %d: %s' % (len(vs), tot, out[-300:]), ''
    m = re.search(r'(?:Data compressed|Compressed) size = (\d+), ratio = (\S+)', out); raw = n * x.itemsize * {'cp2d': 2, 'cp3d': 3}.get(key, 1)
    if not m or not close(float(m.group(2)), raw / int(m.group(1)), 1e-3): return desc, 'printed compression ratio does not follow from the printed size: %s' % out[:300], ''
    cnt['runs_' + key] = cnt.get('runs_' + key, 0) + 1
    if old: cnt['runs_over_existing_output'] = cnt.get('runs_over_existing_output', 0) + 1
    cnt['values'] = cnt.get('values', 0) + n
    written = b''
    if key == 'cp2d':
        for name, a, ver in (('x', x, vs[0]), ('y', y, vs[1])):
            o = get(name + '.out', 'f'); written += o.tobytes()
            if len(o) != n: return desc, '%s.out has %d values instead of %d' % (name, len(o), n), ''
            for k in range(n):
                if not abs(o[k] - a[k]) <= eb * (1 + 1e-6): return desc, '%s.out[%d] = %r, original %r, bound %r' % (name, k, o[k], a[k], eb), ''
            e = check_verify(ver, a, o, False, cnt)
            if e: return desc, e, ''
    elif key == 'cp3d':
        for name, a, ver in zip('xyz', comp, vs):
            o = get(name + '.out', 'f'); written += o.tobytes()
            if len(o) != n: return desc, '%s.out has %d values instead of %d' % (name, len(o), n), ''
            for k in range(n):
                if not abs(o[k] - a[k]) <= eb * (1 + 1e-6): return desc, '%s.out[%d] = %r, original %r, bound %r' % (name, k, o[k], a[k], eb), ''
            e = check_verify(ver, a, o, False, cnt)
            if e: return desc, e, ''
    elif key == 'cp3u':
        o = get('x.out', 'f'); written = o.tobytes()
        if len(o) != n: return desc, 'x.out has %d values instead of %d' % (len(o), n), ''
        for k in range(n):
            if not abs(o[k] - x[k]) <= (eb * (1 + 1e-5) + 2e-6) * abs(x[k]): return desc, 'x.out[%d] = %r, original %r, relative bound %r' % (k, o[k], x[k], eb), ''
            if (o[k] > 0) != (x[k] > 0) or (o[k] < 0) != (x[k] < 0): return desc, 'x.out[%d] = %r, original %r: sign changed' % (k, o[k], x[k]), ''
        m = re.search(r'num_tets = (\d+)\nnum_points = (\d+)', out)
        if not m or int(m.group(1)) * 4 != len(tets) or int(m.group(2)) * 3 != n: return desc, 'printed mesh size differs from the files: %s' % out[:100], ''
        e = check_verify(vs[0], x, o, False, cnt)
        if e: return desc, e, ''
    elif key == '2deb':
        e = check_verify(vs[0], x, None, False, cnt)
        if e: return desc, e, ''
        if not vs[0][3] <= max(ebs) * (1 + 1e-6) + 1e-9: return desc, 'printed maximum error %r above every bound (%r)' % (vs[0][3], max(ebs)), ''
        if q:
            a, b, c = (re.search(k + r' size = (\d+)', out) for k in ('Compressed eb', 'Data compressed', 'Overall compressed'))
            if not (a and b and c) or int(a.group(1)) + int(b.group(1)) != int(c.group(1)): return desc, 'sizes do not add up: %s' % out[:300], ''
    elif key == 'pwr':
        e = check_verify(vs[0], x, None, False, cnt)
        if e: return desc, e, ''
        if not vs[0][5] <= eb * (1 + 1e-5) + 2e-5: return desc, 'printed pointwise relative error %r above the bound %r' % (vs[0][5], eb), ''
        if not vs[0][3] <= (eb * (1 + 1e-5) + 2e-5) * max(abs(t) for t in x) + 1e-9: return desc, 'printed error %r above the bound %r of the largest value' % (vs[0][3], eb), ''
    else:
        o = get('x.out', 'd'); written = o.tobytes()
        if len(o) != n: return desc, 'x.out has %d values instead of %d' % (len(o), n), ''
        for k in range(n):
            if not abs(o[k] - x[k]) <= ebs[k] * abs(x[k]) * (1 + 1e-6): return desc, 'x.out[%d] = %r, original %r, relative bound %r' % (k, o[k], x[k], ebs[k]), ''
        e = check_verify(vs[0], x, o, True, cnt)
        if e: return desc, e, ''
    if written: cnt['files_reread'] = cnt.get('files_reread', 0) + {'cp2d': 2, 'cp3d': 3}.get(key, 1)
    sig = hashlib.md5((re.sub(r'.*time.*\n', '', out)).encode() + written).hexdigest()[:16]
    return desc, None, sig

def run(rc, tier, seed, res, work):
    for variant, total in (('plain', 1350 if tier == 'quick' else 12000), ('asan', 360 if tier == 'quick' else 3000)):
        exes = {}
        red = rc.BUILD + '/redirect.o'
        if subprocess.call(['gcc', '-O1', '-c', rc.H + '/programs/redirect.c', '-o', red]): rc.die('redirect.c does not compile')
        for k, f in PROGS.items(): exes[k] = rc.build(variant, [rc.REPO + '/test/' + f], 'prog_' + k, with_harness=False, link=[red] if k == '2dpwreb' else [])
        keys = list(PROGS); lock = threading.Lock(); t0 = time.time(); n0 = res.cases; dl = 420 if tier == 'quick' else 780; sg = set()
        def worker(w):
            d = '%s/%s%d' % (work, variant, w); os.makedirs(d)
            for i in range(w, total, 8):
                if time.time() - t0 > dl: break
                cnt = {}; key = keys[(i // 8 + i) % len(keys)]
                desc, bad, sig = one(rc, variant, exes[key], key, seed, i, d, cnt)
                with lock:
                    res.cases += 1
                    if bad: res.viol.append((variant, i, bad + ' | ' + desc, 'program')); continue
                    res.nontriv += 1; res.sigs.add(sig); sg.add(sig)
                    for k, v in cnt.items(): res.cnt[k] = res.cnt.get(k, 0) + v
                    if len(res.samples) < 10 and i % 37 == 0: res.samples.append('run %d (%s): %s -> files and output agree' % (i, variant, desc))
        th = [threading.Thread(target=worker, args=(w,)) for w in range(8)]
        [t.start() for t in th]; [t.join() for t in th]
        res.stages.append(dict(build=variant, planned=total, judged=res.cases - n0, nontrivial=res.cases - n0, distinct=len(sg), died=0, wall_s=round(time.time() - t0, 1)))
