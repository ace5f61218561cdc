#!/usr/bin/env python3
"""Build cpSZ from /repo's working tree with the harness, run one property's workload under its monitors,
report violations and write the evidence file.   usage: run_check.py C01 [--tier quick|thorough] [--seed N] | --setup"""
import sys, os, re, json, time, glob, hashlib, subprocess, shutil, signal, threading, tempfile, argparse
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
H = os.path.join(V, 'harness')
sys.path.insert(0, V)
from plan import PLAN, FLAGS, RULE, TITLE_LEVEL

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1',
           UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0', LC_ALL='C')

def die(msg, code=2):
    print('ERROR: ' + msg); sys.stdout.flush(); sys.exit(code)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:20]

def rd(f):
    with open(f, 'rb') as fh: return fh.read()

OPTIONAL = {'units.cpp': 'C17', 'lossless.cpp': 'C18'}   # these use inner functions; the other checks can do without them

def build(variant, extra_src=None, out_name='harness', with_harness=True, link=[], prop=None):
    """Object files are keyed by the contents of everything they are made from, so a changed tree is always rebuilt."""
    cxx, flags, defs = FLAGS[variant]
    hdr = sorted(glob.glob(REPO + '/include/*')) + sorted(glob.glob(H + '/shim/**/*', recursive=True))
    hrepo = sha(*[os.path.relpath(f, '/') + sha(rd(f)) for f in hdr if os.path.isfile(f)])
    hh = sha(*[rd(f) for f in sorted(glob.glob(H + '/*.hpp'))])
    base = [cxx, '-std=c++11', '-g', '-w'] + flags + defs + ['-include', 'cassert', '-include', 'cstdint', '-I' + REPO + '/include', '-I' + H + '/shim']
    jobs, objs, stubs = [], [], {}
    os.makedirs(BUILD + '/obj', exist_ok=True)
    srcs = sorted(glob.glob(REPO + '/src/*.cpp')) + (sorted(glob.glob(H + '/*.cpp')) if with_harness else []) + (extra_src or [])
    for s in srcs:
        k = sha(' '.join(base), hrepo, hh if s.startswith(H) else '', s, rd(s))
        o = '%s/obj/%s.%s.o' % (BUILD, os.path.basename(s), k)
        objs.append(o)
        if not os.path.exists(o): jobs.append((s, o))
    exe = '%s/%s.%s.%s' % (BUILD, out_name, variant, sha(*(objs + link)))
    if os.path.exists(exe): return exe
    sem = threading.Semaphore(os.cpu_count() or 8); errs = []
    def one(s, o):
        with sem:
            t = o + '.tmp%d' % os.getpid()
            r = subprocess.run(base + ['-c', s, '-o', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            b = os.path.basename(s)
            if r.returncode and s.startswith(H) and b in OPTIONAL and OPTIONAL[b] != prop:
                if subprocess.run(base + ['-DVERIF_STUB', '-c', s, '-o', t]).returncode == 0: os.replace(t, o + '.stub'); stubs[o] = o + '.stub'; return
            if r.returncode and s.startswith(H) and b == 'units.cpp':   # an inner function changed its signature: go on without that part
                for part in ('FLAGS', 'REGRESSION', 'QUANTIZER', 'EBQ', 'WITHTREE', 'HUFFMAN'):
                    if subprocess.run(base + ['-DVERIF_NO_' + part, '-c', s, '-o', t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                        os.replace(t, o + '.no' + part); stubs[o] = o + '.no' + part; print('NOTE: %s do not build against this tree and are left out' % part.lower()); return
            if r.returncode: errs.append((s, r.stdout.decode(errors='replace')[-3000:]))
            else: os.replace(t, o)
    th = [threading.Thread(target=one, args=j) for j in jobs]
    [t.start() for t in th]; [t.join() for t in th]
    if errs: die('build of %s (%s) failed:\n%s' % (errs[0][0], variant, errs[0][1]))
    if stubs: objs = [stubs.get(o, o) for o in objs]; exe += '.stub'
    t = exe + '.tmp%d' % os.getpid()
    def link_all(): return subprocess.run([cxx] + flags + objs + link + ['-o', t, '-lzstd', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    r = link_all()
    if r.returncode and with_harness:
        for s, o in zip(srcs, list(objs)):
            b = os.path.basename(s)
            if s.startswith(H) and b in OPTIONAL and OPTIONAL[b] != prop and not o.endswith('.stub') and subprocess.run(base + ['-DVERIF_STUB', '-c', s, '-o', o + '.stub']).returncode == 0:
                objs[objs.index(o)] = o + '.stub'
        r = link_all(); exe += '.stub2'
    if r.returncode: die('link (%s) failed:\n%s' % (variant, r.stdout.decode(errors='replace')[-3000:]))
    os.replace(t, exe)
    return exe

class Result:
    def __init__(self):
        self.cases = 0; self.nontriv = 0; self.sigs = set(); self.cnt = {}; self.samples = []; self.viol = []; self.lost = 0; self.stages = []; self.notes = []

MAXLIKE = ('max_', 'worst_')

def parse_line(res, l, sample_every):
    m = re.match(r'E (\d+) (\d) ([0-9a-f]+) (.*?) ?\| (.*)$', l)
    if not m: return
    res.cases += 1
    if m.group(2) == '1':
        res.nontriv += 1; res.sigs.add(m.group(3))
        for kv in filter(None, m.group(4).split(',')):
            k, v = kv.rsplit('=', 1); v = float(v)
            if k.startswith(MAXLIKE): res.cnt[k] = max(res.cnt.get(k, v), v)
            else: res.cnt[k] = res.cnt.get(k, 0) + v
        if len(res.samples) < 8 and (int(m.group(1)) * 2654435761 % 4294967296 >> 8) % sample_every == 0: res.samples.append('case %s: %s -> %s' % (m.group(1), m.group(5)[:200], m.group(4)[:300]))

STACK = re.compile(r'#\d+ (?:0x[0-9a-f]+ in )?(\S.*?) (/\S+:\d+)')
def crash_text(err):
    """one line saying what the sanitizer or the system reported"""
    t = err[-60000:]
    head = ''
    for pat in (r'SUMMARY: (.*)', r'(runtime error: .*)', r'==\d+== ((?:Invalid|Conditional|Use of|Source and|Argument|Process terminat|Jump).*)', r'(terminate called.*)', r'(.*Assertion.*)'):
        m = re.search(pat, t)
        if m: head = m.group(1).strip(); break
    fr = [f'{a.split("(")[0]} {os.path.basename(b)}' for a, b in STACK.findall(t) if '/repo/' in b or REPO in b][:4]
    return (head + (' at ' + ' < '.join(fr) if fr else ''))[:400]

def run_stage(prop, seed, st, res, work, quick_cpu):
    variant, total = st['variant'], st['total']
    exe = build(variant, prop=prop)
    nw = st.get('workers', 8)
    extra = list(st.get('args', []))
    sdir = os.path.join(work, 'scratch-' + variant); os.makedirs(sdir, exist_ok=True)
    if st.get('scratch'): extra += ['--scratch', sdir]
    pre = st.get('prefix', [])
    cpu = st.get('cpu', 40)
    t0 = time.time(); deadline = st.get('deadline', 420)
    lock = threading.Lock(); ev = Result(); crashes = []
    def worker(k):
        start = 0; n = 0
        while start + k < total:
            log = '%s/%s.%d.%d.log' % (work, variant, k, n); errf = log + '.err'; n += 1
            left = deadline - (time.time() - t0)
            if left <= 0: break
            with open(errf, 'wb') as ef:
                rc = subprocess.call(pre + [exe, '--prop', prop, '--seed', str(seed), '--total', str(total), '--worker', str(k), '--of', str(nw), '--start', str(start),
                                      '--log', log, '--cpu', str(cpu), '--deadline', str(max(1, int(left)))] + extra, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, cwd=sdir)
            last, fin, kind = None, False, None
            with open(log, errors='replace') as fh:
                for l in fh:
                    l = l.rstrip('\n')
                    if l.startswith('B '): last = int(l[2:])
                    elif l.startswith('V '):
                        with lock: ev.viol.append((variant, int(l.split(' ', 2)[1]), l.split(' ', 2)[2], 'oracle'))
                    elif l.startswith('E '):
                        with lock: parse_line(ev, l, max(1, total // 16))
                    elif l.startswith('T '): kind = 'hang'
                    elif l.startswith('X '): kind = 'exit'
                    elif l.startswith(('DONE', 'STOP')): fin = True
            if fin and rc == 0: break
            if last is None: last = start + k
            with lock:
                crashes.append((last, kind or 'crash', rc, rd(errf).decode(errors='replace')))
                if len(crashes) > 40 or sum(c[1] == 'hang' for c in crashes) >= 8: break   # enough to confirm; do not spend the whole budget on more
            start = last + nw - k
    th = [threading.Thread(target=worker, args=(k,)) for k in range(nw)]
    [t.start() for t in th]; [t.join() for t in th]
    # a worker that died is believed only when the same case dies again on its own
    seen = set()
    for case, kind, rc, err in sorted(crashes, key=lambda c: c[0])[:12]:
        again = None
        if any(v[3] in ('hang', 'exit', 'crash') for v in ev.viol) and time.time() - t0 > 240: ev.notes.append('further deaths not repeated: one is confirmed and time is short'); break
        for attempt in range(2):
            log = '%s/re.%s.%d.%d.log' % (work, variant, case, attempt)
            p = subprocess.run(pre + [exe, '--prop', prop, '--seed', str(seed), '--total', str(total), '--case', str(case), '--log', log, '--cpu', str(cpu * (2 + attempt))] + extra,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV, cwd=sdir)
            txt = open(log, errors='replace').read() if os.path.exists(log) else ''
            k2 = 'hang' if '\nT ' in '\n' + txt else 'exit' if '\nX ' in '\n' + txt else 'crash'
            if p.returncode != 0 and p.returncode != -9: again = (k2, p.returncode, p.stderr.decode(errors='replace')); break
        if again is None:
            rep = crash_text(err)
            if rep and rc != -9 and kind == 'crash' and ('Sanitizer' in err or '== ' in err): again = (kind, rc, err)   # scheduling-dependent reports (races) need not repeat
            else: ev.notes.append('case %d (%s) ended with %s once and ran to its end when repeated' % (case, variant, kind)); ev.lost += 1; continue
        k2, rc2, err2 = again
        what = {'hang': 'no result after %d s of processor time' % cpu, 'exit': 'the library ended the process', 'crash': 'the process died (status %s)' % rc2}[k2]
        rep = crash_text(err2)
        ev.viol.append((variant, case, what + (': ' + rep if rep else ''), k2))
    for a in ('cases', 'nontriv', 'lost'): setattr(res, a, getattr(res, a) + getattr(ev, a))
    res.sigs |= {variant + s for s in ev.sigs} if st.get('own_sigs') else ev.sigs
    for k, v in ev.cnt.items():
        res.cnt[k] = max(res.cnt.get(k, v), v) if k.startswith(MAXLIKE) else res.cnt.get(k, 0) + v
    res.samples += ev.samples[:4 if res.samples else 8]; res.viol += ev.viol; res.notes += ev.notes
    res.stages.append(dict(build=variant, planned=total, judged=ev.cases, nontrivial=ev.nontriv, distinct=len(ev.sigs), died=len(crashes), wall_s=round(time.time() - t0, 1)))

def known(prop):
    out = []
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)$', l.strip())
        if m and m.group(1) == prop: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--setup', action='store_true'); ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    if a.setup:
        for v in FLAGS: build(v)
        print('built ' + ' '.join(FLAGS)); return
    prop, tier, seed = a.prop, a.tier, a.seed
    if prop not in PLAN: die('unknown property %s' % prop)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='cpsz-%s-' % prop)
    res = Result()
    try:
        if prop == 'C23':
            import programs
            programs.run(sys.modules[__name__], tier, seed, res, work)
        else:
            for st in PLAN[prop][tier]: run_stage(prop, seed, st, res, work, 0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    kn = known(prop); hit = {}; new = []
    for v in res.viol:
        for rx, text in kn:
            if rx.search(v[2]): hit[text] = v; break
        else: new.append(v)
    for _, text in kn: print('KNOWN-FINDING: property=%s %s' % (prop, text))
    planned = sum(s['planned'] for s in res.stages)
    rule, assumptions = RULE[prop]
    evd = dict(property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=res.cases, distinct_nontrivial=len(res.sigs), rule=rule, samples=res.samples[:12] or ['none'],
                      nontrivial=res.nontriv, observed={k: round(v, 9) for k, v in sorted(res.cnt.items())}, stages=res.stages, notes=res.notes[:10]),
        assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f: json.dump(evd, f, indent=1)
    if new:
        os.makedirs(BUILD + '/replay', exist_ok=True)
        rp = '%s/replay/%s-%s-%d.txt' % (BUILD, prop, tier, seed)
        with open(rp, 'w') as f:
            for variant, case, msg, kind in new[:60]:
                f.write('%s\n  build=%s case=%s kind=%s\n' % (msg, variant, case, kind))
                if prop != 'C23':
                    tot = [s['planned'] for s in res.stages if s['build'] == variant][0]
                    f.write('  replay: %s --prop %s --seed %d --total %d --case %s\n' % (build(variant, prop=prop), prop, seed, tot, case))
        for variant, case, msg, kind in new[:5]: print('  [%s] case %s: %s' % (variant, case, msg[:500]))
        print('%s: %d violations in %d cases' % (prop, len(new), res.cases))
        print('VIOLATION property=%s replay=%s' % (prop, rp)); sys.stdout.flush(); sys.exit(1)
    if res.nontriv < 0.5 * planned or not res.sigs: die('%s: only %d of %d planned cases were observed' % (prop, res.nontriv, planned), 3)
    print('%s: held on %d cases (%d non-trivial, %d distinct observations) in %.1f s' % (prop, res.cases, res.nontriv, len(res.sigs), time.time() - t0))

if __name__ == '__main__': main()
