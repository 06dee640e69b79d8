#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--replay FILE] [--keep]
Builds harness/ID.cpp with the /repo sources it names, runs every section, replays before reporting,
writes evidence/ID.json.  exit 0 held / 1 VIOLATION / 2 error of the check."""
import sys, os, glob, re, json, subprocess, tempfile, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
CXX = 'g++-9'
BASE = ['-std=gnu++14', '-msse4', '-Wno-invalid-offsetof', '-w', '-DNDEBUG', '-pthread', '-g1',
        '-I' + REPO, '-I' + os.path.join(ROOT, 'harness')]

def die(msg):
    print('CHECK-ERROR:', msg); sys.exit(2)

def directives(src):
    d = dict(REPO=[], LIBS=[], VARIANT=[], EXTRA=[], ASSUME=[], RULE=[], TIMEOUT=[], FLAGS=[], INSTR=[])
    for line in open(src):
        m = re.match(r'//\s*(REPO|LIBS|VARIANT|EXTRA|ASSUME|RULE|TIMEOUT|FLAGS|INSTR):\s*(.*)', line)
        if m:
            k, v = m.groups()
            if k in ('VARIANT', 'ASSUME', 'RULE', 'INSTR'): d[k].append(v.strip())
            else: d[k] += v.split()
    return d

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def others(d, exe, flags, ex):
    """an archive of the project's source files a harness does not name"""
    jobs, objs = [], []
    for folder in ('datas', 'datas/encrypt', 'uni', 'formats', 'datas/internal', 'uni/internal'):
        for f in sorted(glob.glob(os.path.join(REPO, folder, '*.cpp'))):
            if os.path.relpath(f, REPO) in d['REPO']: continue
            o = f'{exe}.other{len(jobs)}.o'; jobs.append([CXX] + BASE + flags + ['-c', f, '-o', o])
    for r, j in zip(ex.map(run, jobs), jobs):
        if not r.returncode: objs.append(j[-1])
    run(['ar', 'rcs', exe + '.other.a'] + objs)
    return exe + '.other.a'

def build(pid, d, tier, work):
    """returns list of (variant, exe)"""
    variants = []
    for v in d['VARIANT'] or ['opt -O2']:
        name, *flags = v.split()
        if name.endswith('+thorough'):
            if tier != 'thorough': continue
            name = name[:-9]
        variants.append((name, flags))
    jobs, links, flags_of = [], [], {}
    for name, flags in variants:
        objs = []
        srcs = [os.path.join(ROOT, 'harness', pid + '.cpp')] + [os.path.join(ROOT, e) for e in d['EXTRA']] + [os.path.join(REPO, r) for r in d['REPO'] if os.path.exists(os.path.join(REPO, r))]
        instr = [f for w in d['INSTR'] if w.split()[0] == name for f in w.split()[1:]] # for everything but the harness itself
        for i, s in enumerate(srcs):
            o = os.path.join(work, f'{name}.{i}.o'); objs.append(o)
            jobs.append([CXX] + BASE + [f.replace('{repo}', REPO).replace('{root}', ROOT) for f in d['FLAGS']] + [f'-DMC_VARIANT_{name}'] + flags + (instr if i else []) + ['-c', s, '-o', o])
        exe = os.path.join(work, f'{pid}.{name}')
        flags_of[exe] = [f.replace('{repo}', REPO).replace('{root}', ROOT) for f in d['FLAGS']] + [f'-DMC_VARIANT_{name}'] + flags
        links.append([CXX] + flags + objs + ['-o', exe, '-pthread'] + d['LIBS'])
    with ThreadPoolExecutor(8) as ex:
        for r, j in zip(ex.map(run, jobs), jobs):
            if r.returncode: # some harnesses have a second form
                r2 = run(j[:-4] + ['-DMC_FALLBACK'] + j[-4:]) if 'MC_FALLBACK' in open(j[-3]).read() else r
                if not r2.returncode: r = r2
            if r.returncode: die('compile failed: ' + ' '.join(j) + '\n' + r.stdout[:1500])
        for r, j in zip(ex.map(run, links), links):
            if r.returncode: # code may have moved to another source file: let the others provide it
                r = run(j[:1] + j[1:j.index('-o')] + [others(d, j[j.index('-o') + 1], flags_of[j[j.index('-o') + 1]], ex)] + j[j.index('-o'):] + ['-lpugixml'])
            if r.returncode: die('link failed: ' + ' '.join(j) + '\n' + r.stdout[-6000:])
    return [(n, os.path.join(work, f'{pid}.{n}')) for n, _ in variants]

def execute(exe, tier, work, tag, only=None, timeout=800, giveup=0):
    out = os.path.join(work, f'out.{tag}.json')
    tmp = os.path.join(work, 'tmp.' + tag); os.makedirs(tmp, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:max_allocation_size_mb=3000:hard_rss_limit_mb=3000',
               TSAN_OPTIONS='exitcode=66:halt_on_error=1:report_signal_unsafe=0', TMPDIR=tmp)
    cmd = [exe, '--tier', tier, '--out', out, '--tmp', tmp]
    if only: cmd += ['--only', only]
    if giveup: cmd += ['--giveup', str(giveup)]
    try:
        r = run(cmd, cwd=tmp, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        die(f'{exe} did not finish within {timeout}s')
    if not os.path.exists(out): die(f'harness {exe} gave no result (exit {r.returncode}): {r.stdout[-3000:]}')
    return json.load(open(out), strict=False)

def known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return {}
    return {f['key']: f['what'] for f in json.load(open(p))['known'] if f['property'] == pid}

def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    pid = a[0]
    tier = a[1] if len(a) > 1 and a[1] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    src = os.path.join(ROOT, 'harness', pid + '.cpp')
    d = directives(src)
    os.makedirs(os.path.join(ROOT, '.build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '.', dir=os.path.join(ROOT, '.build'))
    limit = int(d["TIMEOUT"][0]) if d["TIMEOUT"] else (700 if tier == "quick" else 7200)
    try:
        if '--replay' in sys.argv:
            rp = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
            exes = dict(build(pid, d, rp['tier'], work))
            r = execute(exes[rp['variant']], rp['tier'], work, 'replay', rp['section'], limit)
            for v in r['violations']: print(v['key'], '--', v['detail'])
            return 1 if any(v['key'] == rp['key'] for v in r['violations']) else 0
        exes = build(pid, d, tier, work)
        tb = time.time() - t0
        cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], sections=[], capped=[])
        kn = known(pid)
        new, listed, seen, confirmed, done = [], {}, set(), [], {}
        for name, exe in exes:
            r = execute(exe, tier, work, name, None, limit, 0 if kn else 45)  # (listed findings must not cut the exploration short)
            cov['states'] += r['states']; cov['transitions'] += r['transitions']
            cov['traces_validated_against_impl'] += r['traces']
            cov['samples'] += r['samples'][:8]
            cov['capped'] += r['capped']
            for s in r['sections']: s['variant'] = name; cov['sections'].append(s)
            # replay before report: violations must come back when their section runs again
            for v in r['violations']:
                v['variant'] = name
                if v['key'] in kn: listed[v['key']] = v; continue
                if (v['key'], name) in seen: continue
                seen.add((v['key'], name)); new.append(v); k = (name, v['section'])
                if k not in done and len(done) < 8 and (not done or time.time() - t0 < (100 if confirmed else 300)):
                    rr = execute(exe, tier, work, f'replay{len(done)}', v['section'], limit, 0 if kn else 45)
                    done[k] = {x['key'] for x in rr['violations']}
                if k in done and v['key'] in done[k]: confirmed.append(v)
            if confirmed: break  # (the other builds of the same exploration are not needed any more)
        cov['exhaustive'] = not cov['capped'] and not new
        cov['samples'] = cov['samples'][:12]
        if d['RULE']: cov['rule'] = ' '.join(d['RULE'])
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
                  assumptions=d['ASSUME'], wall_s=round(time.time() - t0, 2), build_s=round(tb, 2),
                  violations=len(new), known_findings=sorted(listed))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
        for k, v in listed.items(): print(f'KNOWN-FINDING: property={pid} {k}: {kn[k]}')
        print(f"{pid} {tier}: states={cov['states']} transitions={cov['transitions']} traces={cov['traces_validated_against_impl']} wall={ev['wall_s']}s build={ev['build_s']}s capped={len(cov['capped'])}")
        if os.environ.get('MC_VERBOSE'):
            for s in cov['sections']: print('  ', s)
        if not new: return 0
        if not confirmed: die('a reported violation did not replay: ' + json.dumps(new[:3]))
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for v in confirmed[:20]:
            h = hashlib.sha1((v['key'] + v['variant']).encode()).hexdigest()[:10]
            rp = os.path.join('replays', f'{pid}-{h}.json')
            json.dump(dict(property=pid, tier=tier, **v, replay=f'python3 tools/check.py {pid} --replay {rp}'), open(os.path.join(ROOT, rp), 'w'), indent=1)
            print('  ', v['key'], '--', v['detail'][:600].replace('\n', ' | '))
            print(f'VIOLATION property={pid} replay={rp}')
        return 1
    finally:
        if '--keep' not in sys.argv: shutil.rmtree(work, ignore_errors=True)
        else: print('kept', work)
sys.exit(main())
