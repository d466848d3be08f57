#!/usr/bin/env python3
"""Check of one property:  run.py <ID> [quick|thorough]

 1. extract: Clang parses /repo's current sources and the exporter plugin writes the typed AST of the functions under contract;
 2. prove: every contract group is executed symbolically and its obligations are discharged (z3 / ground congruence + field identities);
 3. bounded stand-in: the driver, compiled from /repo's current sources, compares the running code with an independent oracle
    (also the search for a failing input when an obligation fails);
 4. evidence/<ID>.json, and the verdict.
"""
import sys, os, json, time, subprocess, hashlib, threading, shutil, glob, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/veriftools/pyvenv/bin/python3'
try: import z3
except ImportError:
    if os.environ.get('B2V_REEXEC'): raise
    os.environ['B2V_REEXEC'] = '1'
    for py in (VENV, shutil.which('python3-vt') or ''):
        if py and os.path.exists(py): os.execv(py, [py]+[os.path.abspath(__file__)]+sys.argv[1:])
    raise
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
REPO = '/repo'; CORE = REPO+'/core'; SRC = CORE+'/src'
BUILD = os.environ.get('B2V_BUILD', HERE+'/build')
LIBS = '-lboost_filesystem -lboost_system -lboost_chrono -lboost_regex -lboost_serialization -lboost_log -lboost_log_setup -lboost_thread -lboost_program_options -lpthread -lmpc -lmpfr -lgmp'.split()

def log(*a): print('[b2v]', *a, flush=True)
def include_flags():
    cfg = REPO+'/_build/core/include'
    if not os.path.exists(cfg+'/bertini2/config.h'):
        d = BUILD+'/cfg/bertini2'; os.makedirs(d, exist_ok=True); shutil.copy(HERE+'/support/config.h', d+'/config.h'); cfg = BUILD+'/cfg'
    return ['-I'+cfg, '-I'+CORE+'/include/bertini2', '-I'+CORE+'/include', '-I/usr/include/eigen3']
def sha(paths, extra=''):
    h = hashlib.sha1(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
def tree_files():
    out = []
    for d in (CORE+'/src', CORE+'/include'):
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs if f.endswith(('.cpp', '.hpp', '.h', '.ipp'))]
    return out
def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)

# ------------------------------------------------------------------ extraction
def plugin():
    src = HERE+'/engine/exporter.cpp'; so = '%s/b2export-%s.so' % (BUILD, sha([src]))
    if os.path.exists(so): return so
    os.makedirs(BUILD, exist_ok=True)
    cfgs = sh(['/usr/lib/llvm-18/bin/llvm-config', '--cxxflags']).stdout.split()
    tmp = so+'.%d.tmp' % os.getpid()
    r = sh(['clang++', '-O0', '-fPIC', '-shared', '-fno-rtti', '-w']+cfgs+[src, '-o', tmp])
    if r.returncode: raise RuntimeError('exporter does not compile: '+r.stdout[-2000:])
    os.replace(tmp, so); return so
def make_tu(spec, d):
    """a translation unit that includes the real sources (nothing else)"""
    p = '%s/tu_%s.cpp' % (d, hashlib.sha1(repr(spec).encode()).hexdigest()[:8])
    lines = []
    for s in spec['src']:
        full = s if s.startswith('/') else CORE+'/'+s
        for f in sorted(glob.glob(full)):
            if any(x in f for x in spec.get('skip', ())): continue
            lines.append('#include "%s"' % f)
    lines.append(spec.get('tail', ''))
    open(p, 'w').write('\n'.join(lines)+'\n'); return p
def extract(spec, d, th):
    tu = make_tu(spec, d); out = tu[:-4]+'-'+th+'.jsonl'
    if os.path.exists(out): return out
    so = plugin(); tmp = out+'.%d.tmp' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-w', '-fsyntax-only']+include_flags()+['-Xclang', '-load', '-Xclang', so, '-Xclang', '-plugin', '-Xclang', 'b2export']
    def arg(k, v): return ['-Xclang', '-plugin-arg-b2export', '-Xclang', k, '-Xclang', '-plugin-arg-b2export', '-Xclang', v]
    cmd += arg('out', tmp)+arg('dir', CORE+'/')
    for r in spec['roots']: cmd += arg('root', r)
    r = sh(cmd+[tu])
    if (r.returncode or not os.path.exists(tmp)) and spec.get('tail'):      # an instantiation request that no longer fits: do without
        tu2 = make_tu(dict(spec, tail=''), d); r = sh(cmd+[tu2])
    if r.returncode or not os.path.exists(tmp): raise RuntimeError('extraction failed: '+r.stdout[-1500:])
    os.replace(tmp, out); return out

# ------------------------------------------------------------------ bounded drivers
SKIP = ('unity', 'blackbox', 'parallel', 'function_tree/special_number.cpp')
def lib_units():
    fs = [f for f in sorted(glob.glob(SRC+'/**/*.cpp', recursive=True)) if not any(x in f for x in SKIP)]
    ft = [f for f in fs if '/function_tree/' in f]; rest = [f for f in fs if f not in ft]
    heavy = ['mhom', 'total_degree', 'system.cpp', 'user', 'node.cpp', 'explicit_predictors', 'straight_line']
    rest.sort(key=lambda f: next((i for i, h in enumerate(heavy) if h in f), 99))
    units = [('ft', ft)]
    for f in rest: units.append((os.path.relpath(f, SRC).replace('/', '_')[:-4], [f]))
    units.sort(key=lambda u: 0 if any(h in u[1][0] for h in heavy[:2]) else 1)
    return units
def compile_unit(name, files, d, opt='-O0'):
    """object files for the unit (one object; separate objects if the files do not combine)"""
    if len(files) == 1:
        o = d+'/'+name+'.o'
        if not os.path.exists(o):
            r = sh(['clang++', opt, '-std=c++17', '-w']+include_flags()+['-c', files[0], '-o', o+'.tmp'])
            if r.returncode: raise RuntimeError('%s does not compile: %s' % (files[0], r.stdout[-1500:]))
            os.replace(o+'.tmp', o)
        return [o]
    o = d+'/'+name+'.o'
    if os.path.exists(o): return [o]
    if not os.path.exists(d+'/'+name+'.split'):
        u = d+'/'+name+'.cpp'; open(u, 'w').write(''.join('#include "%s"\n' % f for f in files))
        r = sh(['clang++', opt, '-std=c++17', '-w']+include_flags()+['-c', u, '-o', o+'.tmp'])
        if r.returncode == 0: os.replace(o+'.tmp', o); return [o]
        open(d+'/'+name+'.split', 'w').write('')
    out = []
    for i, f in enumerate(files): out += compile_unit('%s_%d' % (name, i), [f], d, opt)
    return out
def parallel(jobs, n=8):
    res = [None]*len(jobs); it = iter(range(len(jobs))); lock = threading.Lock(); errs = []
    def work():
        while True:
            with lock:
                i = next(it, None)
            if i is None: return
            try: res[i] = jobs[i]()
            except Exception as ex: errs.append(ex); res[i] = []
    ts = [threading.Thread(target=work) for _ in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs: raise errs[0]
    return res
def build_driver(names, d, jobs=8):
    js = []; exes = []; todo = []
    for name in names:
        src = '%s/drivers/%s.cpp' % (HERE, name)
        key = sha([src]+glob.glob(HERE+'/drivers/*.hpp')); exe = '%s/drv_%s_%s' % (d, name, key); exes.append(exe)
        if os.path.exists(exe): continue
        o = '%s.%d.o' % (exe, os.getpid())
        def comp(src=src, o=o):
            r = sh(['clang++', '-O0', '-std=c++17', '-w']+include_flags()+['-c', src, '-o', o])
            if r.returncode: raise RuntimeError('driver does not compile against the current tree: '+r.stdout[-3000:])
            return [o]
        js.append(comp); todo.append((o, exe))
    if todo:
        units = lib_units()
        res = parallel(js+[lambda u=u: compile_unit(u[0], u[1], d) for u in units], jobs)
        libs = sum(res[len(js):], [])
        for o, exe in todo:
            r = sh(['clang++', o]+libs+LIBS+['-o', exe+'.%d.tmp' % os.getpid()])
            if r.returncode: raise RuntimeError('driver does not link: '+r.stdout[-2000:])
            os.replace(exe+'.%d.tmp' % os.getpid(), exe); os.remove(o)
    return exes
def run_driver(exe, tier, seed, limit, args=()):
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier)
    scratch = '%s/scratch.%d' % (BUILD, os.getpid()); os.makedirs(scratch, exist_ok=True)
    t = time.time()
    try:
        p = subprocess.Popen([exe]+list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=scratch, errors='replace')
        timer = threading.Timer(limit, lambda: p.send_signal(signal.SIGALRM)); timer.start()
        timer2 = threading.Timer(limit+20, p.kill); timer2.start()
        out, _ = p.communicate(); timer.cancel(); timer2.cancel(); rc = p.returncode
    finally: shutil.rmtree(scratch, ignore_errors=True)
    fails = []
    for l in out.splitlines():
        m = re.match(r'FAIL key=(\S+) :: (.*)', l)
        if m: fails.append((m.group(1), m.group(2)))
    cases = sum(int(m) for m in re.findall(r'^CASES (\d+)', out, re.M))
    cov = {m[0]: int(m[1]) for m in re.findall(r'^COVER (\S+) (\d+)', out, re.M)}
    if rc != 0 and not fails: fails.append(('abnormal-exit', 'the driver ended with status %s; last output: %s' % (rc, out[-400:])))
    return dict(rc=rc, out=out, fails=fails, cases=cases, cover=cov, wall=round(time.time()-t, 2))

# ------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    from contracts import registry
    P = registry.PROPS[pid]
    from engine import symex, verify
    th = sha(tree_files()); d = '%s/%s' % (BUILD, th); os.makedirs(d, exist_ok=True)
    # keep the cache small
    olds = sorted([x for x in glob.glob(BUILD+'/*') if re.fullmatch(r'[0-9a-f]{16}', os.path.basename(x)) and x != d], key=os.path.getmtime)
    for x in olds[:-2]: shutil.rmtree(x, ignore_errors=True)
    os.utime(d)
    drv = {}
    def drivers():
        try: drv['exes'] = build_driver(P.get('drivers', []), d)
        except Exception as ex: drv['error'] = str(ex)
    bt = threading.Thread(target=drivers); bt.start()
    groups_out = []; notes = []
    deadline = t0 + (330 if tier == 'quick' else 1500)
    ext_err = None; texts = {}
    def ext(i, spec):
        try: texts[i] = extract(spec, d, th)
        except Exception as ex: texts[i] = ex
    suites = P.get('suites', [])
    ths = [threading.Thread(target=ext, args=(i, s['tu'])) for i, s in enumerate(suites)]
    for x in ths: x.start()
    for x in ths: x.join()
    bt.join()
    for i, s in enumerate(suites):
        if isinstance(texts[i], Exception):
            notes.append('extraction failed: %s' % texts[i]); continue
        db = symex.DB().load(texts[i])
        try: gs = s['groups']()
        except Exception as ex: notes.append('contract construction: %s' % ex); continue
        groups_out += verify.run_all(db, gs, deadline=deadline)
    texec = time.time()
    druns = []
    if 'error' in drv: notes.append('bounded driver unavailable: '+drv['error'])
    for name, exe in zip(P.get('drivers', []), drv.get('exes', [])):
        r = run_driver(exe, tier, seed, 420 if tier == 'quick' else 2400); r['name'] = name; druns.append(r)
    # ---------------------------------------------------------- verdict
    known = json.load(open(HERE+'/known_findings.json'))['findings']
    kf = {k['key']: k for k in known if k['property'] == pid and k.get('status') == 'known'}
    new = []; seen = {}
    for r in druns:
        for k, txt in r['fails']:
            if k in kf: seen.setdefault(k, txt)
            else: new.append((r['name'], k, txt))
    bad = [g for g in groups_out if g['status'] in ('refuted', 'open')]
    kp = {k['obligation'] for k in known if k['property'] == pid and k.get('status') == 'known' and 'obligation' in k}
    for g in list(bad):
        fs = [f for f in g['failed'] if f['obligation'] not in kp]
        if not fs: bad.remove(g); [seen.setdefault(f['obligation'], f['detail'][:200]) for f in g['failed']]
    undecided = [g for g in groups_out if g['status'] not in ('proved', 'refuted', 'open')]
    for k, txt in seen.items():
        w = next((x.get('what', '') for x in known if x.get('key') == k or x.get('obligation') == k), '')
        print('KNOWN-FINDING: property=%s %s' % (pid, w or txt[:300]), flush=True)
    replay = None; code = 0
    if new or bad:
        os.makedirs(HERE+'/evidence/replay', exist_ok=True); replay = '%s/evidence/replay/%s.txt' % (HERE, pid)
        with open(replay, 'w') as f:
            f.write('property %s, tree %s, seed %d, tier %s\n' % (pid, th, seed, tier))
            if new:
                f.write('\nFailing inputs (replay: VERIF_SEED=%d VERIF_TIER=%s python3 %s/run.py %s):\n' % (seed, tier, HERE, pid))
                for n, k, txt in new: f.write('  driver %s key=%s :: %s\n' % (n, k, txt))
            for g in bad:
                f.write('\nFailed obligations of %s (%s):\n' % (g['name'], g['status']))
                for x in g['failed'][:20]: f.write('  %s [%s]\n    verifier: %s\n' % (x['obligation'], x['status'], x['detail']))
        code = 1
    tot = sum(g['obligations'] for g in groups_out); dis = sum(g['discharged'] for g in groups_out)
    fns = sorted({x for g in groups_out for x in g['functions']})
    inl = sorted({x for g in groups_out for x in g.get('stats', {}).get('inlined', [])})
    mods = sorted({x for g in groups_out for x in g.get('stats', {}).get('models', [])})
    ctr = sorted({x for g in groups_out for x in g.get('stats', {}).get('contracts', [])})
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), wall_s=round(time.time()-t0, 2), violations=1 if code else 0,
        coverage=dict(explanation='%d of %d obligations of %d contract groups discharged; bounded drivers ran %d cases (bounded, not counted as proved)' % (dis, tot, len(groups_out), sum(r['cases'] for r in druns)), obligations=tot, discharged=dis, checker_cmd='python3 /verif/run.py %s %s' % (pid, tier),
            trusted_base=['Clang 18 parser and AST', 'exporter plugin engine/exporter.cpp', 'symbolic executor engine/symex.py', 'library models engine/models.py', 'z3', 'ground congruence closure + sympy field identities (engine/algebra.py)'],
            functions_under_contract=fns, functions_executed_in_place=inl, contracts_used_at_calls=ctr, library_models_used=mods,
            groups=[dict(name=g['name'], status=g['status'], obligations=g['obligations'], discharged=g['discharged'], wall_s=g['wall'], solver_s=g.get('stats', {}).get('solver_s'), paths=g.get('stats', {}).get('paths'),
                         algebra=g.get('stats', {}).get('algebra'), queries=g.get('stats', {}).get('queries'), error=g.get('error')) for g in groups_out],
            solver_s=round(sum(g.get('stats', {}).get('solver_s') or 0 for g in groups_out), 2), backends=['z3 %s' % z3.get_version_string(), 'algebra (congruence closure + sympy)'],
            undecided=[dict(name=g['name'], status=g['status'], why=g.get('error', '')) for g in undecided], notes=notes,
            bounded=[dict(driver=r['name'], cases=r['cases'], cover=r['cover'], wall_s=r['wall'], label='bounded, not counted as proved') for r in druns],
            bounded_scope=P.get('bounded_scope', '')),
        assumptions=registry.ASSUMPTIONS + P.get('assumptions', []))
    os.makedirs(HERE+'/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, pid), 'w'), indent=1, default=str)
    log('%s: %d/%d obligations, %d groups (%d proved, %d failed, %d undecided), bounded cases %d, %.1f s' % (pid, dis, tot, len(groups_out), sum(g['status'] == 'proved' for g in groups_out), len(bad), len(undecided), sum(r['cases'] for r in druns), time.time()-t0))
    for g in undecided: log('undecided', g['name'], g['status'], g.get('error', '')[:200])
    for n in notes: log('note:', n[:1500])
    if new:
        for n, k, txt in new[:5]: log('failing input:', n, k, txt[:400])
    for g in bad: log('failed obligation:', g['name'], '/', g['failed'][0]['obligation'])
    if code:
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if new else ' no-failing-input-found'), flush=True)
    sys.exit(code)
if __name__ == '__main__': main()
