#!/usr/bin/env python3
"""Solver-based checks of the real sofa-pbrpc code.   check.py <property> [--tier quick|thorough] [--part NAME] [-v]

For every part of a property: compile the harness and the relevant /repo sources to LLVM bitcode (always from the current
tree), explore it symbolically (engine/symx: every branch, memory access, arithmetic trap, scheduling choice and assertion is
decided by z3 over all values within the part's bounds), replay counterexamples and a sample of the explored paths against a
native AddressSanitizer build of the same bitcode, and report.
exit 0: held on everything explored;  1: VIOLATION (replayed);  2: no verdict (never counted as a pass)."""
import sys, os, json, subprocess, time, hashlib, glob, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'lib'))
import protogen, specs
SRC = os.path.join(REPO, 'src', 'sofa', 'pbrpc')
CLANG, LINK = '/usr/bin/clang++-18', '/usr/bin/llvm-link-18'
CF = '-std=gnu++17 -fno-pic -w -Wno-register -O1 -g -fno-vectorize -fno-slp-vectorize -fno-builtin -fno-unroll-loops -D_GNU_SOURCE -D__STDC_LIMIT_MACROS -DHAVE_SNAPPY -DBOOST_MULTI_INDEX_DISABLE_SERIALIZATION'.split()

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **k)

class NoVerdict(Exception): pass

def build_engine():
    b = os.path.join(V, 'build'); os.makedirs(b, exist_ok=True); e = os.path.join(V, 'engine')
    h = hashlib.sha256()
    for f in sorted(glob.glob(e + '/*')): h.update(open(f, 'rb').read())
    key = h.hexdigest()[:16]; stamp = os.path.join(b, 'engine.' + key)
    if os.path.exists(stamp): return b
    import fcntl
    with open(os.path.join(b, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp): return b
        procs = []
        r = subprocess.Popen(['make', '-B', '-s', '-C', e, 'BIN=' + os.path.join(b, 'symx')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        procs.append(r)
        for s in ('rt', 'rt_c', 'rt_common'):
            procs.append(subprocess.Popen([CLANG, '-std=gnu++17', '-fno-pic', '-O1', '-g', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin', '-w', '-emit-llvm', '-I' + e, '-c', os.path.join(e, s + '.cpp'), '-o', os.path.join(b, s + '.bc')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for s in ('native', 'rt_common'):
            procs.append(subprocess.Popen([CLANG, '-std=gnu++17', '-O1', '-g', '-fno-builtin', '-w', '-I' + e, '-c', os.path.join(e, s + '.cpp'), '-o', os.path.join(b, s + '.o')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for p in procs:
            o, _ = p.communicate()
            if p.returncode: raise NoVerdict('engine build failed: ' + o.decode()[-2000:])
        r = sh([LINK] + [os.path.join(b, s + '.bc') for s in ('rt', 'rt_c', 'rt_common')] + ['-o', os.path.join(b, 'rtall.bc')])
        if r.returncode: raise NoVerdict('rt link failed: ' + r.stderr)
        for f in glob.glob(os.path.join(b, 'engine.*')): os.remove(f)
        open(stamp, 'w').write('ok')
    return b

def inc(work): return ['-I' + os.path.join(V, 'engine'), '-I' + os.path.join(V, 'harness'), '-I' + os.path.join(work, 'gen'), '-I' + os.path.join(V, 'shim'), '-I' + os.path.join(REPO, 'src'), '-idirafter', '/opt/vp/prefix/include']

def compile_one(work, src, out, defs):
    cache = os.environ.get('SX_CACHE'); c = None      # development only: reuse bitcode of an identical preprocessed source
    if cache:
        r = sh([CLANG] + CF + ['-E'] + ['-D' + d for d in defs] + inc(work) + [src])
        c = os.path.join(cache, hashlib.sha256(r.stdout.replace(work, 'W').encode()).hexdigest())
        if r.returncode == 0 and os.path.exists(c): shutil.copy(c, out); return None
    r = sh([CLANG] + CF + ['-emit-llvm'] + ['-D' + d for d in defs] + inc(work) + ['-c', src, '-o', out])
    if c and r.returncode == 0: shutil.copy(out, c)
    return None if r.returncode == 0 else '%s: %s' % (src, '\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:1500])

def build_part(work, part):
    """harness + sources -> list of bitcode files"""
    hs = [os.path.join(V, 'harness', part['harness'])] + ([] if part.get('nolog') else [os.path.join(V, 'harness', 'log.cpp')]) + [os.path.join(V, 'harness', 'codec.cpp')]
    srcs = hs + [os.path.join(SRC, s + '.cc') for s in part.get('src', [])]
    outs, jobs = [], []
    for s in srcs:
        key = hashlib.sha256((s + '|' + ' '.join(part.get('defs', []))).encode()).hexdigest()[:12]
        o = os.path.join(work, os.path.basename(s) + '.' + key + '.bc'); outs.append(o)
        jobs.append((s, o))
    return outs, jobs

def run_symx(b, work, part, bcs, args, opt, tag, jobs):
    out = os.path.join(work, 'out.' + tag)
    cmd = [os.path.join(b, 'symx')] + bcs + ['--rt', os.path.join(b, 'rtall.bc'), '--out', out, '--repo', REPO, '--jobs', str(jobs)]
    for a in args: cmd += ['--arg', str(a)]
    for k in ('preempt', 'steps', 'time', 'qtimeout'):
        if k in opt: cmd += ['--' + k, str(opt[k])]
    cmd += ['--samples', str(opt.get('samples', 6)), '--max-viol', str(opt.get('maxviol', 4))]
    t = time.time()
    if os.environ.get("SX_DBG"): print(" ".join(cmd))
    try: r = sh(cmd, timeout=opt.get('time', 600) + 120)
    except subprocess.TimeoutExpired: return {'args': args, 'err': 'symx overran its time budget', 'parts': [], 'wall': time.time() - t}
    files = [out] if jobs <= 1 else sorted(glob.glob(out + '.*'))
    res = {'args': args, 'rc': r.returncode, 'parts': [], 'wall': time.time() - t, 'err': None, 'cmd': ' '.join(cmd)}
    for f in files:
        try: res['parts'].append(json.load(open(f)))
        except Exception as e: res['err'] = 'bad output %s: %s' % (f, e)
    if r.returncode not in (0, 1, 2) or not res['parts']: res['err'] = 'symx exit %d: %s' % (r.returncode, r.stderr[-800:])
    return res

def native_build(b, work, part, bcs, opt):
    exe = os.path.join(work, 'native.' + part['name'])
    if os.path.exists(exe): return exe
    em = exe + '.bc'
    r = sh([os.path.join(b, 'symx')] + bcs + ['--emit', em, '--repo', REPO])
    if r.returncode: raise NoVerdict('emit failed: ' + r.stderr[-500:])
    r = sh([CLANG, '-w', '-fsanitize=address', '-O0', '-g', '-fno-pic', '-no-pie', em, os.path.join(b, 'native.o'), os.path.join(b, 'rt_common.o'), '-o', exe, '-lpthread', '-lz'] + part.get('nlibs', []))
    if r.returncode: raise NoVerdict('native build failed: ' + r.stderr[-1500:])
    return exe

def inputs_text(inputs, args, preempt):
    t = '@preempt %d %d\n' % ((0, 0) if preempt is None or preempt < 0 else (1, preempt))
    for a in args: t += '@arg 0 %d\n' % (a & 0xffffffff)
    return t + ''.join('%s %d %d\n' % (n.replace(' ', '_'), w, v) for n, w, v in inputs)

def native_run(exe, infile, timeout):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0')
    try: r = sh([exe, infile], env=env, timeout=timeout)
    except subprocess.TimeoutExpired: return 'timeout', ''
    return r.returncode, r.stdout + r.stderr

def notes_of(o): return [[int(x) for x in l.split()[1:3]] for l in o.splitlines() if l.startswith('SX-NOTE')]

def main():
    a = sys.argv[1:]
    if a == ['--setup']: build_engine(); return
    pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 1
        elif a[i] == '--part': only = a[i + 1]; i += 1
        elif a[i] == '-v': verbose = True
        i += 1
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time(); spec = specs.SPECS[pid]
    work = os.path.join(V, 'build', 'w.%s.%s.%d' % (pid, tier, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rc = 2
    try: rc = check(pid, spec, tier, work, only, verbose, t0)
    except NoVerdict as e: print('NO-VERDICT property=%s %s' % (pid, e))
    finally:
        if not os.environ.get('SX_KEEP'): shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, spec, tier, work, only, verbose, t0):
    b = build_engine(); protogen.generate(REPO, os.path.join(work, 'gen'))
    parts = [p for p in spec['parts'] if (only is None or p['name'] == only)]
    built, todo = {}, {}
    for p in parts:
        outs, jobs = build_part(work, p); built[p['name']] = outs
        for s, o in jobs: todo[o] = (s, p.get('defs', []))
    errs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for e in ex.map(lambda kv: compile_one(work, kv[1][0], kv[0], kv[1][1]), todo.items()):
            if e: errs.append(e)
    if errs: raise NoVerdict('cannot compile: ' + ' || '.join(errs))
    tb = time.time() - t0
    # runs
    runs = []
    for p in parts:
        cfg = dict(p.get('opt', {})); cfgs = p.get(tier) or p.get('quick') or [{}]
        for k, c in enumerate(cfgs):
            o = dict(cfg); o.update({x: y for x, y in c.items() if x != 'args'}); runs.append((p, c.get('args', []), o, '%s.%d' % (p['name'], k)))
    results = []
    light = [r for r in runs if r[2].get('jobs', 1) <= 1]; heavy = [r for r in runs if r[2].get('jobs', 1) > 1]
    with cf.ThreadPoolExecutor(8) as ex:
        results += list(ex.map(lambda r: (r, run_symx(b, work, r[0], built[r[0]['name']], r[1], r[2], r[3], 1)), light))
    for r in heavy: results.append((r, run_symx(b, work, r[0], built[r[0]['name']], r[1], r[2], r[3], r[2]['jobs'])))
    known = load_known(pid)
    T = dict(paths=0, forks=0, instructions=0, queries=0, query_cache_hits=0, sat=0, unsat=0, unknown=0, solver_s=0.0, max_query_s=0.0, asserts=0, assert_queries=0, mem_checks=0, sched_points=0, merged=0, vars=0)
    funcs, lines, problems, viol, knownhit, samples, validated = set(), {}, [], [], {}, [], 0
    perpart = {}
    for (p, args, o, tag), res in results:
        if res['err']: problems.append('%s: %s' % (tag, res['err']))
        reach = {}; inc_ = []; pp = perpart.setdefault(p['name'], dict(runs=0, paths=0, queries=0, solver_s=0.0, wall_s=0.0, reach={}, bounds=p.get('bounds', '')))
        pp['runs'] += 1; pp['wall_s'] = round(pp['wall_s'] + res['wall'], 2)
        for d in res['parts']:
            for k in T:
                if k in ('max_query_s', 'vars'): T[k] = max(T[k], d.get(k, 0))
                else: T[k] += d.get(k, 0)
            pp['paths'] += d['paths']; pp['queries'] += d['queries']; pp['solver_s'] = round(pp['solver_s'] + d['solver_s'], 3)
            funcs.update(d['functions'])
            for f, ls in d['lines'].items(): lines.setdefault(f, set()).update(ls)
            for k, v in d['reach'].items(): reach[k] = reach.get(k, 0) + v
            inc_ += d['incomplete']
        for k, v in reach.items(): pp['reach'][k] = pp['reach'].get(k, 0) + v
        vs = [v for d in res['parts'] for v in d['violations']]
        inc_ = [x for x in inc_ if not (vs and ('stopped after violations' in x))]
        if inc_ and not vs: problems.append('%s %s: %s' % (tag, args, '; '.join(sorted(set(inc_))[:4])))
        if verbose: print('  %-28s args=%s paths=%d queries=%d solver=%.2fs wall=%.1fs%s' % (tag, args, sum(d['paths'] for d in res['parts']), sum(d['queries'] for d in res['parts']), sum(d['solver_s'] for d in res['parts']), res['wall'], ' INCOMPLETE ' + str(inc_[:3]) if inc_ else ''))
        bcs = built[p['name']]; seen = set()
        for v in vs:
            key = '%s|%s|%s' % (p['name'], v['kind'], v['msg'])
            if key in seen: continue
            kf = match_known(known, p['name'], v)
            if kf is not None: knownhit[kf['what']] = kf; continue
            seen.add(key)
            exe = native_build(b, work, p, bcs, o); f = os.path.join(work, 'cex'); open(f, 'w').write(inputs_text(v['inputs'], args, o.get('preempt')))
            code, out = native_run(exe, f, 30); conf = confirm(v, code, out)
            rp = os.path.join(V, 'replays', '%s-%s-%s.txt' % (pid, p['name'], hashlib.sha256(key.encode()).hexdigest()[:8])); os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, 'w').write('# property %s part %s\n# %s: %s\n# at %s\n# stack: %s\n# native replay: exit %s, confirmed=%s\n# harness %s sources %s args %s\n%s\n--- native output ---\n%s\n' % (pid, p['name'], v['kind'], v['msg'], v['where'], ' < '.join(v.get('stack', []))[:3000], code, conf, p['harness'], p.get('src'), args, inputs_text(v['inputs'], args, o.get('preempt')), out[-6000:]))
            if verbose: print('   cex %s: %s @ %s native=%s confirmed=%s' % (v['kind'], v['msg'], v['where'], code, conf))
            if conf: viol.append((v, rp, p['name']))
            else: problems.append('%s: counterexample not confirmed natively (%s: %s, native exit %s) see %s' % (tag, v['kind'], v['msg'], code, rp))
        # cross-validation of sampled paths
        ss = [s for d in res['parts'] for s in d['samples']]
        if ss and not vs and not p.get('noval'):
            exe = native_build(b, work, p, bcs, o)
            for k, s in enumerate(ss[:o.get('samples', 6)]):
                f = os.path.join(work, 'smp.%s' % tag); open(f, 'w').write(inputs_text(s['inputs'], args, o.get('preempt')))
                code, out = native_run(exe, f, 60)
                if code != 0 or notes_of(out) != s['notes']: 
                    problems.append('%s: native run of a sampled path disagrees (exit %s, notes %s vs %s)' % (tag, code, notes_of(out)[:5], s['notes'][:5]))
                    if verbose: print('   MISMATCH', code, out[-700:], str(s['inputs'])[:600], str(s['notes'])[:200])
                else: validated += 1
            if len(samples) < 5: samples += [{'part': p['name'], 'args': args, 'inputs': s['inputs'][:60], 'notes': s['notes'][:20]} for s in ss[:2]]
    for p in parts:
        for l in p.get('reach', []):
            if not perpart.get(p['name'], {}).get('reach', {}).get(l): 
                if not any(v[2] == p['name'] for v in viol) and not knownhit: problems.append('part %s: label "%s" is unreachable (vacuous)' % (p['name'], l))
    for w in knownhit: print('KNOWN-FINDING: property=%s %s' % (pid, w))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=max(1, T['paths']), transitions=max(1, T['forks'] + T['sched_points']), traces_validated_against_impl=validated, samples=samples or [{'note': 'no sampled path'}],
                            deciding_step='z3 verdict over all values within the bounds (QF_BV); every assertion, memory access, arithmetic trap and branch of the encoded code',
                            functions_encoded=sorted(funcs), functions_encoded_count=len(funcs), source_lines_reached={f: len(l) for f, l in sorted(lines.items())},
                            parts=perpart, interleavings_merged=T['merged'], queries_discharged=T['queries'], query_cache_hits=T['query_cache_hits'], sat=T['sat'], unsat=T['unsat'], unknown=T['unknown'], solver_s=round(T['solver_s'], 3), max_query_s=T['max_query_s'],
                            assertions_checked=T['asserts'], memory_checks=T['mem_checks'], instructions=T['instructions'], build_s=round(tb, 1), bounds=spec.get('bounds', ''), no_verdict=problems, known_findings=sorted(knownhit)),
              wall_s=round(time.time() - t0, 2), assumptions=spec.get('assumptions', []) + specs.COMMON_ASSUMPTIONS, violations=[dict(kind=v['kind'], what=v['msg'], where=v['where'], replay=rp) for v, rp, _ in viol])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if only is None: json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: paths=%d instructions=%d assertions=%d queries=%d solver=%.1fs validated=%d wall=%.1fs' % (pid, tier, T['paths'], T['instructions'], T['asserts'], T['queries'], T['solver_s'], validated, time.time() - t0))
    if viol:
        for v, rp, _ in viol: print('VIOLATION property=%s replay=%s  %s: %s @ %s' % (pid, rp, v['kind'], v['msg'], v['where']))
        return 1
    if problems:
        for x in problems[:10]: print('NO-VERDICT property=%s %s' % (pid, x))
        return 2
    return 0

def confirm(v, code, out):
    if v['kind'] == 'hang': return code == 'timeout'
    if v['kind'] == 'internal': return False
    if code in (77, 78): return True
    if isinstance(code, int) and code < 0: return True      # killed by a signal (abort, SEGV, FPE)
    return v['kind'] in ('memory', 'deadlock', 'arith') and code == 'timeout'

def load_known(pid):
    f = os.path.join(V, 'known-findings.json')
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == pid] if os.path.exists(f) else []

def match_known(known, part, v):
    import re
    for k in known:
        if k.get('part') not in (None, part) or k.get('kind') not in (None, v['kind']): continue
        if k.get('msg') is not None and k['msg'] not in v['msg']: continue
        if k.get('stack') is not None and not any(k['stack'] in s for s in v.get('stack', []) + [v['where']]): continue
        return k
    return None

if __name__ == '__main__': main()
