#!/usr/bin/env python3
"""Runs one property check: vf.py <property> [--tier quick|thorough]

1. builds the symbolic executor (engine/) if it is missing or stale,
2. compiles /repo's current tree (and the harness functions for the property) to LLVM IR,
3. lets the executor decide every harness entry (all inputs symbolic within the stated bounds),
4. replays counterexamples natively against the real code before reporting them, and replays a sample of the
   completed symbolic paths natively as well (cross-validation of the encoding),
5. writes evidence/<property>.json.

exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (build failure, undecided query, ...).
"""
import json, os, subprocess, sys, time, fcntl, hashlib, shutil, concurrent.futures, re, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(HERE, '.build'))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'): ENV.pop(k, None)
IRFLAGS = ('--emit=llvm-ir,link,metadata -C opt-level=2 -C no-vectorize-loops -C no-vectorize-slp -C panic=abort '
           '-C overflow-checks=on -C debug-assertions=on -C codegen-units=1 -A warnings')

class NoVerdict(Exception): pass

def sh(cmd, env=None, cwd=None, timeout=600):
    r = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')

class Lock:
    def __init__(self, name): os.makedirs(BUILD, exist_ok=True); self.p = os.path.join(BUILD, name + '.lock')
    def __enter__(self): self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def engine():
    with Lock('engine'):
        rc, out = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--target-dir', os.path.join(BUILD, 'engine')], cwd=os.path.join(HERE, 'engine'))
        if rc: raise NoVerdict('engine does not build:\n' + out[-3000:])
    return os.path.join(BUILD, 'engine/release/vsym')

def harness_dir():
    """The harness crate has a path dependency on /repo; with VF_REPO set (development only) use a rewritten copy."""
    src = os.path.join(HERE, 'harness')
    if REPO == '/repo': return src
    d = os.path.join(BUILD, 'harness_src')
    os.makedirs(d, exist_ok=True)
    sh(['rsync', '-a', '--delete', '--exclude', 'target', src + '/', d + '/']) if shutil.which('rsync') else sh(['cp', '-rT', src, d])
    for f in ('Cargo.toml',):
        t = open(os.path.join(d, f)).read().replace('/repo/', REPO + '/')
        open(os.path.join(d, f), 'w').write(t)
    return d

def newest(pattern):
    c = sorted(glob.glob(pattern), key=os.path.getmtime)
    if not c: raise NoVerdict('no file ' + pattern)
    return c[-1]

def emit_harness(feature, extra=''):
    d = os.path.join(BUILD, 'ir_' + feature)
    with Lock('ir_' + feature):
        for f in glob.glob(os.path.join(d, 'release/deps/*.ll')): os.remove(f)
        shutil.rmtree(os.path.join(d, 'release/.fingerprint'), ignore_errors=True)
        env = dict(ENV, RUSTFLAGS=(IRFLAGS + ' ' + extra).strip())
        rc, out = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--lib', '--features', feature, '--target-dir', d], env=env, cwd=harness_dir())
        if rc: raise NoVerdict('harness for %s does not compile against the current tree:\n%s' % (feature, out[-4000:]))
        fs = [newest(os.path.join(d, 'release/deps/vharness-*.ll'))]
        fs.append(newest(os.path.join(d, 'release/deps/crylib-*.ll')))
        return fs

def emit_repo(extra=''):
    d = os.path.join(BUILD, 'ir_repo')
    with Lock('ir_repo'):
        for f in glob.glob(os.path.join(d, 'release/deps/*.ll')): os.remove(f)
        shutil.rmtree(os.path.join(d, 'release/.fingerprint'), ignore_errors=True)
        env = dict(ENV, RUSTFLAGS=(IRFLAGS + ' ' + extra).strip())
        rc, out = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--locked', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--target-dir', d], env=env)
        if rc: raise NoVerdict('/repo does not compile to IR:\n' + out[-4000:])
        return [newest(os.path.join(d, 'release/deps', n)) for n in ('turtls.ll', 'crylib-*.ll', 'getrandom-*.ll', 'libc-*.ll', 'cfg_if-*.ll')]

class Native:
    """native replay binaries: 'checked' = debug assertions and overflow checks on, 'plain' = as a release user builds"""
    def __init__(self, feature): self.feature, self.bins = feature, {}
    def get(self, kind):
        if kind in self.bins: return self.bins[kind]
        d = os.path.join(BUILD, 'native_%s_%s' % (self.feature, kind))
        flags = '-A warnings -C opt-level=2 ' + ('-C overflow-checks=on -C debug-assertions=on' if kind == 'checked' else '-C overflow-checks=off -C debug-assertions=off')
        with Lock('native_%s_%s' % (self.feature, kind)):
            shutil.rmtree(os.path.join(d, 'release/.fingerprint'), ignore_errors=True)
            env = dict(ENV, RUSTFLAGS=flags)
            if self.feature.startswith('t'):
                rc, out = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--locked', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--target-dir', d + '_lib'], env=env)
                if rc: raise NoVerdict('native build failed:\n' + out[-3000:])
                env['RUSTFLAGS'] = flags + ' -C link-args=-rdynamic -L native=%s_lib/release -C link-args=-Wl,-rpath,%s_lib/release' % (d, d)
            rc, out = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--bin', 'replay', '--features', 'replay,' + self.feature, '--target-dir', d], env=env, cwd=harness_dir())
            if rc: raise NoVerdict('native replay build failed:\n' + out[-3000:])
        self.bins[kind] = os.path.join(d, 'release/replay')
        return self.bins[kind]
    def run(self, kind, path):
        env = dict(ENV)
        if self.feature.startswith('t'): env['VF_TURTLS_LIB'] = os.path.join(BUILD, 'native_%s_%s_lib/release/libturtls.so' % (self.feature, kind))
        try: return sh([self.get(kind), path], env=env, timeout=120)
        except subprocess.TimeoutExpired: return 124, 'timeout (120 s): the code does not terminate'

def write_case(path, entry, inputs, note=''):
    with open(path, 'w') as f:
        f.write('entry %s\n' % entry)
        for n, h in inputs: f.write('in %s %s\n' % (n, h))
        for l in note.splitlines(): f.write('# %s\n' % l)

def known_findings(pid):
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', l.strip())
            if m and m.group(1) == pid: res.append((re.compile(m.group(2)), m.group(3)))
    return res

def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    while args:
        a = args.pop(0)
        if a == '--tier': tier = args.pop(0)
        elif a == '--only': only = args.pop(0)
        elif a == '-v': verbose = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = checks.CHECKS[pid]
    t0 = time.time()
    out_dir = os.path.join(BUILD, 'out', pid)
    shutil.rmtree(out_dir, ignore_errors=True)
    os.makedirs(out_dir)
    ev_path = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path): os.remove(ev_path)
    try:
        rc = run(pid, tier, seed, spec, t0, out_dir, ev_path, only, verbose)
    except NoVerdict as e:
        print('NO VERDICT for %s: %s' % (pid, e)); rc = 2
    sys.exit(rc)

def run(pid, tier, seed, spec, t0, out_dir, ev_path, only, verbose):
    feature = spec['feature']
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fe = ex.submit(engine)
        fh = ex.submit(emit_harness, feature, spec.get('irflags', ''))
        fr = ex.submit(emit_repo, spec.get('irflags', '')) if spec.get('repo') else None
        files = fh.result() + (fr.result() if fr else [])
        vsym = fe.result()
    t_build = time.time() - t0
    jobs = []
    budget = spec.get('budget_' + tier, 780 if tier == 'quick' else 3 * 3600)
    for e in spec['entries']:
        if only and only not in e['name']: continue
        if e.get('tier') == 'thorough' and tier == 'quick': continue
        if e.get('tier') == 'quick' and tier == 'thorough': continue
        sp = e.get('split')
        n = sp[1] if sp else 1
        for i in range(n):
            tag = '%s.%d' % (e['name'], i) if sp else e['name']
            o = os.path.join(out_dir, tag + '.json')
            cmd = [vsym, '--entry', e['name'], '--out', o, '--time', str(int(budget)), '--witness', '2', '--max-violations', '4', '--keep-going'] + e.get('opts', [])
            if sp: cmd += ['--split', '%s:%d/%d' % (sp[0], i, n)]
            jobs.append((e.get('weight', 1), tag, e, o, cmd + files))
    jobs.sort(key=lambda j: -j[0])
    mem_kb = 24 * 1024 * 1024
    def go(j):
        w, tag, e, o, cmd = j
        left = budget - (time.time() - t0)
        if left < 5: return j, None, 'not started: time budget'
        cmd[cmd.index('--time') + 1] = str(int(left))
        t = time.time()
        try: rc, txt = sh(cmd, timeout=left + 30)
        except subprocess.TimeoutExpired: rc, txt = 2, 'timeout'
        if verbose: print('  %-40s rc=%s %.1fs' % (tag, rc, time.time() - t), flush=True)
        d = None
        if os.path.exists(o):
            try: d = json.load(open(o))
            except Exception as x: txt += ' bad json %s' % x
        return j, d, (txt if d is None else '')
    results = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('VF_JOBS', '8'))) as ex:
        for r in ex.map(go, jobs): results.append(r)
    problems, viols, wits = [], [], []
    agg = dict(paths=0, forks=0, merges=0, insts=0, sym_insts=0, checks=0, checks_syntactic=0, checks_solver=0, checks_sweep=0)
    sol = dict(queries=0, sat=0, unsat=0, unknown=0, cached=0, escalated=0, time_s=0.0, max_s=0.0)
    ended, reach, ids, funcs, per = {}, {}, {}, set(), {}
    for (w, tag, e, o, cmd), d, txt in results:
        if d is None: problems.append('%s: %s' % (tag, txt.strip()[-600:])); continue
        for x in d['errors']: problems.append('%s: %s' % (tag, x))
        for v in d['violations']: viols.append((e['name'], v))
        for x in d['witnesses']: wits.append((e['name'], x))
        for k in agg: agg[k] += d[k]
        for k in sol: sol[k] = max(sol[k], d['solver'][k]) if k == 'max_s' else sol[k] + d['solver'][k]
        for src, dst in ((d['ended'], ended), (d['reach'], reach), (d['check_ids'], ids)):
            for k, v in src.items(): dst[k] = dst.get(k, 0) + v
        funcs.update(d['functions'])
        per[tag] = dict(wall_s=d['wall_s'], paths=d['paths'], checks=d['checks'], queries=d['solver']['queries'])
    if not problems and not viols:
        need = set()
        for e in spec['entries']:
            if any(j[2] is e for j in jobs):
                if e.get('must_reach', True): need.add(e['name'])
                need.update(e.get('reach', []))
        for n in sorted(need):
            if not reach.get(n): problems.append('vacuous: point %s was not reached on any path' % n)
    # counterexamples: native replay
    native = Native(feature)
    reported, known_hit, replayed = [], [], 0
    known = known_findings(pid)
    rep_dir = os.path.join(HERE, 'evidence', 'replay')
    seen = {}
    for k, (entry, v) in enumerate(viols):
        if len(reported) >= 4 or seen.get((entry, v['id'], v['detail'].split(': ')[0]), 0) >= 1: continue
        seen[(entry, v['id'], v['detail'].split(': ')[0])] = 1
        desc = '%s: %s [%s]' % (v['id'], v['detail'], v['stack'][0] if v['stack'] else '')
        kf = [x for x in known if x[0].search(desc)]
        if kf:
            known_hit.append(kf[0][1]); continue
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, '%s_%d.txt' % (pid, k))
        write_case(path, entry, v['inputs'], desc + '\nstack: ' + ' < '.join(v['stack']))
        outs = []
        hit = False
        for kind in ('checked', 'plain'):
            rc, txt = native.run(kind, path)
            outs.append('%s build: exit %d %s' % (kind, rc, txt.strip()[-400:]))
            replayed += 1
            if rc not in (0, 11, 3): hit = True; break
        with open(path, 'a') as f: f.write(''.join('# replay in the %s\n' % o.replace('\n', ' ') for o in outs))
        if hit: reported.append((desc, path, outs))
        else: problems.append('counterexample for %s does not reproduce natively (%s): encoding problem; %s' % (desc, path, '; '.join(outs)))
    # witnesses: the same inputs must pass natively
    nw = 0
    if not viols:
        for k, (entry, ins) in enumerate(wits[:spec.get('max_witness', 40)]):
            path = os.path.join(out_dir, 'wit_%d.txt' % k)
            write_case(path, entry, ins)
            rc, txt = native.run('checked', path)
            if rc == 0: nw += 1
            else: problems.append('witness of a passing path of %s fails natively (exit %d): %s' % (entry, rc, txt.strip()[-400:]))
    mine = sorted(f for f in (pretty(x) for x in funcs) if ('crylib' in f or 'turtls' in f))
    bounds = spec['bounds'] if isinstance(spec['bounds'], str) else spec['bounds'][tier]
    samples = [dict(entry=e, inputs={n: (h if len(h) <= 160 else h[:160] + '...') for n, h in ins}) for e, ins in wits[:3]]
    if not samples: samples = [dict(entry=e, violation=v['id'], detail=v['detail']) for e, v in viols[:3]]
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), wall_s=round(time.time() - t0, 2), violations=len(reported),
        assumptions=spec.get('assumptions', []) + checks.COMMON_ASSUMPTIONS,
        coverage=dict(
            states=agg['paths'] + agg['merges'] + agg['forks'], transitions=agg['insts'], traces_validated_against_impl=nw + replayed, samples=samples,
            explanation='symbolic execution of the LLVM IR of the current tree with SMT; states = symbolic states explored (ended paths + forks + joins), transitions = IR instructions executed symbolically or concretely on them',
            bounds=bounds, outside=spec.get('outside', ''), paths=agg['paths'], path_ends=ended, joins=agg['merges'], symbolic_instructions=agg['sym_insts'],
            assertions=agg['checks'], assertions_closed_by_rewriting=agg['checks_syntactic'], assertions_closed_by_query=agg['checks_solver'], assertions_closed_by_sat_sweeping=agg['checks_sweep'],
            assertion_ids=ids, reached=reach, queries=sol['queries'], queries_sat=sol['sat'], queries_unsat=sol['unsat'], queries_cached=sol['cached'], queries_unknown=sol['unknown'],
            solver_time_s=round(sol['time_s'], 2), solver_max_query_s=round(sol['max_s'], 3), build_s=round(t_build, 2), functions_encoded=mine[:400], functions_encoded_total=len(funcs), entries=per))
    with open(ev_path, 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    for d in sorted(set(known_hit)): print('KNOWN-FINDING: property=%s %s' % (pid, d))
    for d, path, outs in reported[:4]:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  ' + d)
        for o in outs: print('  ' + o)
    for p in problems[:12]: print('PROBLEM ' + p)
    print('%s: %d paths, %d assertions, %d queries, solver %.1f s, wall %.1f s' % (pid, agg['paths'], agg['checks'], sol['queries'], sol['time_s'], time.time() - t0))
    if reported: return 1
    if problems: return 2
    return 0

def pretty(n):
    return n

if __name__ == '__main__': main()
