#!/usr/bin/env python3
"""Contract verification driver.

  check.py PROPERTY [--tier quick|thorough] [--keep] [--only ENTRY]

For each contract harness of the property, from /repo's current sources:
  clang (real sources + harness, model standard library) -> LLVM IR -> opt ->
  ll2c.py -> C -> CBMC, which must discharge every obligation.
A failed obligation is replayed on the natively compiled real code.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, argparse, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import spec

CLANG = 'clang++-18'
UBS = 'signed-integer-overflow,shift,bounds,integer-divide-by-zero,float-cast-overflow,return,unreachable'
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def run(cmd, timeout=None, mem=None, cwd=None, env=None):
    pre = []
    if mem:
        pre = ['prlimit', '--as=%d' % mem]
    try:
        p = subprocess.run(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf-8', 'replace'), (e.stderr or b'').decode('utf-8', 'replace')


class Unit:
    """One (harness file, sources, defines) configuration."""

    def __init__(self, name, work):
        self.name = name
        self.u = spec.UNITS[name]
        self.work = os.path.join(work, name)
        os.makedirs(self.work, exist_ok=True)
        self.err = None
        self.nerr = None
        self.bc = None
        self.native = None

    def model_flags(self):
        f = ['-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-threadsafe-statics', '-fno-access-control',
             '-D_GLIBCXX_ASSERTIONS', '-DVF_MODEL', '-gline-tables-only', '-fsanitize=' + UBS, '-fsanitize-trap=all', '-Wno-everything',
             '-I' + os.path.join(HERE, 'vstl'), '-I' + REPO, '-I' + os.path.join(HERE, 'harness')]
        return f + self.u.get('defs', []) + self.u.get('mdefs', [])

    def jobs_model(self):
        srcs = [os.path.join(REPO, s) for s in self.u['src']] + [os.path.join(HERE, 'harness', self.u['harness']), os.path.join(HERE, 'harness', 'vf_model.cc')]
        srcs += [os.path.join(HERE, 'harness', s) for s in self.u.get('model_src', [])]
        self.mobj = []
        out = []
        for s in srcs:
            o = os.path.join(self.work, 'm_' + os.path.basename(s) + '.bc')
            self.mobj.append(o)
            out.append((self, 'model', [CLANG] + self.model_flags() + ['-c', '-emit-llvm', s, '-o', o]))
        return out

    def jobs_native(self):
        srcs = [os.path.join(REPO, s) for s in self.u['src'] + self.u.get('nsrc', [])]
        hs = [os.path.join(HERE, 'harness', self.u['harness']), os.path.join(HERE, 'native', 'vf_native.cc')]
        fl = ['-std=c++14', '-O0', '-g1', '-fno-access-control', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,' + UBS, '-fsanitize-trap=undefined',
              '-Wno-everything', '-I' + REPO, '-I' + os.path.join(HERE, 'harness'), '-I' + os.path.join(HERE, 'native')] + self.u.get('defs', []) + self.u.get('ndefs', [])
        self.nobj = []
        out = []
        for s in srcs + hs:
            o = os.path.join(self.work, 'n_' + os.path.basename(s) + '.o')
            self.nobj.append(o)
            inc = []
            if s in hs:
                # only vf.h / vf_json.h, never the model containers
                inc = ['-I' + os.path.join(HERE, 'native')]
            out.append((self, 'native', [CLANG] + fl + inc + ['-c', s, '-o', o]))
        return out

    def link(self):
        if not self.err:
            self.bc = os.path.join(self.work, 'all.bc')
            rc, o, e = run(['llvm-link-18'] + self.mobj + ['-o', self.bc])
            if rc != 0:
                self.err = 'llvm-link: ' + e[-2000:]
                return
            rc, o, e = run(['llvm-nm-18', '--defined-only', '-j', self.bc])
            self.syms = o.split()
            rc, o, e = run(['c++filt'] + self.syms) if len(self.syms) < 500 else (0, subprocess.run(['c++filt'], input='\n'.join(self.syms), capture_output=True, text=True).stdout, '')
            self.dem = dict(zip(self.syms, o.split('\n')))

    def nlink(self):
        if not self.nerr:
            exe = os.path.join(self.work, 'native')
            rc, o, e = run([CLANG, '-fsanitize=address,' + UBS, '-fsanitize-trap=undefined', '-rdynamic'] + self.nobj + self.u.get('nlibs', []) + ['-ldl', '-o', exe])
            if rc != 0:
                self.nerr = 'native link: ' + e[-2000:]
            else:
                self.native = exe


class Entry:
    def __init__(self, prop, unit, name, opts):
        self.prop, self.unit, self.name, self.o = prop, unit, name, opts
        self.status = None        # proved | failed | incomplete
        self.why = ''
        self.fails = []
        self.props = []
        self.nobl = self.ndis = 0
        self.functions = []
        self.report = {}
        self.solver = 0.0
        self.native_runs = 0
        self.native_fail = None

    def prepare(self):
        u = self.unit
        w = os.path.join(u.work, self.name)
        os.makedirs(w, exist_ok=True)
        self.w = w
        reps = self.o.get('replace', {})
        stubs = sorted(set(reps.values()))
        api = ','.join([self.name] + stubs)
        # replaced callees must not be inlined into their callers
        noin = []
        self.missing = []
        self.hit_stubs = set()
        for k in list(reps) + self.o.get('noinline', []):
            hit = [s for s, d in u.dem.items() if d == k or s == k]
            if not hit:
                self.missing.append(k)
            self.hit_stubs |= {reps[k]} if hit and k in reps else set()
            for s in hit:
                noin += ['-force-attribute=%s:noinline' % s, '-force-remove-attribute=%s:alwaysinline' % s]
        ll = os.path.join(w, 'o.ll')
        simp = 'function(sroa,early-cse,simplifycfg)'
        inl = 'inline,' if self.o.get('inline', 40) else ''
        rc, o, e = run(['opt-18', '-S', '-passes=forceattrs,internalize,globaldce,' + simp + ',always-inline,' + simp + ',cgscc(inline),' + simp + ',globaldce',
                        '-internalize-public-api-list=' + api, '-inline-threshold=%d' % self.o.get('inline', 40)] + noin + [u.bc, '-o', ll], timeout=300)
        if rc != 0:
            self.status, self.why = 'incomplete', 'opt: ' + e[-1500:]
            return False
        self.c = os.path.join(w, 'o.c')
        rj = os.path.join(w, 'r.json')
        cmd = [sys.executable, os.path.join(HERE, 'tools', 'll2c.py'), ll, '-o', self.c, '--root', self.name, '--report', rj]
        for k, v in reps.items():
            cmd += ['--replace', '%s => %s' % (k, v)]
        rc, o, e = run(cmd, timeout=300)
        if rc != 0:
            self.status, self.why = 'incomplete', 'll2c: ' + e[-1500:]
            return False
        self.report = json.load(open(rj))
        return True

    def cbmc_cmd(self):
        c = ['cbmc', self.c, '--function', 'main_' + self.name, '--no-standard-checks', '--unwinding-assertions', '--json-ui', '--slice-formula']
        if self.o.get('ptr'):
            c += ['--pointer-check', '--bounds-check']
        c += ['--unwind', str(self.o.get('unwind', 34))]
        src = open(self.c).read()
        for k, v in dict(spec.UNWINDSET, **self.o.get('unwindset', {})).items():
            if k.rsplit('.', 1)[0] + '(' in src:
                c += ['--unwindset', '%s:%d' % (k, v)]
        sat = self.o.get('sat', spec.DEFAULT_SAT)
        if sat:
            c += ['--sat-solver', sat]
        c += self.o.get('cbmc', [])
        return c

    def verify(self, tmo):
        if not self.prepare():
            return
        t = time.time()
        self.cmd = self.cbmc_cmd()
        rc, o, e = run(self.cmd, timeout=self.o.get('timeout', tmo), mem=self.o.get('mem', 12) << 30)
        self.solver = time.time() - t
        open(os.path.join(self.w, 'cbmc.json'), 'w').write(o)
        if rc == 'timeout':
            self.status, self.why = 'incomplete', 'CBMC timeout after %.0fs' % self.solver
            return
        res = None
        try:
            for item in json.loads(o):
                if 'result' in item:
                    res = item['result']
        except ValueError:
            pass
        if res is None:
            self.status, self.why = 'incomplete', 'CBMC gave no result (rc=%s): %s %s' % (rc, o[-600:], e[-400:])
            return
        ends, covers, limits = [], {}, []
        for r in res:
            d, st = r['description'], r['status']
            if d.startswith('VF_END'):
                ends.append(st)
            elif d.startswith('VF_COVER'):
                covers[d] = covers.get(d, False) or st == 'FAILURE'
            elif d.startswith('MODEL:') or 'unwinding assertion' in d or 'recursion unwinding' in d:
                # exactness side conditions: the bound / model capacity is never exceeded
                self.nobl += 1
                if st == 'SUCCESS':
                    self.ndis += 1
                else:
                    limits.append('%s [%s]' % (d, r['property']))
            else:
                self.nobl += 1
                if st == 'SUCCESS':
                    self.ndis += 1
                elif st == 'FAILURE':
                    self.fails.append((r['property'], d))
                else:
                    limits.append('%s: %s' % (st, d))
            self.props.append((r['property'], d, st))
        self.covers = covers
        bad = [d for d, hit in covers.items() if not hit]
        if not ends or any(s != 'FAILURE' for s in ends):
            bad.append('end of harness')
        # a callee that is to be replaced by its contract no longer exists: the harness does not fit the code
        gone = sorted({v for k, v in self.o.get('replace', {}).items() if 'redsea::' in k} - self.hit_stubs)
        limits += ['callee under contract not found for %s' % g for g in gone]
        self.limits = limits
        if self.fails:
            self.status = 'failed'
        elif limits:
            self.status, self.why = 'incomplete', 'limits: ' + '; '.join(sorted(set(limits))[:6])
        elif bad:
            self.status, self.why = 'incomplete', 'vacuous: ' + '; '.join(bad[:6])
        else:
            self.status = 'proved'

    def counterexample(self, prop):
        cmd = [x for x in self.cmd] + ['--trace', '--property', prop]
        rc, o, e = run(cmd, timeout=300, mem=16 << 30)
        try:
            js = json.loads(o)
        except ValueError:
            return None, o[-3000:]
        for item in js:
            for r in item.get('result', []):
                if r['property'] == prop and 'trace' in r:
                    ins = []
                    for s in r['trace']:
                        if s.get('stepType') == 'input':
                            v = s['values'][0]
                            b = v.get('binary')
                            val = int(b, 2) if b else int(re.sub(r'[a-zA-Z]+$', '', v['data']))
                            ins.append((s['inputID'].replace(' ', '_'), val))
                    return ins, ''
        return None, o[-3000:]

    def replay(self, ins, path):
        open(path, 'w').write(''.join('%s %d\n' % x for x in ins))
        return self.replay_file(path)

    def replay_file(self, path):
        if not self.unit.native:
            return None, 'native build unavailable: %s' % self.unit.nerr
        rc, o, e = run([self.unit.native, self.name, 'replay', path], timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99', TZ='UTC'))
        txt = o + e[-3000:]
        if rc in (0, 4):
            return False, txt
        if rc == 3 or rc == 'timeout':
            return (None if rc == 3 else True), txt + (' (no termination within 60 s)' if rc == 'timeout' else '')
        return True, txt

    def random_native(self, secs, seed, out, maxruns=None):
        if not self.unit.native or self.o.get('norandom'):
            return
        cmd = [self.unit.native, self.name, 'random', str(secs), str(seed), out]
        if maxruns:
            cmd.append(str(maxruns))
        rc, o, e = run(cmd, timeout=secs + 120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99', TZ='UTC'))
        m = re.search(r'RUNS (\d+) REJECTED (\d+)', o)
        if m:
            self.native_runs += int(m.group(1)) - int(m.group(2))
        if rc == 1:
            m = re.findall(r'^FAIL (.*)$', o, re.M)
            self.native_fail = (m or ['?'], e[-2000:])


def known_findings(prop):
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) obligation="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop:
                r.append(m.groups()[1:])
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = spec.PROPS[a.prop]
    work = tempfile.mkdtemp(prefix='vf_%s_' % a.prop)
    ok = False
    try:
        ok = check(a, P, seed, work)
    finally:
        if a.keep:
            log('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(0 if ok else 1)


def check(a, P, seed, work):
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    units = {}
    entries = []
    for (un, en, opts) in P['entries']:
        if a.only and en != a.only:
            continue
        if opts.get('tier') == 'thorough' and tier != 'thorough':
            continue
        if un not in units:
            units[un] = Unit(un, work)
        entries.append(Entry(a.prop, units[un], en, opts))
    ncpu = os.cpu_count() or 4
    pool = ThreadPoolExecutor(max_workers=ncpu)

    def compile_job(j):
        u, kind, cmd = j
        rc, o, e = run(cmd, timeout=400)
        if rc != 0:
            msg = '%s compile failed: %s' % (kind, e[-2500:])
            if kind == 'model': u.err = u.err or msg
            else: u.nerr = u.nerr or msg
    mj = [pool.submit(compile_job, j) for u in units.values() for j in u.jobs_model()]
    nj = [] if a.no_native else [pool.submit(compile_job, j) for u in units.values() for j in u.jobs_native()]
    for f in mj: f.result()
    for u in units.values(): u.link()
    log('model compiled', {u.name: (u.err or 'ok')[:300] for u in units.values()})
    tmo = 240 if tier == 'quick' else 3000

    def vjob(en):
        try:
            if en.unit.err:
                en.status, en.why = 'incomplete', en.unit.err
            else:
                en.verify(tmo)
        except Exception as ex:   # tool failure, never an alarm
            en.status, en.why = 'incomplete', 'tool: %r' % ex
        log('%-28s %-10s obligations=%d discharged=%d solver=%.1fs %s' % (en.name, en.status, en.nobl, en.ndis, en.solver, en.why[:400]))
    vj = [pool.submit(vjob, en) for en in sorted(entries, key=lambda e: -e.o.get('w', 1))]
    for f in nj: f.result()
    if not a.no_native:
        for u in units.values():
            u.nlink()
        log('native built', {u.name: (u.nerr or 'ok')[-600:] for u in units.values()})
    for f in vj: f.result()

    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    # randomised run of the same harnesses on the real code: model sanity check
    # and search for failing inputs (never the deciding step when the proof is complete)
    secs = P.get('rand', 2 if tier == 'quick' else 30)

    def rjob(en):
        out = os.path.join(en.unit.work, en.name + '.rand')
        en.rout = out
        s = secs if en.status == 'proved' else max(secs, 15 if tier == 'quick' else 120)
        try:
            en.random_native(s, seed, out)
        except Exception as ex:
            log('native random run of %s: %r' % (en.name, ex))
    if not a.no_native:
        for f in [pool.submit(rjob, en) for en in entries]: f.result()

    known = known_findings(a.prop)
    violations = []
    for en in entries:
        rp = os.path.join(rdir, '%s-%s.txt' % (a.prop, en.name))
        if os.path.exists(rp): os.remove(rp)
        isknown = lambda d: any(k[0] == en.name and k[1] == d for k in known)
        new = [(p, d) for (p, d) in en.fails if not isknown(d)]
        for (p, d) in en.fails:
            if isknown(d):
                print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, en.name, d), flush=True)
        hdr = 'property: %s\nharness: %s (%s)\n' % (a.prop, en.name, en.unit.u['harness'])
        if new:
            done = False
            last = None
            # one representative per distinct obligation name
            seen = set(); cand = []
            for (p, d) in new:
                if d not in seen:
                    seen.add(d); cand.append((p, d))
            for (p, d) in cand[:4]:
                ins, raw = en.counterexample(p)
                if ins is None:
                    last = (p, d, [], 'no trace: ' + raw); continue
                conf, txt = en.replay(ins, os.path.join(en.w, 'cex.txt'))
                last = (p, d, ins, txt)
                if conf:
                    violations.append((en, d, rp, True))
                    open(rp, 'w').write(hdr + 'failed obligation: %s [%s]\nconfirmed on the real code: yes\n' % (d, p) + 'native output:\n%s\ninputs:\n' % txt + ''.join('%s %d\n' % x for x in ins))
                    done = True
                    break
            if not done and en.native_fail and not isknown(en.native_fail[0][0]):
                open(rp, 'w').write(hdr + 'failed obligation: %s\nconfirmed on the real code by random search: %s\n%s\ninputs:\n' % (cand[0][1], en.native_fail[0], en.native_fail[1]) + open(en.rout).read())
                violations.append((en, cand[0][1], rp, True))
                done = True
            if not done:
                lim = [l for l in en.limits]
                if lim:
                    en.status, en.why = 'incomplete', 'unconfirmed failure alongside limits: %s / %s' % (cand[0][1], '; '.join(lim[:4]))
                    log(en.name, en.why)
                else:
                    p, d, ins, txt = last
                    open(rp, 'w').write(hdr + 'failed obligation: %s [%s]\nall failed obligations: %s\nconfirmed on the real code: no\nreplay output: %s\ninputs:\n' % (d, p, [x[1] for x in cand], txt) + ''.join('%s %d\n' % x for x in ins))
                    violations.append((en, d, rp, False))
        elif en.native_fail and not all(isknown(x) for x in en.native_fail[0][:1]):
            # the real code broke an obligation on a concrete input
            conf, txt = en.replay_file(en.rout)
            if conf:
                open(rp, 'w').write(hdr + 'failed obligation on the real code: %s\n%s\ninputs:\n' % (en.native_fail[0], txt) + open(en.rout).read())
                violations.append((en, en.native_fail[0][0], rp, True))
    nob = sum(e.nobl for e in entries)
    ndis = sum(e.ndis for e in entries)
    inc = [e for e in entries if e.status == 'incomplete']
    for e in inc:
        log('INCOMPLETE %s: %s' % (e.name, e.why[:1500]))
    write_evidence(a, P, tier, seed, entries, units, violations, inc, nob, ndis)
    for (en, d, rp, conf) in violations:
        print('failed obligation: %s in %s' % (d, en.name))
    for (en, d, rp, conf) in sorted(violations, key=lambda v: not v[3])[:1]:
        print('VIOLATION property=%s replay=%s%s' % (a.prop, rp, '' if conf else ' no-failing-input-found'), flush=True)
    log('done: %d entries, %d/%d obligations discharged, %d incomplete, %d violations' % (len(entries), ndis, nob, len(inc), len(violations)))
    return not violations


def write_evidence(a, P, tier, seed, entries, units, violations, inc, nob, ndis):
    fns = set()
    ext = set()
    repl = {}
    for e in entries:
        for f in e.report.get('functions', []):
            n = f if isinstance(f, str) else f.get('name', str(f))
            if 'redsea' in n or n.startswith('_ZN6redsea') or n.startswith('_ZNK6redsea') or n.startswith('_ZN7iconvpp'):
                fns.add(n)
        ext |= set(e.report.get('undefined_externals', []))
        repl.update({k: v for k, v in e.report.get('replaced_calls', {}).items()})
    dem = {}
    if fns or repl:
        l = sorted(fns | set(k.lstrip('@') for k in repl))
        o = subprocess.run(['c++filt'], input='\n'.join(x.lstrip('@') for x in l), capture_output=True, text=True).stdout.split('\n')
        dem = dict(zip(l, o))
    level = P.get('level', 'proof')
    bnd = [e for e in entries if e.o.get('bounded')]
    nob -= sum(e.nobl for e in bnd); ndis -= sum(e.ndis for e in bnd)
    if bnd and level == 'proof': level = 'other'
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='cbmc --unwinding-assertions --slice-formula (translated from /repo by clang-18 + opt-18 + tools/ll2c.py)',
               trusted_base=spec.TRUSTED + P.get('trusted', []),
               functions_under_contract=sorted(dem.get(f, f) for f in fns),
               harnesses=[dict(name=e.name, status=e.status, obligations=e.nobl, discharged=e.ndis, solver_s=round(e.solver, 2), back_end='CBMC 6.11 / ' + str(e.o.get('sat', spec.DEFAULT_SAT) or 'minisat2'), note=e.why[:500], native_random_runs=e.native_runs,
                               covers=sorted(getattr(e, 'covers', {})), bounded=e.o.get('bounded')) for e in entries],
               calls_replaced_by_contract={dem.get(k.lstrip('@'), k): v for k, v in repl.items()},
               externals_without_body=sorted(ext))
    if inc:
        cov['not_proved_this_run'] = [dict(harness=e.name, why=e.why[:500], stand_in='bounded: %d random executions of the harness on the real code' % e.native_runs) for e in inc]
    ev = dict(property=a.prop, tier=tier, seed=seed, level=level if not inc else 'other', coverage=cov, assumptions=P.get('assumptions', []), wall_s=round(time.time() - T0, 2), violations=len(violations))
    if bnd:
        cov['bounded_obligations'] = sum(e.nobl for e in bnd); cov['bounded_discharged'] = sum(e.ndis for e in bnd)
        cov['explanation'] = 'part of the statement is decided by harnesses that hold for a stated bound only (not counted as proved): ' + '; '.join('%s: %s' % (e.name, e.o['bounded']) for e in bnd)
    if inc:
        cov['explanation'] = 'proof incomplete on this tree; the listed harnesses were only exercised by bounded random execution'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
