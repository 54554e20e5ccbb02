#!/usr/bin/env python3-vt
"""check.py <property>: decide one property on /repo's current working tree.

 1. every harness file with `//@property: <id>` is compiled together with the real /repo sources to LLVM IR
    and natively;  2. the verifier generates and discharges every obligation of every proof in it;
 3. an obligation that is not discharged is a violation: the solver's counterexample is replayed natively on the real
    code, failing that a seeded native search looks for a failing input, failing that the violation is reported with
    no-failing-input-found.
"""
import sys, os, re, json, time, glob, subprocess, shutil, tempfile, multiprocessing, atexit, signal
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vc
from concurrent.futures import ThreadPoolExecutor

JOBS = 8


def sh(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.budget = 780 if self.tier == 'quick' else 6 * 3600
        self.wd = tempfile.mkdtemp(prefix='vc_%s_' % prop)
        self.violations = []
        self.known_hit = []
        self.notes = []
        self.natives = {}
        self.native_log = {}
        self.again = []
        self.replays = os.path.join(ROOT, 'evidence', 'replays')
        os.makedirs(self.replays, exist_ok=True)
        for f in glob.glob(os.path.join(self.replays, prop + '-*')):
            os.remove(f)
        try:
            self.known = [k for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
                          if k['property'] == prop and k.get('status') == 'known']
        except FileNotFoundError:
            self.known = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---- native side
    def native(self, src, mode, harness, args, timeout):
        exe = self.natives.get(src)
        if not exe:
            return None
        rc, out = sh([exe, mode, harness] + args, timeout)
        m = re.search(r'NATIVE-FAIL (.*)', out)
        inp = re.search(r'^INPUTS \{(.*)\}$', out, re.M)
        if m or rc in (1, -999) or rc < 0 or 'ERROR: AddressSanitizer' in out or 'runtime error' in out:
            inputs = json.loads('[' + inp.group(1) + ']') if inp else None
            what = m.group(1) if m else ('no termination within %ds' % timeout if rc == -999 else 'exit %s: %s' % (rc, out[-800:]))
            if inputs is None and not m and rc != -999:
                # sanitizer or crash without an input dump
                inputs = []
            return dict(rc=rc, what=what, inputs=inputs, out=out[-4000:])
        return dict(rc=rc, what=None, inputs=None, out=out[-300:])

    def report(self, src, harness, obligation, how, failing, extra):
        """one violation (or known finding) of one harness"""
        for k in self.known:
            if k['harness'] == harness and re.fullmatch(k['obligation'], obligation or ''):
                self.known_hit.append(k)
                return
        n = len(self.violations)
        path = os.path.join(self.replays, '%s-%d.json' % (self.prop, n))
        doc = dict(property=self.prop, harness=harness, harness_file=os.path.relpath(src, ROOT), failed_obligation=obligation, found_by=how, **extra)
        if failing:
            doc['failing_input'] = failing['inputs']
            doc['observed_on_real_code'] = failing['what']
            doc['output'] = failing['out']
            doc['replay_cmd'] = 'cd %s && engine/replay %s' % (ROOT, os.path.relpath(path, ROOT))
        json.dump(doc, open(path, 'w'), indent=1, default=str)
        self.violations.append((path, bool(failing), harness, obligation))

    def decide(self, src, r, again=False):
        """r: result of one proof harness; again: it may be tried once more with larger limits"""
        h = r['harness']
        if r['status'] == 'proved':
            return
        failing = None
        obl = None
        how = None
        for f in r.get('failed', []):
            obl = obl or '%s [%s] at %s' % (f['name'], f['kind'], f['loc'])
            if f.get('inputs') is not None and src in self.natives:
                a = ['%s=%d' % (n, v) for n, v in f['inputs']]
                x = self.native(src, 'replay', h, a, 40)
                if x and x['what']:
                    failing, how, obl = x, 'verifier counterexample, replayed on the real code', '%s [%s] at %s' % (f['name'], f['kind'], f['loc'])
                    break
        if not failing and src in self.natives:
            for k, secs in enumerate((4, 20) if self.tier == 'quick' else (4, 60, 300)):
                if self.left() < secs + 5:
                    break
                x = self.native(src, 'run', h, [str(secs), str(self.seed + 1000 * k)], secs + 60)
                if x and x['what']:
                    failing, how = x, 'obligation not discharged; failing input found by a seeded native search'
                    break
        if not failing and again:
            self.again.append((src, r))
            return
        extra = dict(verifier_status=r['status'], verifier_output=[{k: v for k, v in f.items()} for f in r.get('failed', [])],
                     verifier_message=r.get('why'), trace=r.get('trace'))
        if not obl:
            obl = r.get('why') or r['status']
        self.report(src, h, obl, how or 'obligation not discharged', failing, extra)

    def retry(self, results, ll, proves, ctx):
        vc.SCALE = 4
        left = []
        procs = []
        for f, r in self.again:
            q = ctx.SimpleQueue()
            p = ctx.Process(target=vc.verify_one, args=(ll[r['harness']], r['harness'], proves[r['harness']], self.tier, q))
            p.start()
            procs.append((f, r, p, q))
        new = {}
        for f, r, p, q in procs:
            while p.is_alive() and q.empty() and self.left() > 60:
                time.sleep(0.05)
            time.sleep(0.05)
            if not q.empty():
                new[r['harness']] = q.get()
                p.join()
            else:
                p.kill()
                p.join()
        vc.SCALE = 1
        for f, r in self.again:
            n = new.get(r['harness'])
            if n is not None:
                self.notes.append('%s: %s; tried again with larger limits: %s' % (r['harness'], r['status'], n['status']))
            if n is not None and n['status'] != 'proved':
                left.append((f, n))
            elif n is None:
                left.append((f, r))
        self.again = left
        return [(f, new.get(r['harness'], r)) for f, r in results]

    def run(self):
        files = []
        for f in sorted(glob.glob(ROOT + '/harness/*.cpp')):
            m = vc.read_meta(f)
            if self.prop in ' '.join(m.get('property', [])).split():
                files.append((f, m))
        if not files:
            print('no harness for', self.prop)
            return 2
        # build
        jobs = []
        with ThreadPoolExecutor(JOBS) as ex:
            for f, m in files:
                b = os.path.basename(f)[:-4]
                jobs.append((f, m, os.path.join(self.wd, b + '.ll'), os.path.join(self.wd, b + '.exe'),
                             ex.submit(vc.build_ir, f, os.path.join(self.wd, b + '.ll'), m),
                             ex.submit(vc.build_native, f, os.path.join(self.wd, b + '.exe'), m)))
        tasks = []
        meta = {}
        results = []
        from ir import Module
        nfail = 0
        for f, m, ll, exe, ji, jn in jobs:
            meta[f] = m
            en = jn.result()
            if en is None:
                self.natives[f] = exe
            else:
                self.notes.append('native build of %s failed: %s' % (os.path.basename(f), en[-600:]))
            ei = ji.result()
            if ei:
                results.append((f, dict(harness='(all of %s)' % os.path.basename(f), status='error',
                                        why='the contracts no longer compile against the real code', trace=ei)))
                continue
            mod = Module(open(ll).read())
            dem = vc.demangle_all(list(mod.funcs))
            ids, contracts, proofs = vc.discover(mod, dem)
            for h, pr in proofs:
                tasks.append((f, ll, h, pr))
        # verify (slow ones first if timing is known) + native cross-check
        order = {}
        try:
            order = json.load(open(HERE + '/timing.json'))
        except Exception:
            pass
        tasks.sort(key=lambda t: -order.get(t[2], 5))
        ctx = multiprocessing.get_context('fork')
        running = []
        pend = list(tasks)
        nat_secs = 1.0 if self.tier == 'quick' else 30.0
        nat_pend = [(f, h) for f, ll, h, pr in tasks if f in self.natives]
        natpool = ThreadPoolExecutor(2 if self.tier == 'quick' else 4)
        natf = [(f, h, natpool.submit(self.native, f, 'run', h, [str(nat_secs), str(self.seed)], nat_secs + 60)) for f, h in nat_pend]
        dec = ThreadPoolExecutor(2)
        decf = []
        per = 600 if self.tier == 'quick' else 3600
        while pend or running:
            while pend and len(running) < JOBS:
                f, ll, h, pr = pend.pop(0)
                q = ctx.SimpleQueue()
                p = ctx.Process(target=vc.verify_one, args=(ll, h, pr, self.tier, q))
                p.start()
                running.append((f, h, p, q, time.time()))
            time.sleep(0.02)
            for x in list(running):
                f, h, p, q, t = x
                res = None
                if not q.empty():
                    res = q.get()
                    p.join()
                elif not p.is_alive():
                    time.sleep(0.1)
                    res = q.get() if not q.empty() else dict(harness=h, status='error', why='verifier process died (%s)' % p.exitcode)
                elif time.time() - t > per or self.left() < 120:
                    p.kill()
                    p.join()
                    res = dict(harness=h, status='error', why='verifier time limit reached')
                if res is not None:
                    running.remove(x)
                    results.append((f, res))
                    if res['status'] != 'proved' and nfail < 6:
                        nfail += 1
                        decf.append(dec.submit(self.decide, f, res, True))
                    elif res['status'] != 'proved':
                        nfail += 1
        for d in decf:
            d.result()
        decf = []
        # without a failing input, and only a few: the limits may have been too small
        if self.again and nfail <= 6:
            results = self.retry(results, {h: ll for f, ll, h, pr in tasks}, {h: pr for f, ll, h, pr in tasks}, ctx)
        for f, r in self.again:
            self.decide(f, r)
        for f, r in results:
            if r['harness'].startswith('(all'):
                if f in self.natives:
                    pass
                self.decide(f, r)
        for d in decf:
            d.result()
        bad = {h for _, _, h, _ in self.violations}
        natok = 0
        for f, h, fu in natf:
            x = fu.result()
            self.native_log[h] = (x or {}).get('out', '').strip()[-200:]
            if x and x['what']:
                if h not in bad and not any(k['harness'] == h for k in self.known):
                    self.report(f, h, 'native cross-check of the contract: ' + x['what'], 'seeded native cross-check', x, {})
                else:
                    # attach the failing input to an alarm that has none
                    for i, (path, has, hh, ob) in enumerate(self.violations):
                        if hh == h and not has:
                            doc = json.load(open(path))
                            doc['failing_input'], doc['observed_on_real_code'] = x['inputs'], x['what']
                            doc['replay_cmd'] = 'cd %s && engine/replay %s' % (ROOT, os.path.relpath(path, ROOT))
                            json.dump(doc, open(path, 'w'), indent=1)
                            self.violations[i] = (path, True, hh, ob)
            else:
                natok += 1
        for f, r in results:
            if r['status'] != 'proved' and r['harness'] not in {h for _, _, h, _ in self.violations} and not any(k['harness'] == r['harness'] for k in self.known):
                self.report(f, r['harness'], (r.get('failed') or [{}])[0].get('name') or r.get('why'), 'obligation not discharged', None,
                            dict(verifier_status=r['status'], verifier_output=r.get('failed'), verifier_message=r.get('why')))
        self.evidence(files, meta, results, natok)
        for k in {json.dumps(k, sort_keys=True): k for k in self.known_hit}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        npr = sum(1 for _, r in results if r['status'] == 'proved')
        print('%s: %d/%d proofs, %d/%d obligations discharged, %.1fs' % (self.prop, npr, len(results), sum(r.get('discharged', 0) for _, r in results), sum(r.get('n', 0) for _, r in results), time.time() - self.t0))
        for path, has, h, ob in sorted(self.violations, key=lambda v: not v[1]):
            print('  failed obligation: %s: %s' % (h, ob))
        for path, has, h, ob in sorted(self.violations, key=lambda v: not v[1])[:4]:
            print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if has else ' no-failing-input-found'))
        return 1 if self.violations else 0

    def evidence(self, files, meta, results, natok):
        fns, used, names, loops, bounded, backends, kinds = set(), set(), [], [], [], {}, {}
        proved = []
        for f, r in results:
            fns |= {x for x in r.get('functions', [])}
            used |= set(r.get('contracts_used', []))
            proved += [p for p in r.get('proves', []) if r['status'] == 'proved']
            names += ['%s: %s' % (r['harness'], n) for n in r.get('names', [])]
            loops += ['%s: %s' % (r['harness'], l) for l in r.get('loops', [])]
            bounded += ['%s: %s' % (r['harness'], b) for b in r.get('bounded', [])]
            for k, v in r.get('backends', {}).items():
                backends[k] = backends.get(k, 0) + v
            for k, v in r.get('kinds', {}).items():
                kinds[k] = kinds.get(k, 0) + v
        real = sorted(x for x in fns if not x.startswith(('H_', 'vc_', 'std::', '__')) )
        ass, tr = [], []
        for f, m in meta.items():
            ass += m.get('assume', [])
            tr += m.get('trusted', [])
        tr = sorted(set(tr)) + ['clang 18 front end (C++ to LLVM IR, sroa and early-cse passes)', 'engine/*.py (IR semantics, VC generation)',
                                'z3 / cvc5 for the discharged queries', 'the C++ harness specifications themselves']
        n = sum(r.get('n', 0) for _, r in results)
        d = sum(r.get('discharged', 0) for _, r in results)
        cov = dict(obligations=n, discharged=d, checker_cmd='engine/check %s (VERIF_TIER=%s)' % (self.prop, self.tier), trusted_base=tr,
                   proofs={r['harness']: dict(status=r['status'], obligations=r.get('n'), discharged=r.get('discharged'), paths=r.get('paths'),
                                              solver_s=r.get('solver_s'), wall_s=r.get('wall_s'), covers=r.get('covers'), why=r.get('why')) for _, r in results},
                   functions_under_proof=real, contracts_proved=sorted(set(proved)), contracts_used_at_calls=sorted(used),
                   named_obligations=sorted(names), obligation_kinds=kinds, back_ends=backends,
                   solver_time_s=round(sum(r.get('solver_s') or 0 for _, r in results), 2), loop_invariants=sorted(set(loops)),
                   bounded_not_proved=sorted(set(bounded)), native_cross_checks_clean=natok, native_log=self.native_log, notes=self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='proof', coverage=cov,
                  assumptions=sorted(set(ass)) or ['see trusted_base'], wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        json.dump(ev, open(ROOT + '/evidence/%s.json' % self.prop, 'w'), indent=1, default=str)


def main():
    c = Check(sys.argv[1])
    try:
        rc = c.run()
    finally:
        shutil.rmtree(c.wd, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
