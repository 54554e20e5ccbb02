#!/usr/bin/env python3-vt
"""driver: verify every proof harness of a property against /repo's current tree"""
import sys, os, re, json, time, subprocess, multiprocessing, traceback, hashlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
DEFS = ['-DDLAF_ASSERT_ENABLE', '-DDLAF_ASSERT_MODERATE_ENABLE', '-DDLAF_ASSERT_HEAVY_ENABLE',
        '-DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__']
MPI_INC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def read_meta(path):
    """//@key: value lines of a harness file"""
    meta = {}
    for l in open(path):
        m = re.match(r'//@(\w+):\s*(.*)', l)
        if m:
            meta.setdefault(m.group(1), []).append(m.group(2).strip())
    return meta

def flags(meta):
    inc = ['-I' + HERE, '-I' + ROOT + '/harness']
    if 'stubs' in meta:
        inc += ['-I' + ROOT + '/stubs', '-include', ROOT + '/stubs/vc_shim.h']
    inc += ['-I' + REPO + '/include', '-I' + REPO + '/src'] + MPI_INC
    for f in meta.get('cflags', []):
        inc += f.split()
    return ['-std=c++17'] + DEFS + inc

def build_ir(src, out, meta):
    cmd = ['clang++-18'] + flags(meta) + ['-O1', '-gline-tables-only', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
           '-fno-math-errno', '-fno-threadsafe-statics', '-DVC_SYMBOLIC', '-w', '-S', '-emit-llvm', '-o', out + '.0.ll', src]
    r = run(cmd)
    if r.returncode:
        return 'clang: ' + r.stdout[-3000:]
    r = run(['opt-18', '-S', '-passes=function(sroa,early-cse)', out + '.0.ll', '-o', out])
    if r.returncode:
        return 'opt: ' + r.stdout[-2000:]
    return None

def build_native(src, out, meta):
    cmd = ['clang++-18'] + flags(meta) + ['-O1', '-g1', '-DVC_NATIVE', '-w', '-o', out, src, HERE + '/vc_native.cpp']
    for f in meta.get('ldflags', []):
        cmd += f.split()
    san = meta.get('sanitize', ['address,undefined'])[0]
    if san != 'none':
        cmd += ['-fsanitize=' + san, '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all']
    r = run(cmd)
    return None if r.returncode == 0 else r.stdout[-3000:]

def demangle_all(names):
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(n[1:].strip('"') for n in names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split('\n')))

def gstr(mod, ref):
    from ir import tokenize
    g = mod.global_info(ref)
    raw = g['init'][1][2:-1] if g['init'][0] == 'cstr' else ''
    s = re.sub(r'\\([0-9A-F]{2})', lambda m: chr(int(m.group(1), 16)), raw)
    return s.rstrip('\0')

def discover(mod, dem):
    """contract bindings and proof harnesses"""
    contracts, proofs = {}, []
    ids = {}
    for g in list(mod.globals):
        nm = g.strip('@"')
        if nm.startswith('vc_cn_'):
            info = mod.global_info(g)
            s = gstr(mod, info['init'][1])
            cid, target = s.split('\n', 1)
            fn = mod.global_info('@vc_cf_' + nm[6:])['init'][1]
            tgt = []
            # '*' at the end: any suffix; '%': any text
            prefix = target.endswith('*')
            pat = re.compile('.*'.join(map(re.escape, (target[:-1] if prefix else target).split('%'))) + ('' if prefix else r'\Z'), re.S)
            for f in mod.funcs:
                if pat.match(dem.get(f, '')):
                    # constructors: complete object (C1) and base object (C2) variants both
                    tgt.append(f)
            ids[cid] = dict(target=target, real=tgt, fn=mod.resolve_fn(fn))
            for t in tgt:
                contracts[t] = mod.resolve_fn(fn)
        elif nm.startswith('vc_pn_'):
            info = mod.global_info(g)
            s = gstr(mod, info['init'][1])
            h, _, pr = s.partition('\n')
            proofs.append((h, pr.split()))
    return ids, contracts, sorted(proofs)

def verify_one(irpath, hname, proves, tier, q):
    try:
        q.put(_verify_one(irpath, hname, proves, tier))
    except Exception as e:
        q.put(dict(harness=hname, status='error', why='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-1500:]))

SCALE = 1  # limits of the solvers when a proof is tried again

def _verify_one(irpath, hname, proves, tier):
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = {}
    def body():
        try:
            res.update(__verify(irpath, hname, proves, tier))
        except Exception as e:
            res.update(dict(harness=hname, status='error', why='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-3000:]))
    th = threading.Thread(target=body)
    th.start()
    th.join()
    return res

def __verify(irpath, hname, proves, tier):
    import z3
    from ir import Module
    from execu import Exec
    from sym import State, Unsupported
    from solve import Discharger
    t0 = time.time()
    mod = Module(open(irpath).read())
    dem = demangle_all(list(mod.funcs))
    ids, contracts, proofs = discover(mod, dem)
    eng = Exec(mod)
    eng.demangle = dem
    eng.contracts = contracts
    eng.targets = set()
    eng.inline_only = set()
    for p in proves:
        if p.startswith('inline:'):
            eng.inline_only |= set(ids[p[7:]]['real'])
            continue
        if p not in ids:
            raise Unsupported('unknown contract ' + p)
        if not ids[p]['real']:
            raise Unsupported('contract %s: no function matching %s' % (p, ids[p]['target']))
        eng.targets |= set(ids[p]['real'])
    eng.mode = ['proof']
    eng.scale = SCALE
    eng.t_end = time.time() + (int(os.environ.get("VC_TEND", 300)) if tier == 'quick' else 1500) * min(SCALE, 2)
    st = State()
    for ln in open(irpath):
        if ln.startswith('@llvm.global_ctors'):
            # dynamic initialisation of the translation unit's globals runs before the harness
            for fn in re.findall(r'ptr (@"?[\w.$]+"?), ptr null', ln):
                outs = eng.exec_fn(st, mod.resolve_fn(fn), [])
                if len(outs) != 1:
                    raise Unsupported('dynamic initialisation with several outcomes')
                st = outs[0][0]
            break
    if os.environ.get('VC_PROFILE'):
        import cProfile, pstats
        pr = cProfile.Profile()
        try:
            pr.runcall(eng.exec_fn, st, '@H_' + hname, [])
        finally:
            pstats.Stats(pr).sort_stats(os.environ['VC_PROFILE']).print_stats(40)
    else:
        eng.exec_fn(st, '@H_' + hname, [])
    t1 = time.time()
    d = Discharger(eng, tier)
    out = dict(harness=hname, proves=proves, status='proved', obligations=[], explore_s=round(t1 - t0, 2))
    n = dis = 0
    seen = {}
    backends = {}
    failed = []
    nf = 0
    slow = []
    t_lim = time.time() + (400 if tier == 'quick' else 2500) * min(SCALE, 2)
    for ob in eng.obls:
        key = (ob.goal.get_id(), frozenset(p.get_id() for p in ob.pc))
        n += 1
        if key in seen:
            r = seen[key]
        elif nf >= 4 or time.time() > t_lim:
            r = ('skipped', None, None)
        else:
            ts = time.time()
            r = d.discharge(ob)
            slow.append((round(time.time() - ts, 2), ob.name, ob.loc, r[1]))
            seen[key] = r
        if r[0] == 'proved':
            dis += 1
            backends[r[1].split('(')[0]] = backends.get(r[1].split('(')[0], 0) + 1
        else:
            if r[0] != 'skipped':
                nf += 1
            ent = dict(name=ob.name, loc=ob.loc, kind=ob.kind, result=r[0], backend=r[1])
            if r[2] is not None:
                m = r[2].model()
                inp = []
                for nm, v in eng.inputs:
                    x = m.eval(v, model_completion=True)
                    if z3.is_int_value(x):
                        inp.append([nm, x.as_long()])
                    elif z3.is_true(x) or z3.is_false(x):
                        inp.append([nm, int(z3.is_true(x))])
                ent['inputs'] = inp
            ent['goal'] = str(z3.simplify(ob.goal))[:600]
            failed.append(ent)
    # vacuity
    cov = {}
    for nm, pcs in eng.covers.items():
        ok = False
        for pc in pcs[:40]:
            s = z3.Solver()
            s.set('timeout', 5000)
            for f in pc:
                s.add(f)
            for f in eng.close_defs(pc):
                s.add(f)
            r = s.check()
            if r != z3.sat:
                # look for a small witness
                s2 = z3.Solver()
                s2.set('timeout', 5000)
                for f in list(pc) + eng.close_defs(pc):
                    s2.add(f)
                for nm2, v in eng.inputs:
                    if z3.is_int(v):
                        s2.add(v >= -16, v <= 16)
                if s2.check() == z3.sat:
                    r = z3.sat
            if r == z3.sat:
                ok = True
                break
        cov[nm] = ok
    kinds = {}
    for ob in eng.obls:
        kinds[ob.kind] = kinds.get(ob.kind, 0) + 1
    names = sorted(set('%s [%s] @%s' % (ob.name, ob.kind, ob.loc) for ob in eng.obls if ob.kind in ('post', 'assert', 'pre', 'inv')))
    fl = [dem.get(x, x) for x in eng.fn_real]
    out.update(slow=sorted(slow, key=lambda x: -x[0])[:8], n=n, discharged=dis, failed=failed, backends=backends, covers=cov, kinds=kinds, paths=eng.stat['paths'],
               throws=eng.stat['throws'], names=names, functions=sorted(fl),
               contracts_used=sorted(set(k for k, v in ids.items() if set(v['real']) & eng.contract_used)),
               bounded=eng.bounded_notes, loops=eng.loop_log, solver_s=round(d.time + eng.stat['feas_t'], 2), feas_s=round(eng.stat['feas_t'], 2), nfeas=eng.stat['feas'], wall_s=round(time.time() - t0, 2))
    if failed:
        out['status'] = 'failed' if any(f['result'] == 'failed' for f in failed) else 'unknown'
    elif n == 0:
        out['status'] = 'error'
        out['why'] = 'no obligations generated (vacuous)'
    elif not cov or not all(cov.values()):
        out['status'] = 'error'
        out['why'] = 'cover not reachable: %s' % [k for k, v in cov.items() if not v] if cov else 'no cover point reached'
    return out

def run_file(src, tier, only=None, jobs=8, workdir=None):
    meta = read_meta(src)
    base = os.path.basename(src)[:-4]
    ll = os.path.join(workdir, base + '.ll')
    err = build_ir(src, ll, meta)
    if err:
        return dict(file=src, error='IR build failed: ' + err, results=[])
    from ir import Module
    mod = Module(open(ll).read())
    dem = demangle_all(list(mod.funcs))
    ids, contracts, proofs = discover(mod, dem)
    if only:
        proofs = [p for p in proofs if re.search(only, p[0])]
    ctx = multiprocessing.get_context('fork')
    pend = list(proofs)
    running = []
    results = []
    limit = 500 if tier == 'quick' else 3000
    while pend or running:
        while pend and len(running) < jobs:
            h, pr = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=verify_one, args=(ll, h, pr, tier, q))
            p.start()
            running.append((h, p, q, time.time()))
        time.sleep(0.02)
        for r in list(running):
            h, p, q, t = r
            if not q.empty():
                results.append(q.get())
                p.join()
                running.remove(r)
            elif not p.is_alive():
                time.sleep(0.05)
                results.append(q.get() if not q.empty() else dict(harness=h, status='error', why='worker died (%s)' % p.exitcode))
                running.remove(r)
            elif time.time() - t > limit:
                p.kill()
                p.join()
                results.append(dict(harness=h, status='error', why='time limit'))
                running.remove(r)
    return dict(file=src, results=sorted(results, key=lambda r: r['harness']), proofs=proofs, ids={k: v['real'] for k, v in ids.items()},
                names={k: v['target'] for k, v in ids.items()}, meta=meta, ll=ll)

if __name__ == '__main__':
    import tempfile
    wd = tempfile.mkdtemp(prefix='vc_')
    src = os.path.abspath(sys.argv[1])
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t = time.time()
    r = run_file(src, os.environ.get('VERIF_TIER', 'quick'), only, 8, wd)
    if r.get('error'):
        print(r['error'])
    for x in r['results']:
        print('%-34s %-8s n=%s ok=%s paths=%s wall=%s solver=%s feas=%s %s %s' % (x['harness'], x['status'], x.get('n'), x.get('discharged'), x.get('paths'), x.get('wall_s'), x.get('solver_s'), x.get('feas_s'), x.get('backends'), x.get('why', '')))
        if x['status'] != 'proved' or '-v' in sys.argv:
            for f in [f for f in x.get('failed', []) if f['result'] != 'skipped'][:8]:
                print('    ', f['result'], f['name'], '@', f['loc'], f.get('inputs'), f.get('goal', '')[:300])
            if x.get('trace'):
                print(x['trace'] if '-v' in sys.argv else x['trace'][-300:])
        if '-s' in sys.argv:
            for y in x.get('slow', []):
                print('    ', *y)
        if '-v' in sys.argv:
            for k in ('names', 'covers', 'loops', 'bounded', 'functions', 'contracts_used'):
                print('   ', k, x.get(k))
    print('total %.1fs' % (time.time() - t))
    if '-k' not in sys.argv:
        shutil.rmtree(wd)
    else:
        print(wd)
