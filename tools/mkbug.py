#!/usr/bin/env python3
"""mkbug.py DEFS.py: (re)create planted bugs.  Each definition: dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=<c++ text>, mpi=n, ldflags)
Verifies: builds, tests pass, demo passes without / fails with the patch.  Uses /repo (applied and undone)."""
import sys, os, subprocess, json, shutil
ROOT = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input
set -u
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_plm_rsh_agent=/bin/false OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none
mpicxx -std=c++17 -O1 -w %s -DDLAF_ASSERT_ENABLE -DDLAF_ASSERT_MODERATE_ENABLE -DDLAF_ASSERT_HEAVY_ENABLE -DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__ \\
  -Iinclude -Isrc "$D/demo.cpp" %s -o "$W/demo" || exit 3
cd "$W" && timeout 120 %s ./demo
'''
def run(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        d = '%s/%s' % (ROOT, b['id'])
        os.makedirs(d, exist_ok=True)
        assert run('git -C /repo status --porcelain').stdout == ''
        if 'files' in b:
            for n, t in b['files'].items():
                open('%s/%s' % (d, n), 'w').write(t)
        if b.get('stubs'):
            shutil.copytree('/verif/stubs', d + '/stubs', dirs_exist_ok=True)
            b['cflags'] = '-I"$D/stubs" -include "$D/stubs/vc_shim.h" ' + b.get('cflags', '')
        open(d + '/demo.cpp', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(DEMO % (b.get('cflags', ''), b.get('link', ''), ('mpirun -n %d' % b['mpi']) if b.get('mpi') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r0 = run('bash %s/demo.sh' % d, cwd='/repo')
        try:
            for f, o, n in b['edits']:
                s = open('/repo/' + f).read()
                assert s.count(o) == 1, (b['id'], f, s.count(o))
                open('/repo/' + f, 'w').write(s.replace(o, n))
            open(d + '/patch.diff', 'w').write(run('git -C /repo diff').stdout)
            t = run('bash /opt/vp/test.sh /tmp/mkbug.json')
            res = json.load(open('/tmp/mkbug.json'))
            r1 = run('bash %s/demo.sh' % d, cwd='/repo')
        finally:
            run('git -C /repo checkout -- .')
        lost = sorted(base - set(res['passed']))
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and not lost and res['passed']
        print('%s %s demo clean=%d patched=%d lost=%d' % ('OK ' if ok else 'BAD', b['id'], r0.returncode, r1.returncode, len(lost)), lost[:3], flush=True)
        if r0.returncode: print(r0.stdout[-1500:])
        if r1.returncode in (0, 3): print(r1.stdout[-1500:])
        if not ok and not os.environ.get('KEEP'):
            shutil.rmtree(d)
    run('bash /opt/vp/build.sh')
main()
