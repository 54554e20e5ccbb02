#!/usr/bin/env python3-vt
"""replay <evidence/replays/X.json>: rebuild the harness against /repo and replay the recorded failing input natively"""
import sys, os, json, tempfile, subprocess, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vc
d = json.load(open(sys.argv[1]))
src = os.path.join(vc.ROOT, d['harness_file'])
wd = tempfile.mkdtemp(prefix='vcreplay_')
try:
    e = vc.build_native(src, wd + '/x', vc.read_meta(src))
    if e:
        print(e)
        sys.exit(2)
    r = subprocess.run([wd + '/x', 'replay', d['harness']] + ['%s=%d' % (n, v) for n, v in d.get('failing_input') or []])
    sys.exit(1 if r.returncode not in (0, 4) else 0)
finally:
    shutil.rmtree(wd, ignore_errors=True)
