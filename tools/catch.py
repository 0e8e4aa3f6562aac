#!/usr/bin/env python3
"""catch.py [-a] [ID...]: runs the quick checks against the planted bugs.

For each bug under seeded/ a scratch clone of /repo gets the patch, and the
check of the bug's property runs against it (PSIGNIFY_REPO); -a runs every
check.  A development aid: no check uses it."""
import json, os, shutil, subprocess, sys, tempfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir(here + '/seeded'))
for b in ids:
    d = f'{here}/seeded/{b}'
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='catch.', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=w + '/r')
        out = []
        for p in ['C%02d' % i for i in range(1, 26)] if every else [prop]:
            t = time.time()
            r = subprocess.run([here + '/check.sh', p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, PSIGNIFY_REPO=w + '/r', VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + p)]
            if r.returncode == 1 and v:
                msg = [l for l in r.stdout.splitlines() if ': ' in l and not l.startswith(('VIOLATION', 'KNOWN', p))][:1]
                out.append('%s CAUGHT %.0fs %s' % (p, time.time() - t, msg[0][:150] if msg else ''))
            elif r.returncode != 0:
                out.append('%s rc=%d %s' % (p, r.returncode, r.stdout[-300:]))
            elif not every:
                out.append('%s MISSED %.0fs' % (p, time.time() - t))
        print('%-28s %s' % (b, '\n    '.join(out) or 'MISSED by all'), flush=True)
    finally:
        shutil.rmtree(w)
