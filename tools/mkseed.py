"""mkseed.py FILE.py...: each file defines SEEDS = [dict(id, property, needs,
breaks, edits=[(file, old, new)], demo=python text)]; writes
seeded/<id>/{patch.diff, demo.sh, demo.py, meta.json}."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds on what this demonstrates; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 MPLBACKEND=Agg HF_HUB_OFFLINE=1
PYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''
for f in sys.argv[1:]:
    for s in runpy.run_path(f)['SEEDS']:
        d = f'{V}/seeded/{s["id"]}'
        os.makedirs(d, exist_ok=True)
        w = '/tmp/mkseed'
        shutil.rmtree('/tmp/mkseed', ignore_errors=True)
        os.makedirs(w)
        files = sorted({e[0] for e in s['edits']})
        for p in files:
            for ab in 'ab':
                os.makedirs(os.path.dirname(f'{w}/{ab}/{p}'), exist_ok=True)
                shutil.copy(f'/repo/{p}', f'{w}/{ab}/{p}')
        for p, old, new in s['edits']:
            t = open(f'{w}/b/{p}').read()
            assert t.count(old) == 1, (s['id'], p, t.count(old), old)
            open(f'{w}/b/{p}', 'w').write(t.replace(old, new))
        out = ''
        for p in files:
            out += f'diff --git a/{p} b/{p}\n' + subprocess.run(
                ['diff', '-u', f'a/{p}', f'b/{p}'], cwd=w,
                capture_output=True, text=True).stdout
        import re
        out = re.sub(r'^(---|\+\+\+) (\S+)\t.*$', r'\1 \2', out, flags=re.M)
        open(f'{d}/patch.diff', 'w').write(out)
        open(f'{d}/demo.sh', 'w').write(SH)
        open(f'{d}/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['property'], needs=s['needs'],
                       what_it_breaks=s['breaks']),
                  open(f'{d}/meta.json', 'w'), indent=1)
        print(s['id'])
shutil.rmtree('/tmp/mkseed', ignore_errors=True)
