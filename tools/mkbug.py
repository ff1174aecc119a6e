"""factory: writes seeded/<id>/ from a list of bugs, validating each in a scratch copy"""
import os, sys, json, shutil, subprocess, textwrap
PRE = '''import os, sys, tempfile
sys.path.insert(0, os.getcwd())
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
import numpy as np
from types import SimpleNamespace as NS
from meshless.espim.read_mesh import read_mesh, read_delaunay
from meshless.espim.plate2d_calc_k0 import calc_k0
from meshless.espim.plate2d_calc_kG import calc_kG
from meshless.espim.plate2d_add_k0s import add_k0s
TMP = tempfile.mkdtemp()
HOME = os.getcwd()


def prop(s=1.0, h=0.1, k13=5/6., k23=5/6., E44=3.0, E55=2.0):
    A = s*np.array([[10., 3., 1.], [3., 8., .5], [1., .5, 4.]])
    return NS(A=A, B=s*np.array([[1., .2, .3], [.2, .7, .1], [.3, .1, .4]]), D=2*A, E=s*np.array([[E44, 0.], [0., E55]]),
              h=h, scf_k13=k13, scf_k23=k23)


def delaunay(pts, tris):
    return read_delaunay(np.array(pts, dtype=float), NS(simplices=np.array(tris)))


def deck(nodes, trias, extra=''):
    p = os.path.join(TMP, 'deck.bdf')
    with open(p, 'w') as f:
        f.write('CEND\\nBEGIN BULK\\n')
        for nid, xyz in nodes:
            f.write('GRID,%d,,%r,%r,%r\\n' % ((nid,) + tuple(map(float, xyz))))
        for eid, t in trias:
            f.write('CTRIA3,%d,1,%d,%d,%d\\n' % ((eid,) + tuple(t)))
        f.write(extra + 'PSHELL,1,1,1.0\\nMAT1,1,1.0,,0.3\\nENDDATA\\n')
    return p


def done(ok, why=''):
    import shutil
    os.chdir(HOME)
    shutil.rmtree(TMP, ignore_errors=True)
    if not ok:
        print('property broken:', why)
    sys.exit(0 if ok else 1)

'''
def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def stable():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
def make(bid, prop, file, edits, needs, breaks, demo):
    W = '/tmp/wbug'
    shutil.rmtree(W, ignore_errors=True); shutil.copytree('/repo', W, symlinks=True)
    for f, old, new in [(file,)+e if len(e) == 2 else e for e in edits]:
        p = os.path.join(W, 'meshless', f); s = open(p).read()
        if s.count(old) < 1: print(bid, 'EDIT NOT FOUND', old); return
        s = s.replace(old, new, 1); open(p, 'w').write(s)
    d = '/verif/seeded/' + bid; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff', 'w').write(sh('git diff', W).stdout)
    open(d+'/demo.py', 'w').write(PRE + textwrap.dedent(demo).strip() + '\n')
    open(d+'/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds, nonzero: it is broken\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d+'/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, '/repo'); b = sh('bash %s/demo.sh' % d, W)
    t = sh('MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 2>&1 | tail -4; git status --short', W)
    okt = ' passed' in t.stdout and ('1 failed' in t.stdout and 'test_plate_from_zero' in t.stdout or 'failed' not in t.stdout)
    print(bid, prop, 'OK' if a.returncode == 0 and b.returncode != 0 and okt else 'INVALID', a.returncode, b.returncode, '' if okt else t.stdout[-300:])
    if a.returncode: print(a.stdout[-500:])
    if b.returncode not in (0, 1) or 'Traceback' in b.stdout: print('   demo:', b.stdout.strip().splitlines()[-1:])
    shutil.rmtree(W, ignore_errors=True)
