"""Mutation campaign: how many small changes of the code do the conformance checks notice?
usage: mutate.py COUNT SEED [FILE…]     works on copies of /repo under /tmp/mut; prints survivors."""
import ast, glob, json, multiprocessing, os, random, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'harness'))
from plan import PLAN
ROOT = '/tmp/mut'
E = 'meshless/espim/'
PROPS = {E + 'plate2d_calc_k0.py': ['C06', 'C04', 'C05', 'C10', 'C13', 'C12'], E + 'plate2d_calc_kG.py': ['C20'],
         E + 'plate2d_add_k0s.py': ['C18', 'C14', 'C13'], E + 'plate2d_add_k0s_cell_based.py': ['C14'],
         E + 'plate2d_add_k0s_cell_based_no_smoothing.py': ['C15'], E + 'plate2d_add_k0s_edge_based.py': ['C16'],
         E + 'read_mesh.py': ['C01', 'C02', 'C03', 'C06', 'C30'], E + 'classes.py': ['C02', 'C04', 'C29', 'C03'],
         'meshless/utils.py': ['C29', 'C04'], 'meshless/logger.py': ['C30'], 'meshless/interpolate.py': ['C22', 'C23'],
         'meshless/dev/sympytools.py': ['C24', 'C25', 'C26', 'C27', 'C28']}
CH = {'C24': 60, 'C25': 150, 'C26': 150, 'C27': 150, 'C28': 80, 'C22': 100, 'C23': 100, 'C29': 60, 'C01': 60, 'C02': 50, 'C03': 50}


def generate(prop):
    out = []
    for st in PLAN[prop]:
        if st['kind'] != 'conf':
            continue
        d = os.path.join(ROOT, 'sc', prop + st['gen'])
        out.append((st, d))
        if os.path.isdir(d):
            continue
        os.makedirs(d)
        env = dict(os.environ, PROP=prop, SEED='5', FIRST='1', CHAINS=str(CH.get(prop, 40)), OUT=d, TIER='quick')
        env.update((k, str(v[0] if isinstance(v, tuple) else v)) for k, v in st.get('env', {}).items())
        subprocess.run([VERIF + '/tlc.sh', st['gen'] + '.tla', st.get('gencfg', st['gen'] + '.cfg'), '-workers', '8'], env=env, stdout=subprocess.DEVNULL, check=True)
    return out


def swap(name, rnd):
    cs = []
    for a, b in (('1', '2'), ('2', '1'), ('2', '3'), ('3', '1'), ('x', 'y'), ('y', 'x'), ('A', 'D'), ('B', 'A'), ('13', '23'), ('23', '13'), ('mid1', 'mid2'), ('i', 'j'), ('j', 'i')):
        for m in re.finditer(re.escape(a), name):
            cs.append(name[:m.start()] + b + name[m.end():])
    return rnd.choice(cs) if cs else None


def sites(src):
    tree = ast.parse(src)
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l.encode()))
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    names = set(n.id for n in ast.walk(tree) if isinstance(n, ast.Name))
    attrs = set(n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute))
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp):
            a, b = pos(n.left)[1], pos(n.right)[0]
            out.append((a, b, 'op'))
        elif isinstance(n, ast.Compare):
            out.append((pos(n.left)[1], pos(n.comparators[0])[0], 'cmp'))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            out.append(pos(n) + ('const',))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.append(pos(n) + ('name',))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            a, b = pos(n)
            out.append((b - len(n.attr), b, 'attr'))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Continue)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            out.append(pos(n) + ('del',))
        elif isinstance(n, ast.UnaryOp):
            a, b = pos(n)
            out.append((a, pos(n.operand)[0], 'un'))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out.append(pos(n.test) + ('neg',))
    return out, names, attrs


def mutate(src, site, names, attrs, rnd):
    a, b, k = site
    raw = src.encode()
    t = raw[a:b].decode()
    if k == 'op':
        m = re.search(r'\*\*|//|[-+*/%]', t)
        if not m:
            return None
        new = {'+': '-', '-': '+', '*': '/', '/': '*', '**': '*', '//': '/', '%': '+'}[m.group()]
        t = t[:m.start()] + new + t[m.end():]
    elif k == 'cmp':
        m = re.search(r'==|!=|<=|>=|<|>|is not|not in|is|in', t)
        if not m:
            return None
        new = {'==': '!=', '!=': '==', '<': '<=', '>': '>=', '<=': '<', '>=': '>', 'is': 'is not', 'is not': 'is', 'in': 'not in', 'not in': 'in'}[m.group()]
        t = t[:m.start()] + new + t[m.end():]
    elif k == 'const':
        v = ast.literal_eval(t)
        t = repr(not v) if isinstance(v, bool) else repr(v + rnd.choice((1, -1))) if isinstance(v, int) else repr(v * 1.25)
        t = '(%s)' % t if t.startswith('-') else t
    elif k in ('name', 'attr'):
        pool = names if k == 'name' else attrs
        new = swap(t, rnd)
        if new is None or new not in pool:
            return None
        t = new
    elif k == 'del':
        t = 'pass'
    elif k == 'un':
        t = '+' if '-' in t else ''
    elif k == 'neg':
        t = 'not (%s)' % t
    new = raw[:a] + t.encode() + raw[b:]
    try:
        ast.parse(new)
    except SyntaxError:
        return None
    return None if new == raw else new.decode()


def judge(job):
    k, f, new, line, what = job
    w = os.path.join(ROOT, 'w%d' % os.getpid())
    if not os.path.isdir(w):
        subprocess.run(['cp', '-a', '/repo', w], check=True)
    path = os.path.join(w, f)
    old = open(os.path.join('/repo', f)).read()
    open(path, 'w').write(new)
    verdict = 'SURVIVED'
    try:
        for prop in PROPS[f]:
            for st, d in generate(prop):
                tr = os.path.join(w, 'trace.ndjson')
                e = dict(os.environ, REPO=w, OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
                p = subprocess.run(['/opt/venv/bin/python', VERIF + '/harness/' + st['drive'], d, tr, prop], cwd=w, env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                if p.returncode:
                    return k, f, line, what, 'DRIVER ' + p.stdout[-200:]
                p = subprocess.run([VERIF + '/tlc.sh', st['trace'] + '.tla', st['trace'] + '.cfg', '-workers', '2'], env=dict(os.environ, PROP=prop, TRACE=tr, TLC_JAVA='-Xmx3g -Xss128m'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                m = re.search(r'^"FAIL\|(.*)"$', p.stdout, re.M)
                if m:
                    return k, f, line, what, '%s %s' % (prop, m.group(1)[:60])
                if p.returncode:
                    return k, f, line, what, '%s rc=%d' % (prop, p.returncode)
        open(os.path.join(ROOT, 'survivors', '%s.py' % k), 'w').write(new)
    except subprocess.TimeoutExpired:
        verdict = 'TIMEOUT'
    finally:
        open(path, 'w').write(old)
    return k, f, line, what, verdict


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or sorted(PROPS)
    os.makedirs(os.path.join(ROOT, 'survivors'), exist_ok=True)
    for f in files:
        for p in PROPS[f]:
            generate(p)
    jobs = []
    for f in files:
        rnd = random.Random('%s%d' % (f, seed))
        src = open(os.path.join('/repo', f)).read()
        st, names, attrs = sites(src)
        lines = src.encode()
        short = [s for s in st if len(src.splitlines()[lines[:s[0]].count(b'\n')]) < 110]
        seen = set()
        tries = 0
        while len(seen) < n and tries < 50 * n:
            tries += 1
            s = rnd.choice(short if rnd.random() < .7 else st)
            new = mutate(src, s, names, attrs, rnd)
            if new is None or new in seen:
                continue
            seen.add(new)
            ln = lines[:s[0]].count(b'\n') + 1
            k = '%s-%d-%d' % (os.path.basename(f)[:-3], seed, len(seen))
            ol, nl = src.splitlines()[ln - 1], new.splitlines()[ln - 1]
            i = next((i for i, (a, b) in enumerate(zip(ol, nl)) if a != b), 0)
            jobs.append((k, f, new, ln, '%s: %s -> %s' % (s[2], ol[max(0, i - 25):i + 30].strip(), nl[max(0, i - 25):i + 30].strip())))
    done = 0
    with multiprocessing.Pool(int(os.environ.get('PAR', '4'))) as pool:
        for r in pool.imap_unordered(judge, jobs):
            done += 1
            print('%s|%s:%s|%s|%s' % (r[4], r[1], r[2], r[3], r[0]), flush=True)


if __name__ == '__main__':
    main()
