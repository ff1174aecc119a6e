"""Replays generated power expansions and printouts.
usage: drive_text.py SCENARIO_DIR OUT.ndjson PROP"""
import contextlib, glob, io, json, multiprocessing, os, re, shutil, signal, sys, tempfile
import common
import exprs

PROP = None
LIMIT = 20
try:
    import sympy
    from meshless.dev import sympytools as st
    IMPORT_ERROR = None
except Exception as e:
    IMPORT_ERROR = e


class Timeout(Exception):
    pass


def on_alarm(*a):
    raise Timeout('no answer in %d s' % LIMIT)


ASSIGN = re.compile(r'^(\w+)\[(.*?)\]\s*([-+*/]?=)(?!=)\s*(.*)$')


def program(text, head):
    """the printed lines as statements of spec/Printer.tla"""
    prog = []
    heads = set(head.split('\n')) if head else set()
    commented = False
    for line in text.split('\n'):
        s = line.strip()
        if not s:
            continue
        if line in heads:
            prog.append(['head', line]); continue
        m = re.match(r'^#\s*([\w.]+)_num\s*=\s*(\d+)$', s)
        if m:
            prog.append(['num', m.group(1), int(m.group(2))]); continue
        m = re.match(r'^#\s*collected for (.*)$', s)
        if m:
            prog.append(['of', exprs.parse(m.group(1))]); continue
        m = re.match(r'^#\s*(\w+)\s*=\s*(.*)$', s)
        if m:
            prog.append(['let', m.group(1), exprs.parse(m.group(2))]); continue
        if s in ('subs', '# subs', '# cdefs'):
            prog.append(['mark', s]); continue
        m = re.match(r'^#\s*([\w.]+)$', s)
        if m:
            prog.append(['title', m.group(1)]); continue
        m = re.match(r'^cdef double (.*)$', s)
        if m:
            prog.append(['decl', [x.strip() for x in m.group(1).split(',')]]); continue
        if s == 'c += 1':
            prog.append(['inc']); continue
        m = ASSIGN.match(s)
        if m:
            idx = exprs.parse('q[%s]' % m.group(2))
            if idx[0] == 'i':
                prog.append(['put', m.group(1), idx[2], m.group(3), exprs.parse(m.group(4)) if m.group(4) else ['none']])
                continue
        m = re.match(r'^(\w+) = (.*)$', s)
        if m:
            prog.append(['let', m.group(1), exprs.parse(m.group(2))]); continue
        if line.startswith('    '):
            e = exprs.parse(s)
            if e[0] != 'bad':
                prog.append(['more', e]); continue
        prog.append(['bad', s[:80]])
    return [['bad', 'expression: %s' % q[-1][1]] if isinstance(q[-1], list) and q[-1] and q[-1][0] == 'bad' else q for q in prog]


def names(e):
    if e[0] == 'v':
        return {e[1]}
    return set().union(*[names(x) for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str)],
                       *[names(y) for x in e[1:] if isinstance(x, list) for y in x if isinstance(y, list)])


def printed(op, obs):
    ent = [[exprs.parse(x) for x in r] for r in op['m']]
    m = sympy.Matrix(len(ent), len(ent[0]), [exprs.to_sympy(x) for r in ent for x in r])
    sy = lambda t: exprs.to_sympy(exprs.parse(t))
    subs = dict((sy(k), sympy.Symbol(v)) for k, v in op['subs'])
    kw = {}
    if not op['dflt']:
        kw = dict(header=op['head'] or None, print_file=op['file'],
                  collect_for=[sy(k) for k in op['collect']] if op['hascollect'] else None, pow_by_mul=op['pbm'])
        if op['kind'] != 'dense':
            t = op['sufix']
            kw['sufix'] = int(t) if t.isdigit() else t or None      # matrices may be numbered
        if op['kind'] != 'array':
            kw.update(subs=subs or None, dofpernode=op['dpn'] or None)
        if op['kind'] == 'sparse':
            kw['is_symmetric'] = op['sym']
        if op['kind'] == 'array':
            kw.update(use_cse=op['cse'], order=op['order'], op=op['aop'])
    keep = m.copy(), sympy.srepr(m), dict(subs), list(kw.get('collect_for') or [])
    text = getattr(st, 'mprint_as_' + op['kind'])(m, op['name'], **kw)
    obs['pure'] = (m == keep[0] and sympy.srepr(m) == keep[1] and subs == keep[2]
                   and list(kw.get('collect_for') or []) == keep[3])
    if not isinstance(text, str):
        raise TypeError('the printer returned a %s' % type(text).__name__)
    obs['text'] = text
    if PROP != 'C28':
        obs['m'] = ent
        obs['keynames'] = sorted(set().union(*[names(exprs.parse(k)) for k, _ in op['subs']]))
        obs['prog'] = program(text, op['head'])


def listing(root):
    out = []
    for d, sub, files in os.walk(root):
        for f in files:
            with open(os.path.join(d, f), newline='', encoding='utf-8', errors='replace') as g:
                out.append([os.path.relpath(d, root), f, g.read()])
    return sorted(out)


def do(op, root):
    obs = {}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            signal.alarm(LIMIT)
            if op['op'] == 'pow2mul':
                obs['before'] = exprs.parse(op['text'])
                r = st.pow2mul(op['text'])
                if not isinstance(r, str):
                    raise TypeError('pow2mul returned a %s' % type(r).__name__)
                obs['text'] = r
                obs['after'] = exprs.parse(r)
            elif op['op'] == 'cd':
                os.chdir(os.path.join(root, op['to']))
            elif op['op'] == 'touch':
                with open(op['name'], 'w', newline='') as f:
                    f.write(op['text'])
            else:
                printed(op, obs)
            signal.alarm(0)
        obs['out'] = 'ok'
    except Exception as e:
        obs['out'], obs['why'] = type(e).__name__, str(e)[:200]
    finally:
        signal.alarm(0)
    if PROP == 'C28':
        obs['files'] = listing(root)
    return obs


def run(path):
    global LIMIT
    signal.signal(signal.SIGALRM, on_alarm)
    with open(path) as f:
        sc = json.load(f)
    home = os.getcwd()
    root = tempfile.mkdtemp(prefix='text')
    for d in ('d1', 'd2'):
        os.mkdir(os.path.join(root, d))
    try:
        os.chdir(os.path.join(root, 'd1'))
        for op in sc['ops']:
            if op.get('head') == 'umlaut':      # the generator writes plain letters only
                op['head'] = 'Gr\xf6\xdfe \u03b1\xb2 \u2192 [m]'
            if IMPORT_ERROR is not None:
                op['obs'] = {'out': type(IMPORT_ERROR).__name__, 'why': str(IMPORT_ERROR)[:200], 'files': []}
                continue
            op['obs'] = do(op, root)
            if op['obs']['out'] == 'Timeout':
                LIMIT = 3
    finally:
        os.chdir(home)
        shutil.rmtree(root, ignore_errors=True)
    return json.dumps(sc)


def main():
    global PROP
    src, dst, PROP = sys.argv[1:4]
    files = sorted(glob.glob(os.path.join(src, '*.json')), key=lambda p: int(os.path.basename(p)[:-5]))
    with open(dst, 'w') as f:
        with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
            for line in pool.imap(run, files, chunksize=4):
                f.write(line + '\n')


if __name__ == '__main__':
    main()
