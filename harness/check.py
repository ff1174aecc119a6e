"""Decides one property: model checking of the specification, generation of
behaviours from it, replay on the code of REPO, and validation of the recorded
executions against the specification.   usage: check.py ID
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Any other exit: the machinery failed."""
import collections, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
PY = '/opt/venv/bin/python'
DEADLINE = time.time() + (840 if TIER == 'quick' else 6 * 3600)
WORKERS = str(min(8, os.cpu_count() or 1))

sys.path.insert(0, HERE)
from plan import PLAN, TECHNIQUE, ASSUME          # noqa


class Broken(Exception):
    """the machinery, not the code under test, failed"""


def note(*a):
    print(*a, flush=True)


def tlc(module, cfg, env=None, timeout=None, args=(), workers=WORKERS):
    e = dict(os.environ)
    e.update(env or {})
    t = max(30, min(timeout or 1e9, DEADLINE - time.time()))
    try:
        p = subprocess.run([os.path.join(VERIF, 'tlc.sh'), module + '.tla', cfg, '-workers', workers] + list(args),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=t, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise Broken('%s did not finish in %d s' % (module, t))
    m = re.findall(r'(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found', p.stdout)
    gen, dis = [int(x.replace(',', '')) for x in m[-1]] if m else (0, 0)
    return p.returncode, p.stdout, gen, dis


def tail(out, n=25):
    keep = [l[:400] for l in out.splitlines() if l and not re.match(r'(Parsing|Semantic|Linting|Starting|Running|TLC2|Comput)', l)]
    return '\n'.join(keep[-n:])


def known_findings(prop):
    known = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known


def run_mc(stage, tmp, cov):
    consts = stage.get('consts', {})
    v = 0 if TIER == 'quick' else 1
    cfg = os.path.join(tmp, stage['module'] + '.cfg')
    with open(cfg, 'w') as f:
        for k, val in consts.items():
            f.write('CONSTANT %s = %s\n' % (k, val[v] if isinstance(val, tuple) else val))
        f.write(stage['spec'] + '\nCHECK_DEADLOCK FALSE\n')
    t = time.time()
    rc, out, gen, dis = tlc(stage['module'], cfg, timeout=stage.get('timeout', (300, 5400))[v], workers=stage.get('workers', (WORKERS, WORKERS))[v])
    if rc != 0:
        note(tail(out))
        raise Broken('model checking of %s failed (%d)' % (stage['module'], rc))
    cov['states'] += dis
    cov['transitions'] += gen
    cov['models'].append({'module': stage['module'], 'checked': ' '.join(re.findall(r'(?:INVARIANTS?|PROPERTY|PROPERTIES) (.*)', stage['spec'])),
                          'constants': {k: (val[v] if isinstance(val, tuple) else val) for k, val in consts.items()},
                          'distinct_states': dis, 'states_generated': gen, 'wall_s': round(time.time() - t, 1)})
    note('model %s: %d states, %d transitions, invariants hold' % (stage['module'], dis, gen))


def run_conf(prop, stage, tmp, cov):
    """generate, replay, validate; returns verdicts [(kind, trace, event, clause, line)]"""
    v = 0 if TIER == 'quick' else 1
    total = stage['chains'][v]
    batch = stage.get('batch', 150)
    verdicts = []
    first = 1
    stop = DEADLINE - (60 if TIER == 'quick' else 600)
    while first <= total:
        if time.time() > stop and first > 1:
            note('time is up after %d of %d chains' % (first - 1, total))
            break
        n = min(batch, total - first + 1)
        d = os.path.join(tmp, 'sc')
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        env = {'PROP': prop, 'SEED': str(SEED), 'FIRST': str(first), 'CHAINS': str(n), 'OUT': d, 'TIER': TIER}
        for k, val in stage.get('env', {}).items():
            env[k] = str(val[v] if isinstance(val, tuple) else val)
        rc, out, gen, dis = tlc(stage['gen'], stage.get('gencfg', stage['gen'] + '.cfg'), env, 3000)
        files = glob.glob(os.path.join(d, '*.json'))
        if rc != 0 or (len(files) != n and not stage.get('free')) or not files:
            note(tail(out))
            raise Broken('generation by %s failed (%d, %d of %d behaviours)' % (stage['gen'], rc, len(files), n))
        cov['generated'] += len(files)
        verdicts += replay(prop, stage, d, tmp, cov, len(files))
        first += n
        if any(k == 'FAIL' for k, *_ in verdicts):
            break
        if stage.get('free'):
            break
    return verdicts


def run_cover(prop, stage, tmp, cov):
    """every transition of the abstract session as a behaviour (Cover); replays
    a sample drawn by the seed, the whole cover in the thorough tier"""
    v = 0 if TIER == 'quick' else 1
    d = os.path.join(tmp, 'cover')
    os.mkdir(d)
    env = {'PROP': prop, 'SEED': str(SEED), 'OUT': d, 'DEEP': stage['deep'][v]}
    t = time.time()
    rc, out, gen, dis = tlc('Cover', 'Cover.cfg', env, 3000, workers='1')
    files = sorted(os.listdir(d))
    if rc != 0 or len(files) != gen - 1:
        note(tail(out))
        raise Broken('transition cover failed (%d, %d of %d transitions)' % (rc, len(files), gen - 1))
    pick = files
    random.Random(SEED).shuffle(pick)
    pick = pick[:stage['take'][v]]
    cov['states'] += dis
    cov['transitions'] += gen
    verdicts = []
    batch, k = 150, 0
    stop = DEADLINE - (60 if TIER == 'quick' else 600)
    while k < len(pick) and not any(x[0] == 'FAIL' for x in verdicts) and (k == 0 or time.time() < stop):
        b = os.path.join(tmp, 'sc')
        shutil.rmtree(b, ignore_errors=True)
        os.mkdir(b)
        for i, f in enumerate(pick[k:k + batch]):
            with open(os.path.join(d, f)) as fh:
                sc = json.load(fh)
            sc['id'] = k + i + 1
            with open(os.path.join(b, '%d.json' % sc['id']), 'w') as fh:
                json.dump(sc, fh)
        n = len(pick[k:k + batch])
        cov['generated'] += n
        verdicts += replay(prop, stage, b, tmp, cov, n)
        k += n
    cov['models'].append({'module': 'Cover', 'checked': 'every transition of the abstract session is a behaviour',
                          'constants': {'DEEP': stage['deep'][v]}, 'distinct_states': dis, 'states_generated': gen,
                          'transitions_replayed': min(k, len(pick)), 'transitions': len(files), 'wall_s': round(time.time() - t, 1)})
    note('transition cover: %d of %d transitions replayed' % (min(k, len(pick)), len(files)))
    shutil.rmtree(d, ignore_errors=True)
    return verdicts


def replay(prop, stage, d, tmp, cov, n):
    trace = os.path.join(tmp, 'trace.ndjson')
    e = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
             PYTHONUTF8='1', PYTHONHASHSEED=os.environ.get('PYTHONHASHSEED', '0'))
    t = max(60, DEADLINE - time.time())
    try:
        p = subprocess.run([PY, os.path.join(HERE, stage['drive']), d, trace, prop], cwd=tmp, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired:
        raise Broken('replay did not finish in %d s' % t)
    if p.returncode != 0:
        note(p.stdout[-3000:])
        raise Broken('replay driver failed (%d)' % p.returncode)
    return validate(prop, stage, trace, tmp, cov)


def validate(prop, stage, trace, tmp, cov):
    rc, out, gen, dis = tlc(stage['trace'], stage['trace'] + '.cfg', {'PROP': prop, 'TRACE': trace}, 3000)
    found = sorted(set(re.findall(r'^"(FAIL|KNOWN)\|(-?\d+)\|(\d+)\|(.*)"$', out, re.M)))
    with open(trace) as f:
        lines = f.read().splitlines()
    byid = dict((str(json.loads(l)['id']), l) for l in lines)
    res = [(k, i, int(ev), c, byid.get(i)) for k, i, ev, c in found]
    cov['trace_states'] += dis
    cov['trace_transitions'] += gen
    if rc != 0:
        if rc in (75, 76, 77):      # the recorded behaviour is outside what the specification can evaluate
            note(tail(out))
            line = lines[0] if len(lines) == 1 else None
            res.append(('FAIL', '0', 0, 'recorded execution not accepted (evaluation error)', line))
        else:
            note(tail(out))
            raise Broken('trace validation by %s failed (%d)' % (stage['trace'], rc))
    bad = set(i for k, i, *_ in res if k == 'FAIL')
    cov['traces'] += len([i for i in byid if i not in bad])
    cov['events'] += sum(len(json.loads(l)['ops']) for l in lines)
    if len(cov['samples']) < 2 and lines:
        cov['samples'].append(brief(json.loads(lines[len(lines) // 2])))
    for l in lines:
        for op in json.loads(l)['ops']:
            cov['ops'][op.get('op', '?') + ':' + str(op.get('obs', {}).get('out', ''))] += 1
    return res


def brief(tr):
    """a trace small enough to show"""
    def cut(x, n=6):
        if isinstance(x, list):
            return [cut(y, n) for y in x[:n]] + (['... %d more' % (len(x) - n)] if len(x) > n else [])
        if isinstance(x, dict):
            return dict((k, cut(y, n)) for k, y in x.items() if k not in ('K', 'vec', 'wit', 'view', 'ord', 'geo'))
        return x
    return {'id': tr['id'], 'ops': [cut(o) for o in tr['ops'][:8]]}


def main():
    prop = sys.argv[1]
    plan = PLAN[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='chk%s_' % prop)
    cov = {'states': 0, 'transitions': 0, 'models': [], 'generated': 0, 'trace_states': 0, 'trace_transitions': 0,
           'traces': 0, 'events': 0, 'samples': [], 'ops': collections.Counter()}
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    verdicts = []
    try:
        if len(sys.argv) > 2:       # a recorded scenario again: check.py ID FILE
            with open(sys.argv[2]) as f:
                rec = json.load(f)
            d = os.path.join(tmp, 'sc')
            os.mkdir(d)
            with open(os.path.join(d, '1.json'), 'w') as f:
                json.dump(rec['trace'], f)
            verdicts = replay(prop, plan[rec['stage']], d, tmp, cov, 1)
            for v in verdicts:
                note('%s trace %s operation %d: %s' % v[:4])
            sys.exit(1 if any(v[0] == 'FAIL' for v in verdicts) else 0)
        stages = list(enumerate(plan))
        bad = []
        for i, st in stages:
            if st['kind'] == 'mc':
                if st.get('tier', TIER) == TIER:
                    run_mc(st, tmp, cov)
            else:
                r = (run_cover if st['kind'] == 'cover' else run_conf)(prop, st, tmp, cov)
                verdicts += [x + (i,) for x in r]
                if any(x[0] == 'FAIL' for x in r):
                    break
    except Broken as b:
        note('ERROR: %s' % b)
        sys.exit(2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = known_findings(prop)
    bad = [v for v in verdicts if v[0] == 'FAIL' or v[3] not in known]
    hits = collections.Counter(v[3] for v in verdicts if v[0] == 'KNOWN' and v[3] in known)
    wall = round(time.time() - t0, 1)
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
          'coverage': {'states': cov['states'] + cov['trace_states'],
                       'transitions': cov['transitions'] + cov['trace_transitions'],
                       'traces_validated_against_impl': cov['traces'],
                       'behaviours_generated': cov['generated'], 'recorded_operations': cov['events'],
                       'operations_by_kind_and_answer': dict(cov['ops']), 'models': cov['models'],
                       'known_finding_occurrences': dict(hits), 'samples': cov['samples']},
          'assumptions': ASSUME, 'wall_s': wall, 'violations': len(bad)}
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    note('%s %s: %d behaviours, %d operations, %d accepted, %.1f s' % (prop, TIER, cov['generated'], cov['events'], cov['traces'], wall))
    for k in sorted(known):
        note('KNOWN-FINDING: property=%s %s (%d occurrences in this run)' % (prop, known[k], hits.get(k, 0)))
    if bad:
        rd = os.path.join(ev_dir, 'replay')
        os.makedirs(rd, exist_ok=True)
        for kind, tid, event, clause, line, i in bad[:12]:
            note('%s: execution %s, operation %d: %s' % (kind, tid, event, clause))
        kind, tid, event, clause, line, i = bad[0]
        path = os.path.join(rd, '%s-%s.json' % (prop, tid))
        tr = json.loads(line) if line else {'id': 0, 'ops': []}
        for op in tr['ops']:
            obs = op.pop('obs', None)
            if obs and event and op is tr['ops'][min(event, len(tr['ops'])) - 1]:
                note('observed: out=%s %s' % (obs.get('out'), obs.get('why', '')))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'stage': i, 'operation': event, 'clause': clause,
                       'how': './check.sh %s %s' % (prop, path), 'trace': tr}, f, indent=1)
        note('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
