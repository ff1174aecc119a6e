"""Replays generated calls of the stateless helpers (interpolation, polygon area,
unit vector, log messages).  usage: drive_misc.py SCENARIO_DIR OUT.ndjson PROP"""
import contextlib, glob, io, json, os, signal, sys
import common
from common import num, flt
import numpy as np
from fractions import Fraction

try:
    from pyNastran.bdf.bdf import BDF
    from meshless import interpolate as ip, utils, logger
    IMPORT_ERROR = None
except Exception as e:
    IMPORT_ERROR = e


def conv(v, form):
    if isinstance(v, list):
        return [conv(x, form) for x in v]
    f = Fraction(v)
    return int(f) if form == 'int' and f.denominator == 1 else float(f)


def whole(op, keys, limit):
    """The form of an operation; whole numbers stay floats where their products could leave 64 bits, since the
    functions do not promise which products they form."""
    def small(v):
        return all(map(small, v)) if isinstance(v, list) else abs(Fraction(v)) <= limit
    return 'array' if op['form'] == 'int' and not all(small(op[k]) for k in keys) else op['form']


def same(a, b):
    return type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)


def copy(a):
    return a.copy() if isinstance(a, np.ndarray) else json.loads(json.dumps(a)) if isinstance(a, list) else a


def element(kind, pts):
    """An element and its nodes"""
    m = BDF(debug=False)
    for i, p in enumerate(pts):
        m.add_grid(i + 1, p)
    ids = list(range(1, len(pts) + 1))
    m.add_mat1(1, 1., None, .3)
    if kind in ('CTRIA3', 'CQUAD4'):
        m.add_pshell(1, mid1=1, t=.1)
        getattr(m, 'add_' + kind.lower())(1, 1, ids)
    elif kind == 'CROD':
        m.add_prod(1, 1, 1.)
        m.add_crod(1, 1, ids)
    elif kind == 'CBAR':
        m.add_pbar(1, 1)
        m.add_cbar(1, 1, ids, [0., 0., 1.], None)
    else:
        m.add_psolid(1, 1)
        getattr(m, 'add_' + kind.lower())(1, 1, ids)
    el = m.elements[1]
    if hasattr(el, 'nodes_ref') and kind != 'CBAR':
        el.nodes_ref = [m.nodes[i] for i in ids]
    else:
        m.cross_reference()
    return el, [m.nodes[i] for i in ids]


MANY = 1100     # repetitions of a list of points


def lagrange(op, obs, dims):
    form = whole(op, [k for k in op if k in ('x', 'y', 'z', 'xn', 'yn', 'zn', 'F')], 400)
    pts = [conv(op[k], form) for k in 'xyz'[:dims]]
    nodes = [conv(op[k + 'n'], form) for k in 'xyz'[:dims]]
    F = conv(op['F'], form)
    bad = op.get('bad')
    if bad == 'ndim1':
        F = [x for r in F for x in r]
    elif bad in ('ndim3', 'ndim4'):
        F = [F]
    elif bad == 'ndim2':
        F = F[0]
    fun = ip.interpolate_lagrange_2D if dims == 2 else ip.interpolate_lagrange_3D
    n = len(pts[0])

    def call(p, nd, f):
        keep = [copy(a) for a in p + nd + [f]]
        r = fun(*(p + nd + [f]))
        obs['pure'] = obs.get('pure', True) and all(same(a, b) for a, b in zip(keep, p + nd + [f]))
        return np.asarray(r, dtype=float)
    if form == 'scalar':
        obs['val'] = [num(call([q[i] for q in pts], nodes, F)) for i in range(n)]
        return
    if form == 'list':
        r = call(pts, nodes, F)
    elif form == 'grid' and n > 1:
        r = call([np.array(q).reshape(1, n) for q in pts], [np.array(q) for q in nodes], np.array(F))
        r = np.broadcast_to(r, (1, n)).reshape(n)
    elif form == 'many':           # the points over and over: the farthest repetition counts
        r = call([np.tile(np.array(q), MANY) for q in pts], [np.array(q) for q in nodes], np.array(F))
        r = np.broadcast_to(r, (MANY*n,)) if r.ndim == 0 else r
        if r.shape == (MANY*n,):
            r = r.reshape(MANY, n)
            r = r[np.nanargmax(np.abs(r - r[0]).sum(axis=1))] if np.isfinite(r).all() else r[~np.isfinite(r).all(axis=1)][0]
    else:
        r = call([np.array(q) for q in pts], [np.array(q) for q in nodes], np.array(F))
    if r.ndim == 0:                # one control point in every direction: a constant
        r = np.broadcast_to(r, (n,))
    obs['val'] = [num(x) for x in r] if r.ndim == 1 else []


def do(op):
    global LIMIT
    obs = {}
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            signal.alarm(LIMIT)
            k = op['op']
            if k in ('l2', 'l2bad'):
                lagrange(op, obs, 2)
            elif k in ('l3', 'l3bad'):
                lagrange(op, obs, 3)
            elif k == 'area':
                a = [conv(op['x'], op['form']), conv(op['y'], op['form'])]
                if op['form'] in ('array', 'int'):
                    a = [np.array(q) for q in a]
                elif op['form'] == 'tuple':
                    a = [tuple(q) for q in a]
                keep = [copy(q) for q in a]
                obs['val'] = num(utils.area_of_polygon(*a))
                obs['pure'] = all(same(p, q) for p, q in zip(a, keep))
            elif k == 'unit':
                v = np.array(conv(op['v'], whole(op, 'v', 10**6)))
                keep = v.copy()
                obs['val'] = [num(x) for x in np.asarray(utils.unitvec(v)).ravel()]
                obs['pure'] = same(v, keep)
            elif k == 'centroid':
                el, nodes = element(op['el'], [[float(Fraction(v)) for v in p] for p in op['pts']])
                if op['moved']:
                    nodes[-1].xyz = nodes[-1].xyz + np.array([float(Fraction(v)) for v in op['by']])
                keep = [n.xyz.copy() for n in nodes]
                obs['val'] = [num(x) for x in np.asarray(utils.getMid(el)).ravel()]
                obs['pure'] = all(np.array_equal(n.xyz, x) for n, x in zip(nodes, keep))
            elif k == 'log':
                kw = {}
                if op['dflt'] not in ('level', 'both'):
                    kw['level'] = op['level']
                if op['dflt'] not in ('silent', 'both'):
                    kw['silent'] = (bool, int, np.bool_)[len(op['text']) % 3](op['silent'])     # yes and no of any kind
                r = getattr(logger, op['fn'])(op['text'], **kw)
                obs['ret'] = r if isinstance(r, str) else 'not a string: %s' % type(r).__name__
                obs['print'] = buf.getvalue()
        obs['out'] = 'ok'
    except Exception as e:
        if isinstance(e, Timeout):
            LIMIT = 3       # no point in waiting long again and again
        obs['out'], obs['why'] = type(e).__name__, str(e)[:200]
    finally:
        signal.alarm(0)
    return obs


LIMIT = 20          # seconds for one call


class Timeout(Exception):
    pass


def on_alarm(*a):
    raise Timeout('no answer in %d s' % LIMIT)


def main():
    signal.signal(signal.SIGALRM, on_alarm)
    src, dst = sys.argv[1:3]
    files = sorted(glob.glob(os.path.join(src, '*.json')), key=lambda p: int(os.path.basename(p)[:-5]))
    with open(dst, 'w') as out:
        for f in files:
            with open(f) as g:
                sc = json.load(g)
            for op in sc['ops']:
                op['obs'] = do(op) if IMPORT_ERROR is None else {'out': type(IMPORT_ERROR).__name__, 'why': str(IMPORT_ERROR)[:200]}
            out.write(json.dumps(sc) + '\n')


if __name__ == '__main__':
    main()
