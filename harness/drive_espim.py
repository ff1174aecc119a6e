"""Replays behaviours generated from spec/Session.tla (Gen) on the library and
records what it answers.  usage: drive_espim.py SCENARIO_DIR OUT.ndjson PROP"""
import contextlib, copy, gc, glob, importlib, inspect, io, json, multiprocessing, os, random, shutil, signal, sys, tempfile
import common
from common import num, flt, dec, is_fin

import numpy as np
try:
    import meshless.espim.read_mesh as rm
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    from meshless.utils import getMid
    from composites.laminate import Laminate
    IMPORT_ERROR = None
except Exception as e:                                    # the code under test does not even import
    IMPORT_ERROR = e

PROP = None
LIMIT = 20         # seconds for one call


class Simplices(object):
    """Looks like scipy.spatial.Delaunay, for a triangulation that is given."""
    def __init__(self, s, pts):
        self.simplices = self.vertices = s
        self.points = np.array(pts, dtype=float)
        self.npoints, self.ndim = self.points.shape
        self.nsimplex = len(s)
        side = {}
        for i, t in enumerate(s.tolist()):
            for k in range(3):
                side.setdefault(frozenset(t) - {t[k]}, []).append(i)
        self.neighbors = np.array([[next((j for j in side[frozenset(t) - {t[k]}] if j != i), -1) for k in range(3)]
                                   for i, t in enumerate(s.tolist())], dtype=np.int32)
        self.convex_hull = np.array([sorted(e) for e, v in side.items() if len(v) == 1], dtype=np.int32)


def make_prop(p, ints=False):
    lam = Laminate()
    m = lambda k: np.array([[flt(x) for x in r] for r in p[k]], dtype=np.float64)
    if ints and all(flt(x) == int(flt(x)) and abs(flt(x)) < 2**40 for k in 'ABDE' for r in p[k] for x in r):
        m = lambda k: np.array([[int(flt(x)) for x in r] for r in p[k]])      # whole numbers as such
    lam.A, lam.B, lam.D, lam.E = m('A'), m('B'), m('D'), m('E')
    lam.h, lam.scf_k13, lam.scf_k23 = flt(p['h']), flt(p['k13']), flt(p['k23'])
    lam.ABD = np.vstack([np.hstack([lam.A, lam.B]), np.hstack([lam.B, lam.D])])
    lam.ABDE = np.zeros((8, 8)); lam.ABDE[:6, :6] = lam.ABD; lam.ABDE[6:, 6:] = lam.E
    return lam


def prop_state(p):
    if p is None:
        return None
    return (id(p), p.A.tobytes(), p.B.tobytes(), p.D.tobytes(), p.E.tobytes(), p.h, p.scf_k13, p.scf_k23)


# --- Nastran decks -----------------------------------------------------------
def grid(fmt, i, cp, xyz, cd=0, ps=''):
    t = [dec(x) for x in xyz]
    if fmt == 'small' and max(map(len, t)) > 8:
        fmt = 'large'
    if fmt == 'small':
        return 'GRID    %8d%8s' % (i, cp or '') + ''.join('%8s' % x for x in t) + ('%8s%8s' % (cd or '', ps)).rstrip() + '\n'
    if fmt == 'large':
        return 'GRID*   %16d%16s%16s%16s*\n*       %16s' % (i, cp or '', t[0], t[1], t[2]) + ('%16s%16s' % (cd or '', ps)).rstrip() + '\n'
    return ('GRID,%d,%s,%s,%s,%s,%s,%s' % (i, cp or '', t[0], t[1], t[2], cd or '', ps)).rstrip(',') + '\n'


def card(fmt, name, *fields):
    if fmt == 'small' or len(fields) > 8:
        s = '%-8s' % name
        for k, f in enumerate(fields):
            if k and k % 8 == 0:
                s += '\n' + ' ' * 8
            s += '%8s' % f
        return s + '\n'
    if fmt == 'large':
        s = '%-8s' % (name + '*')
        for k, f in enumerate(fields):
            if k and k % 4 == 0:
                s += '*\n%-8s' % '*'
            s += '%16s' % f
        return s + '\n' + ('*\n' if len(fields) <= 4 else '')
    return ','.join([name] + [str(f) for f in fields]) + '\n'


FOREIGN = {  # element type -> nodes needed, property card
    'CQUAD4': (4, None), 'CQUADR': (4, None), 'CTRIA6': (6, None), 'CQUAD8': (8, None),
    'CROD': (2, 'PROD,99,1,1.\n'), 'CBAR': (2, 'PBAR,99,1,1.,1.,1.,1.\n'),
    'CTETRA': (4, 'PSOLID,99,1\n'), 'CELAS1': (2, 'PELAS,99,1.\n'),
    'CTRIAR': (3, None), 'CSHEAR': (4, 'PSHEAR,99,1,1.\n'), 'CHEXA': (8, 'PSOLID,99,1\n'), 'CPENTA': (6, 'PSOLID,99,1\n'),
    'CBEAM': (2, 'PBEAM,99,1,1.,1.,1.,,1.\n'), 'CTUBE': (2, 'PTUBE,99,1,1.\n'), 'CONROD': (2, None),
    'CDAMP1': (2, 'PDAMP,99,1.\n'), 'CBUSH': (2, 'PBUSH,99,K,1.,1.,1.\n'),
}


# coordinate systems: 7 has its origin at (1, 2, 0) and its x axis along the global y axis; 8 is given in 7, with
# origin (2, 0, 1) there and axes x, y, z along y, z, x of 7; 9 is cylindrical with the origin and axis of the global one
SYSTEM = 'CORD2R,7,0,1.,2.,0.,1.,2.,1.\n,1.,3.,0.\n'
CHAINED = 'CORD2R,8,7,2.,0.,1.,3.,0.,1.\n,2.,1.,1.\n'
ROUND = 'CORD2C,9,0,0.,0.,0.,0.,0.,1.\n,1.,0.,0.\n'
LOCAL = [(0, 0, 0), (0, 7, 0), (8, 7, 0), (9, 7, 9), (9, 8, 7)]


def local(cp, x, y, z):
    """Coordinates in system cp, or None where they have no exact form there."""
    x, y, z = map(common.frac, (x, y, z))
    if cp == 9:
        if x and y:
            return None
        th = (0 if x >= 0 else 180) if not y else (90 if y > 0 else -90)
        return tuple(str(v) for v in (abs(x + y), th, z))
    p = (y - 2, -(x - 1), z)
    if cp == 8:
        p = (p[1], p[2] - 1, p[0] - 2)
    if any(set('+-') & set(dec(v)[1:]) for v in p):     # the field has no room for all digits
        return None
    return tuple(map(str, p))


class Formats(object):
    """Which format the next card has."""
    def __init__(self, name):
        self.names, self.i = (['small', 'free', 'large'] if name == 'mixed' else [name]), 0

    def __call__(self):
        self.i += 1
        return self.names[self.i % len(self.names)]


def deck(op):
    """The deck of a mesh; dress: what else legal decks contain (displacement systems and
    constraints of nodes, elements first, comments, angles, offsets and several properties)."""
    fmt = Formats(op.get('fmt', 'small'))
    dress = op.get('dress', 0)
    note = '$ GRID, 1, 2, 3\n' if dress & 4 else ''
    out = ['SOL 101\nCEND\nBEGIN BULK\nMAT1,1,1.+6,,.3\nPSHELL,1,1,.1,1,,1\n']
    cp = op.get('cp', 0)
    out.append(['', SYSTEM, SYSTEM + CHAINED, SYSTEM + ROUND, SYSTEM + CHAINED + ROUND][cp])
    for k, (i, x, y, z) in enumerate(op['xyz']):
        loc = LOCAL[cp][k % 3]
        cd = 7 if dress & 1 and cp and k % 4 != 1 else 0
        ps = ('', '3', '126')[k % 3] if dress & 1 else ''
        out.append(note + (grid(fmt(), i, loc, local(loc, x, y, z), cd, ps) if loc and local(loc, x, y, z)
                           else grid(fmt(), i, 0, (x, y, z), cd, ps)))
    els = [note + card(fmt(), 'CTRIA3', e, 1 + (k % 2 if dress & 8 else 0), a, b, c,
                       *(('30.', '.125') if dress & 8 and k % 3 == 0 else ())) for k, (e, a, b, c) in enumerate(op['elems'])]
    if dress & 8:
        out.append('PSHELL,2,1,.2,1,,1\n')
    f = op.get('foreign', 'no')
    if f != 'no':
        n, pc = FOREIGN[f]
        base = 90000001
        pts = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (.5, 0, 0), (1, .5, 0), (.5, 1, 0), (0, .5, 0)]
        if f == 'CTRIA6':
            pts = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (.5, 0, 0), (.5, .5, 0), (0, .5, 0)]
        if f in ('CTETRA', 'CPENTA', 'CHEXA'):
            h = {'CTETRA': 3, 'CPENTA': 3, 'CHEXA': 4}[f]
            pts = pts[:h] + [(p[0], p[1], 1) for p in pts[:h]]
        for k in range(n):
            out.append(grid('free', base + k, 0, [str(common.Fraction(v)) for v in pts[k]]))
        ns = [base + k for k in range(n)]
        eid = {'first': 89000000, 'last': 89000002, 'middle': 89000001}[op['at']]
        if pc:
            out.append(pc)
        pid = 99 if pc else 1
        if f in ('CBAR', 'CBEAM'):
            c = card('free', f, eid, pid, ns[0], ns[1], '0.', '0.', '1.')
        elif f == 'CONROD':
            c = card('free', f, eid, ns[0], ns[1], 1, '1.')
        elif f == 'CBUSH':
            c = card('free', f, eid, pid, ns[0], ns[1], '', '', '', 0)
        elif f in ('CELAS1', 'CDAMP1'):
            c = card('free', f, eid, pid, ns[0], 1, ns[1], 1)
        else:
            c = card('small', f, eid, pid, *ns)
        els.insert({'first': 0, 'last': len(els), 'middle': len(els) // 2}[op['at']], c)
    if dress & 2:
        out[1:], els = els, out[1:]
    return ''.join(out + els + ['ENDDATA\n'])


# --- projections of the library's state ---------------------------------------
def nid(n):
    return int(getattr(n, 'nid', n))


def eid(t):
    return int(getattr(t, 'eid', t))


def edge_key(e):
    return sorted(nid(n) for n in e.nodes)


def mesh_view(mesh, others):
    edges = list(mesh.edges.values())
    eids = set(map(id, edges))
    nodes_id = set(id(n) for n in mesh.nodes.values())
    elems_id = set(id(t) for t in mesh.elements.values())
    v = {'nodes': [], 'elems': [], 'edges': []}
    for k, n in mesh.nodes.items():
        v['nodes'].append({
            'id': int(k), 'own': nid(n) == k, 'xyz': [num(x) for x in n.xyz],
            'pos': [num(x) for x in n.get_position()], 'len': len(n.xyz),
            't': sorted(eid(t) for t in n.trias), 'e': sorted(edge_key(e) for e in n.edges),
            'eown': all(id(e) in eids for e in n.edges), 'noprop': n.prop is None})
    for k, t in mesh.elements.items():
        v['elems'].append({
            'id': int(k), 'own': eid(t) == k and all(id(n) in nodes_id for n in t.nodes),
            'n': [nid(n) for n in t.nodes], 'nid': [int(i) for i in t.node_ids],
            'e': sorted(edge_key(e) for e in t.edges), 'eown': all(id(e) in eids for e in t.edges),
            'noprop': t.prop is None})
    for e in edges:
        v['edges'].append({
            'n': [nid(n) for n in e.nodes], 'n12': [nid(e.n1), nid(e.n2)], 'ids': [int(i) for i in e.node_ids],
            't': [eid(t) for t in e.trias],
            'own': all(id(n) in nodes_id for n in list(e.nodes) + [e.n1, e.n2]) and
                   all(id(t) in elems_id for t in e.trias)})
    v['leak'] = bool(parts(mesh) & set().union(*[parts(m) for m in others])) if others else False
    return v


def parts(mesh):
    """Everything mutable that belongs to one mesh only."""
    s = set()
    for n in mesh.nodes.values():
        s |= {id(n), id(n.trias), id(n.edges), id(n.xyz)}
        if isinstance(n.xyz, np.ndarray):
            s.add(('xyz', n.xyz.__array_interface__['data'][0]))
    for t in mesh.elements.values():
        s |= {id(t), id(t.edges), id(t.nodes)}
    for e in mesh.edges.values():
        s |= {id(e), id(e.trias), id(e.nodes)}
    return s | {id(mesh.nodes), id(mesh.elements), id(mesh.edges)}


def inputs_state(mesh):
    """What a computation must not change."""
    return ([(k, id(n), tuple(map(float, n.xyz)), prop_state(n.prop), tuple(sorted(eid(t) for t in n.trias)),
              tuple(sorted(tuple(edge_key(e)) for e in n.edges))) for k, n in mesh.nodes.items()],
            [(k, id(t), tuple(map(int, t.node_ids)), tuple(map(id, t.nodes)), prop_state(t.prop), tuple(map(id, t.edges)))
             for k, t in mesh.elements.items()],
            [(k, id(e), tuple(map(id, e.nodes)), tuple(map(id, e.trias))) for k, e in mesh.edges.items()])


def derived_state(mesh):
    return ([repr(n.index) for n in mesh.nodes.values()],
            [(repr(e.Ac), repr(np.asarray(e.sdomain).tolist()) if len(e.sdomain) else '',
              [(nid(p.n1), nid(p.n2), nid(p.n3), p.f1, p.f2, p.f3, p.nx, p.ny, p.le) for p in e.ipts])
             for e in mesh.edges.values()])


def geometry(mesh):
    out = []
    for e in mesh.edges.values():
        ip = []
        for p in e.ipts:
            ip.append({'n': [nid(p.n1), nid(p.n2), nid(p.n3)], 'f': [num(p.f1), num(p.f2), num(p.f3)],
                       'nv': [num(p.nx), num(p.ny), num(p.nz)], 'le': num(p.le), 'xyz': [num(x) for x in p.xyz],
                       't': eid(p.tria),
                       'fin': is_fin([p.f1, p.f2, p.f3, p.nx, p.ny, p.nz, p.le]) and is_fin(p.xyz)})
        sd = [[num(q[0]), num(q[1])] for q in e.sdomain]
        out.append({'n': edge_key(e), 't': [eid(t) for t in e.trias], 'Ac': num(e.Ac), 'sd': sd, 'ip': ip,
                    'fin': is_fin(e.Ac) and is_fin(e.sdomain) and all(q['fin'] for q in ip)})
    return out


def orders(mesh):
    return [{'n': edge_key(e), 't': [eid(t) for t in e.trias]} for e in mesh.edges.values()]


def numbering(mesh):
    out = []
    for k, n in mesh.nodes.items():
        try:
            i = int(n.index)
        except Exception:
            i = -1
        out.append([int(k), i])
    return out


def matrix(k):
    return [[num(x) for x in row] for row in np.asarray(k)]


class Ear(io.StringIO):
    """Listens, and notes whether what is said comes out of meshless.logger."""
    logged = True

    def write(self, text):
        f = sys._getframe(1)
        while f is not None and f.f_globals.get('__name__') != 'meshless.logger':
            f = f.f_back
        if f is None and text:
            self.logged = False
        return io.StringIO.write(self, text)


class Timeout(Exception):
    pass


class World(object):
    def __init__(self, sc, tmp):
        self.sc, self.tmp = sc, tmp
        self.meshes, self.mats, self.dis = {}, {}, {}
        self.pool = dict((p['name'], p) for p in sc['pool'])
        self.props = dict((k, make_prop(p, ints=self.sc['id'] % 3 == 0)) for k, p in self.pool.items())
        self.nfile = self.nkg = 0
        self.dvec = ()
        self.clouds = {}        # name -> points, triangulation and their contents when made
        self.private, self.alive = set(), []

    def do(self, op):
        obs = {}
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                signal.alarm(LIMIT)
                try:
                    getattr(self, 'op_' + op['op'])(op, obs)
                finally:
                    signal.alarm(0)
            obs['out'] = 'ok'
        except Exception as e:
            obs['out'] = next((k.__name__ for k in (NotImplementedError, ValueError) if isinstance(e, k)), type(e).__name__)
            obs['why'] = str(e)[:200]
        obs['said'] = buf.getvalue()[:200]
        return obs

    def pure(self, mesh, obs, f, untouched=False, watch=()):
        before = inputs_state(mesh)
        der = derived_state(mesh) if untouched else None
        w = [np.array(x) for x in watch]
        try:
            return f()
        finally:
            obs['pure'] = inputs_state(mesh) == before and all(np.array_equal(a, b) for a, b in zip(w, watch))
            if untouched:
                obs['same'] = derived_state(mesh) == der

    def op_read(self, op, obs):
        if op['via'] == 'nastran':
            self.nfile += 1
            path = os.path.join(self.tmp, '%s.bdf' % op.get('file', 'm%d' % self.nfile))
            text = deck(op)
            if not os.path.exists(path) or open(path).read() != text:
                with open(path, 'w') as f:
                    f.write(text)
            read = lambda **kw: rm.read_mesh(path, **kw)
        else:
            d = 2 if op.get('flat') and all(common.frac(p[3]) == 0 for p in op['xyz']) else 3
            vals = [[flt(x) for x in p[1:1 + d]] for p in op['xyz']]
            sim = np.array([[i - 1 for i in e[1:]] for e in op['elems']], dtype=np.int32)
            form = op.get('form', 'array')
            whole = all(x == int(x) for p in vals for x in p)
            pts = vals if form == 'lists' else np.array(vals, dtype=int if form == 'ints' and whole else float)
            if form == 'columns':
                pts = np.asfortranarray(pts)
            # clouds in space are triangulated in projection
            cloud = (pts, Simplices(sim, np.array(vals, dtype=float)[:, :2] if d == 3 else pts), np.array(vals), sim.copy())
            old = self.clouds.get(op.get('cloud'))
            if old and np.array_equal(old[2], cloud[2]) and np.array_equal(old[3], cloud[3]) and old[2].shape == cloud[2].shape:
                cloud = old                     # the very same objects once more
            self.clouds[op.get('cloud', 'c%d' % len(self.clouds))] = cloud
            read = lambda **kw: rm.read_delaunay(cloud[0], cloud[1], **kw)
        if op['o'] in self.meshes and op.get('foreign', 'no') == 'no':
            del self.meshes[op['o']]
            gc.collect()
        mesh = read()
        obs['pure'] = self.clouds_same()
        obs['view'] = mesh_view(mesh, [m for k, m in self.meshes.items() if k != op['o']])
        if PROP == 'C30':
            self.loud(obs, lambda s: mesh_brief(read(silent=s)))
        self.meshes[op['o']] = mesh

    def clouds_same(self):
        return all(np.array_equal(np.array(c[0], dtype=float), c[2]) and np.array_equal(c[1].simplices, c[3])
                   for c in self.clouds.values())

    def loud(self, obs, f):
        """The same call silent and not: what it says and whether the result is the same."""
        res = []
        for s in (True, False):
            b = Ear()
            with contextlib.redirect_stdout(b), contextlib.redirect_stderr(b):
                r = f(s)
            res.append((b.getvalue(), r))
            obs['logged'] = b.logged
        obs['quiet'], obs['loud'] = res[0][0][:200], res[1][0][:200]
        obs['agree'] = res[0][1] == res[1][1]

    def assign(self, who, name, how):
        if name == 'none':
            who.prop = None
        elif how == 'share':
            who.prop = self.props[name]
        elif how == 'inplace' and id(who.prop) in self.private:
            new = make_prop(self.pool[name])    # new values in the object that is there
            for k in ('A', 'B', 'D', 'E', 'ABD', 'ABDE'):
                getattr(who.prop, k)[:] = getattr(new, k)
            who.prop.h, who.prop.scf_k13, who.prop.scf_k23 = new.h, new.scf_k13, new.scf_k23
        else:
            who.prop = make_prop(self.pool[name])
            self.private.add(id(who.prop))
            self.alive.append(who.prop)         # keep the id taken

    def op_setnp(self, op, obs):
        for i, p in op['asg']:
            self.assign(self.meshes[op['o']].nodes[i], p, op.get('how', 'share'))

    def op_setep(self, op, obs):
        for i, p in op['asg']:
            self.assign(self.meshes[op['o']].elements[i], p, op.get('how', 'share'))

    def op_move(self, op, obs):
        n = self.meshes[op['o']].nodes[op['node']]
        to = np.array([flt(x) for x in op['to']])
        if op.get('inplace') and isinstance(n.xyz, np.ndarray) and n.xyz.flags.writeable and n.xyz.dtype == float:
            n.xyz[:] = to
        else:
            n.xyz = to

    def keep(self, op, k, obs):
        self.mats[op['h']] = k
        self.dis[op['h']] = None
        obs['fin'] = is_fin(k)
        obs['shape'] = [int(x) for x in np.shape(k)]
        if PROP not in ('C01', 'C02', 'C03', 'C29'):
            obs['K'] = matrix(k)
        self.shadow(op['h'])

    def shadow(self, h):
        self.dis[h] = np.array(self.mats[h])

    def op_k0(self, op, obs):
        mesh = self.meshes[op['o']]
        try:
            k = self.pure(mesh, obs, lambda: calc_k0(mesh, op['pfn']), untouched=True)
        finally:
            obs['idx'] = numbering(mesh)
            obs['ord'] = orders(mesh)
        self.keep(op, k, obs)
        if PROP in ('C04', 'C05'):
            obs['geo'] = geometry(mesh)
        if PROP == 'C07':
            obs['wit'] = self.witness(mesh, k)
        if PROP == 'C30':
            self.loud(obs, lambda s: calc_k0(mesh, op['pfn'], silent=s).tolist())

    def witness(self, mesh, k):
        """Direction of the lowest energy of the symmetric part, scaled per kind of dof."""
        k = (np.asarray(k) + np.asarray(k).T) / 2
        if not is_fin(k):
            return []
        d = np.abs(np.diag(k)).reshape(-1, 5).max(axis=0) ** 0.5
        s = np.tile(np.where(d > 0, d, 1), k.shape[0] // 5)
        w, v = np.linalg.eigh(k / np.outer(s, s))
        v = v[:, 0] / s
        v = v / max(abs(v).max(), 1e-300)
        return [[n, [num(round(x, 9)) for x in v[5 * i:5 * i + 5]]] for n, i in numbering(mesh)]

    def op_start(self, op, obs):
        n = 5 * len(self.meshes[op['o']].nodes)
        if op['kind'] == 'zero':
            k = np.zeros((n, n))
        else:
            r = random.Random(self.sc['id'])
            k = np.array([[r.randint(-20, 20) / 4 for _ in range(n)] for _ in range(n)])
            if op['kind'] == 'fort':
                k = np.asfortranarray(k)
            if op['kind'] == 'view':            # part of a larger matrix
                big = np.zeros((n + 10, n + 5))
                big[5:n + 5, 5:] = k
                k = big[5:n + 5, 5:]
        self.keep(op, k, obs)

    def op_k0s(self, op, obs):
        mesh = self.meshes[op['o']]
        k = self.mats[op['h']]
        before = np.array(k)
        kw = dict(method=op['method'], alpha=flt(op['alpha']), maxl_from_area=op['mfa'])
        if op['dflt']:
            kw = {}
        try:
            r = self.pure(mesh, obs, lambda: add_k0s(k, mesh, op['pfn'], **kw), untouched=True)
        finally:
            obs['kept'] = bool(np.array_equal(before, k))
            obs['idx'] = numbering(mesh)
            obs['ord'] = orders(mesh)
        obs['ret'] = r is k or (isinstance(r, np.ndarray) and np.shares_memory(r, k) and r.shape == k.shape)
        self.keep(op, k, obs)
        if PROP == 'C17':
            obs['wit'] = self.witness(mesh, k - before)
        if PROP == 'C30':
            name = {'cell-based': 'cell_based', 'cell-based-no-smoothing': 'cell_based_no_smoothing', 'edge-based': 'edge_based'}[op['method']]
            try:
                one = importlib.import_module('meshless.espim.plate2d_add_k0s_' + name).add_k0s
            except (ImportError, AttributeError):       # reached through add_k0s only
                one = None
            if one is not None and 'silent' in inspect.signature(one).parameters:
                def again(s):
                    c = before.copy()
                    one(c, mesh, op['pfn'], flt(op['alpha']), op['mfa'], silent=s)
                    return c.tolist()
                self.loud(obs, again)

    def op_kG(self, op, obs):
        mesh = self.meshes[op['o']]
        n = 5 * len(mesh.nodes)
        self.nkg += 1
        k = (self.sc['id'] + self.nkg) % 4
        vals = [flt(x) for _, v in op['d'] for x in v]
        if k == 0 and len(self.dvec) == n and self.dvec.dtype == float:   # the array of the last call, with other values
            d = self.dvec
            d[:] = 0
        elif k == 2 and all(x == int(x) and abs(x) < 2**30 for x in vals):  # whole numbers
            d = np.zeros(n, dtype=int)
        elif k == 3 and all(x == np.float32(x) for x in vals):              # single precision
            d = np.zeros(n, dtype=np.float32)
        elif k == 1:                            # part of a larger array
            d = np.full(2 * n + 3, 7.)[3::2]
            d[:] = 0
        else:
            d = np.zeros(n)
        self.dvec = d
        for i, v in op['d']:
            j = int(mesh.nodes[i].index)
            d[5 * j:5 * j + 5] = [flt(x) for x in v]
        k = self.pure(mesh, obs, lambda: calc_kG(d, mesh, op['pfn']), untouched=True, watch=(d,))
        obs['idx'] = numbering(mesh)
        obs['ord'] = orders(mesh)
        self.keep(op, k, obs)
        if PROP == 'C30':
            self.loud(obs, lambda s: calc_kG(d, mesh, op['pfn'], silent=s).tolist())

    def op_mids(self, op, obs):
        mesh = self.meshes[op['o']]
        mid = lambda m: [num(x) for x in np.asarray(m).ravel()]

        def f():
            obs['el'] = [{'id': int(k), 'm': mid(getMid(t))} for k, t in mesh.elements.items()]
            obs['ed'] = [{'n': edge_key(e), 'm': mid(e.getMid())} for e in mesh.edges.values()]
        self.pure(mesh, obs, f)

    def op_cmp(self, op, obs):
        pass

    def op_live(self, op, obs):
        """No earlier result has changed behind its owner's back; meshes still as read."""
        obs['mats'] = all(np.array_equal(self.mats[h], self.dis[h], equal_nan=True) for h in self.mats)
        obs['clouds'] = self.clouds_same()
        ms = list(self.meshes.values())
        obs['leak'] = any(parts(a) & parts(b) for i, a in enumerate(ms) for b in ms[:i])


def mesh_brief(m):
    return ([(k, [float(x) for x in n.xyz], sorted(map(eid, n.trias))) for k, n in m.nodes.items()],
            [(k, [int(i) for i in t.node_ids]) for k, t in m.elements.items()],
            sorted((edge_key(e), [eid(t) for t in e.trias]) for e in m.edges.values()))


def on_alarm(*a):
    raise Timeout('no answer in %d s' % LIMIT)


def run(path):
    global LIMIT
    if LIMIT < 0:
        LIMIT = 5           # no point in waiting long again and again
    signal.signal(signal.SIGALRM, on_alarm)
    with open(path) as f:
        sc = json.load(f)
    tmp = tempfile.mkdtemp(prefix='espim')
    try:
        if IMPORT_ERROR is not None:
            for op in sc['ops']:
                op['obs'] = {'out': type(IMPORT_ERROR).__name__, 'why': str(IMPORT_ERROR)[:200], 'said': ''}
        else:
            w = World(sc, tmp)
            for op in sc['ops']:
                if LIMIT < 0:       # an earlier call of this execution did not come back
                    op['obs'] = {'out': 'Timeout', 'why': 'not tried', 'said': ''}
                    continue
                op['obs'] = w.do(op)
                if op['obs']['out'] == 'Timeout':
                    LIMIT = -LIMIT
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return json.dumps(sc)


def main():
    global PROP
    src, dst, PROP = sys.argv[1:4]
    files = sorted(glob.glob(os.path.join(src, '*.json')), key=lambda p: int(os.path.basename(p)[:-5]))
    with open(dst, 'w') as f:
        with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
            for line in pool.imap(run, files, chunksize=4):
                f.write(line + '\n')


if __name__ == '__main__':
    main()
