"""What each check runs: which models are checked exhaustively (with constants
for the quick and the thorough tier), and which behaviours are generated,
replayed and validated."""

ASSUME = ['TLC and the exact-rational override (checked by RatCheck) evaluate the specification correctly',
          'observations are projections of public attributes and return values, taken by the replay driver',
          'floating-point results are compared with the exact value within 1e-9 of the largest term of their kind']

INIT = 'INIT Init\nNEXT Next\nVIEW view\n'
PLAIN = 'INIT Init\nNEXT Next\n'


def mesh(*inv):
    return {'kind': 'mc', 'module': 'MCMesh', 'consts': {'N': 2, 'MaxTris': (3, 5), 'Mode': '"all"'},
            'spec': INIT + 'INVARIANTS ' + ' '.join(inv)}


def stiff(*inv):
    return {'kind': 'mc', 'module': 'MCStiff', 'consts': {'N': 2, 'MaxTris': (2, 4)},
            'spec': INIT + 'INVARIANTS ' + ' '.join(inv)}


SESSION = {'kind': 'mc', 'module': 'MCSession', 'consts': {'MaxTerms': (1, 2), 'MaxOps': (8, 100000)}, 'workers': ('1', '8'),
           'spec': INIT + 'CONSTRAINT Bound\nINVARIANTS TypeOK NumbersFirst NeverStale FinNeverReady\n'
           'PROPERTIES RefusalKeepsMatrices ValueErrorKeepsAll Independent OneHandle ComputingKeepsInputs ValidInputSucceeds'}


def espim(q, t=3000, mq=6, mt=10, big=130, **kw):
    return dict({'kind': 'conf', 'gen': 'Gen', 'drive': 'drive_espim.py', 'trace': 'TraceEspim',
                 'chains': (q, t), 'env': {'MAXT': (mq, mt), 'BIGN': big, 'EVERY': (150, 100)}}, **kw)


def cover(q, t=16000):
    return {'kind': 'cover', 'drive': 'drive_espim.py', 'trace': 'TraceEspim', 'deep': ('0', '1'), 'take': (q, t)}


def misc(q, t=6000, **kw):
    return dict({'kind': 'conf', 'gen': 'GenMisc', 'drive': 'drive_misc.py', 'trace': 'TraceMisc', 'chains': (q, t), 'batch': 400}, **kw)


LAGRANGE = {'kind': 'mc', 'module': 'MCLagrange', 'consts': {'MaxX': (2, 3), 'MaxY': (2, 3), 'MaxZ': (2, 3)},
            'spec': 'INIT Init\nNEXT Next\nINVARIANTS Exact Exact2 Nodal ListingOrder'}
POLYGON = {'kind': 'mc', 'module': 'MCPolygon', 'consts': {'N': 3, 'MaxV': (5, 7)},
           'spec': INIT + 'INVARIANTS AreaIsShoelace AnyStart AnyDirection AnyPlace Simple'}
EXPR = {'kind': 'mc', 'module': 'MCExpr', 'consts': {'Part': (127, 8)},
        'spec': PLAIN + 'INVARIANTS ValueKept NoneLeft OthersKept Idempotent'}
FILES = {'kind': 'mc', 'module': 'MCFiles', 'consts': {'Sufs': ('{""}', '{"", "a"}')},
         'spec': INIT + 'PROPERTIES OnlyOwnFile LatestText OffWritesNothing'}


def printer(inv):
    return {'kind': 'mc', 'module': 'MCPrinter', 'consts': {'Kinds': '{1, 2}', 'MaxR': 2, 'MaxC': (2, 3)},
            'spec': PLAIN + 'INVARIANTS ' + inv}


def text(quick, deep):
    return {'kind': 'conf', 'gen': 'GenText', 'drive': 'drive_text.py', 'trace': 'TraceText', 'chains': (quick, deep), 'batch': 400}


PLAN = {
    'C01': [mesh('GrowthConforms', 'IsManifold', 'CountSides'), espim(400, mq=12, mt=20, big=290)],
    'C02': [mesh('GrowthConforms', 'IsManifold', 'CountSides'), espim(300, mq=10, mt=16, big=290)],
    'C03': [mesh('GrowthConforms', 'IsManifold'), espim(300, mq=8, mt=14, big=290)],
    'C04': [mesh('AreasTile', 'DomainsClosed', 'Outward'), espim(360)],
    'C05': [mesh('LinearFieldsReproduced', 'DomainsClosed'), espim(360)],
    'C06': [mesh('SmoothingIsMean', 'OrderFree'), stiff('K0Structure'), espim(300)],
    'C07': [stiff('K0Structure'), espim(300)],
    'C08': [stiff('Patch'), espim(300)],
    'C09': [stiff('Patch'), espim(240, big=40)],
    'C10': [SESSION, espim(300, big=40), cover(300)],
    'C11': [mesh('OrderFree'), stiff('Indifferent'), espim(300, big=60)],
    'C12': [SESSION, espim(360, big=60), cover(450)],
    'C13': [SESSION, espim(360, big=60), cover(450)],
    'C14': [stiff('ShearStructure'), espim(300)],
    'C15': [stiff('ShearStructure'), espim(300)],
    'C16': [stiff('ShearStructure'), espim(300)],
    'C17': [stiff('ShearStructure'), espim(240)],
    'C18': [stiff('ShearStructure'), espim(240, big=60)],
    'C19': [stiff('ShearStructure'), espim(240)],
    'C20': [stiff('KGStructure'), espim(300)],
    'C21': [stiff('KGStructure'), espim(300, big=40)],
    'C22': [LAGRANGE, misc(1200)],
    'C23': [LAGRANGE, misc(600)],
    'C24': [EXPR, text(750, 4000)],
    'C25': [printer('DenseDenotes'), text(1000, 10000)],
    'C26': [printer('SparseDenotes'), text(1000, 10000)],
    'C27': [printer('ArrayDenotes'), text(1000, 10000)],
    'C28': [FILES, text(750, 6000)],
    'C29': [POLYGON, misc(600), espim(240, big=60)],
    'C30': [SESSION, espim(300, big=60), misc(600)],
}

TECHNIQUE = {}


def TECH(i):
    mods = [s['module'] for s in PLAN[i] if s['kind'] == 'mc']
    tr = sorted(set(s['trace'] for s in PLAN[i] if s['kind'] != 'mc'))
    return ('TLA+ specification model-checked by TLC%s; behaviours generated from it replayed on the code and the recorded '
            'executions validated against it (%s)' % (' (' + ', '.join(mods) + ')' if mods else '', ', '.join(tr)))


def NOTE(i):
    return ('Exhaustive for the model within the stated constants; for the code, every generated behaviour is checked in exact '
            'rational arithmetic against the specification (bounded sample: mesh size, number of behaviours and seeds as in the '
            'evidence). ' + 'Trusts TLC, the rational override (self-checked) and the replay driver\'s projection of public state.')
