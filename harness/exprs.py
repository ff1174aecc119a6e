"""Arithmetic expressions as the specification (spec/Expr.tla) reads them:
text -> tree, tree -> sympy."""
import ast, re, zlib
from fractions import Fraction


def h(name):
    return zlib.crc32(name.encode()) % 9973


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.FloorDiv: '//',
       ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.And: 'and', ast.Or: 'or'}


def literal(text, node, before):
    """node is a positive integer written right where the exponent belongs"""
    if not (isinstance(node, ast.Constant) and type(node.value) is int and node.value > 0):
        return False
    i = node.col_offset - 1
    while i >= 0 and text[i] in ' \t':
        i -= 1
    return text[max(0, i + 1 - len(before)):i + 1] == before


def conv(text, n):
    c = lambda m: conv(text, m)
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
        t = text[n.col_offset:n.end_col_offset]
        f = Fraction(t)
        return ['n', str(f), t]
    if isinstance(n, ast.Name):
        return ['v', n.id, h(n.id)]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
        return ['u', '-' if isinstance(n.op, ast.USub) else '+', c(n.operand)]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return ['u', 'not', c(n.operand)]
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in OPS:
        return ['b', OPS[type(n.ops[0])], c(n.left), c(n.comparators[0])]
    if isinstance(n, ast.BoolOp):
        e = c(n.values[0])
        for m in n.values[1:]:
            e = ['b', OPS[type(n.op)], e, c(m)]
        return e
    if isinstance(n, ast.IfExp):
        return ['q', c(n.test), c(n.body), c(n.orelse)]
    if isinstance(n, ast.BinOp) and type(n.op) in OPS:
        return ['b', OPS[type(n.op)], c(n.left), c(n.right)]
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow):
        return ['p', c(n.left), c(n.right), literal(text, n.right, '**')]
    if isinstance(n, ast.Call) and not n.keywords:
        if isinstance(n.func, ast.Name) and n.func.id == 'pow' and len(n.args) == 2:
            return ['p', c(n.args[0]), c(n.args[1]), literal(text, n.args[1], ',')]
        f = ast.unparse(n.func)
        if isinstance(n.func, (ast.Name, ast.Attribute)):
            return ['c', f, h(f), [c(a) for a in n.args]]
    if isinstance(n, ast.Subscript):
        idx = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        return ['i', c(n.value), [c(a) for a in idx]]
    if isinstance(n, ast.Attribute):
        return ['a', c(n.value), n.attr, h(n.attr)]
    raise ValueError('not an arithmetic expression: %s' % type(n).__name__)


def parse(text):
    try:
        t = text.strip()
        if '\n' in t:
            raise ValueError('several lines')
        return conv(t, ast.parse(t, mode='eval').body)
    except RecursionError:
        return ['bad', 'too deep']
    except Exception as e:
        return ['bad', '%s: %s' % (type(e).__name__, str(e)[:80])]


def to_sympy(e):
    import sympy as sp
    k = e[0]
    if k == 'n':
        f = Fraction(e[1])
        return sp.Integer(f.numerator) if e[2].isdigit() else sp.Float(float(f))
    if k == 'v':
        return sp.Symbol(e[1])
    if k == 'u':
        return -to_sympy(e[2]) if e[1] == '-' else to_sympy(e[2])
    if k == 'b':
        a, b = to_sympy(e[2]), to_sympy(e[3])
        return a + b if e[1] == '+' else a - b if e[1] == '-' else a * b if e[1] == '*' else a / b
    if k == 'p':
        return to_sympy(e[1]) ** to_sympy(e[2])
    if k == 'c':
        args = [to_sympy(a) for a in e[3]]
        if e[1] in ('sin', 'cos', 'sqrt'):
            return getattr(sp, e[1])(*args)
        return sp.Function(e[1])(*args)
    raise ValueError(k)
