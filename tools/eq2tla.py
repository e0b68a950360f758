#!/usr/bin/env python3
"""Development aid: expands `@@name = formula` lines of a template into TLA+ definitions over Float64.

Usage: eq2tla.py template > module.tla.  The checks never run it; the expanded modules are the
specification."""
import ast, re, sys
OPS = {ast.Add: (r'\oplus', 10), ast.Sub: (r'\ominus', 11), ast.Mult: (r'\otimes', 13), ast.Div: (r'\oslash', 13.5)}
CMP = {ast.Lt: r'\prec', ast.LtE: r'\preceq', ast.Gt: r'\succ', ast.GtE: r'\succeq'}
FN = dict(sin='Sin', cos='Cos', atan2='Atan2', sqrt='Sqrt', abs='Abs', rem='Rem', mod='Mod', floor='Floor', max='Max', pow='Pow', neg='Neg', sq='Sq')
def lit(src): return f'F("{src}")'
def conv(n, src):
    """-> (text, kind) kind: 'atom' or op class"""
    if isinstance(n, ast.Constant):
        return lit(ast.get_source_segment(src, n)), 'atom'
    if isinstance(n, ast.Name):
        return {'pi': 'Pi', 'twopi': 'TwoPi'}.get(n.id, n.id), 'atom'
    if isinstance(n, ast.Attribute):
        return conv(n.value, src)[0] + '.' + n.attr, 'atom'
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        if isinstance(n.operand, ast.Constant):
            return lit('-' + ast.get_source_segment(src, n.operand)), 'atom'
        return f'Neg({conv(n.operand, src)[0]})', 'atom'
    if isinstance(n, ast.Call):
        return FN.get(n.func.id, n.func.id) + '(' + ', '.join(conv(a, src)[0] for a in n.args) + ')', 'atom'
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, ast.Pow):
            b = conv(n.left, src)[0]
            if isinstance(n.right, ast.Constant) and isinstance(n.right.value, int):
                return (f'Sq({b})' if n.right.value == 2 else f'PowI({b}, {n.right.value})'), 'atom'
            return f'Pow({b}, {conv(n.right, src)[0]})', 'atom'
        t = type(n.op); sym = OPS[t][0]
        l, lk = conv(n.left, src); r, rk = conv(n.right, src)
        def ok_left(k):
            if k == 'atom': return True
            if t in (ast.Add, ast.Sub): return k in (ast.Mult,) or (k == t)
            return k == t and t == ast.Mult
        def ok_right(k):
            if k == 'atom': return True
            if t in (ast.Add, ast.Sub): return k in (ast.Mult,)
            return False
        if not ok_left(lk): l = f'({l})'
        if not ok_right(rk): r = f'({r})'
        return f'{l} {sym} {r}', t
    if isinstance(n, ast.Compare):
        l, lk = conv(n.left, src); r, rk = conv(n.comparators[0], src)
        w = lambda s, k: s if k == 'atom' else f'({s})'
        return f'{w(l, lk)} {CMP[type(n.ops[0])]} {w(r, rk)}', 'cmp'
    if isinstance(n, ast.IfExp):
        return f'IF {conv(n.test, src)[0]} THEN {conv(n.body, src)[0]} ELSE {conv(n.orelse, src)[0]}', 'if'
    raise SystemExit('unsupported ' + ast.dump(n))
def wrap(text, indent, width=92):
    out, line = [], ''
    for w in text.split(' '):
        if line and len(indent) + len(line) + 1 + len(w) > width:
            out.append(line); line = w
        else:
            line = w if not line else line + ' ' + w
    out.append(line)
    return ('\n' + indent).join(out)
for raw in open(sys.argv[1]):
    m = re.match(r'^(\s*)@@(\w+)(\s*)=\s*(.*)$', raw.rstrip('\n'))
    if not m:
        def sub(m):
            src = m.group(1)
            return conv(ast.parse(src, mode='eval').body, src)[0]
        new = re.sub(r'@\{(.*?)\}', sub, raw.rstrip('\n'))
        if len(new) > 96 and '@{' in raw:
            lead = re.match(r'^\s*', new).group(0)
            ind = re.match(r'^\s*(IN )?\[?(\w+ (\|->|==) )?', new).group(0)
            new = lead + wrap(new[len(lead):], ' ' * len(ind))
        print(new)
        continue
    ind, name, _, src = m.groups()
    head = f'{ind}{name} == '
    print(head + wrap(conv(ast.parse(src, mode='eval').body, src)[0], ' ' * len(head)))
