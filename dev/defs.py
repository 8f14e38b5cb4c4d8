"""replace whole definitions: used by the corpora of refactorings"""
import ast, textwrap
ROOT = '/repo/modbus_tk/'


def seg(fn, qual):
    s = open(ROOT + fn).read()
    t = ast.parse(s)
    body = t.body
    node = None
    for part in qual.split('.'):
        node = [n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part][-1]
        body = node.body
    lines = s.split('\n')
    a = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    return '\n'.join(lines[a:node.end_lineno]), node.col_offset


def D(fn, qual, new):
    """replacement of the definition `qual` of file `fn` by the (dedented) source `new`"""
    old, col = seg(fn, qual)
    return (fn, old, textwrap.indent(textwrap.dedent(new).strip('\n'), ' ' * col))
