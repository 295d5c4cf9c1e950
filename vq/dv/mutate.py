"""Self tests: deliberately broken copies (in memory) of the functions under contract; the obligations must notice them."""
import ast, time
from .src import Sources, OutOfReach


class Mutate(ast.NodeTransformer):
    """Make the n-th applicable change of a function body."""
    def __init__(self, n):
        self.n, self.k, self.what = n, 0, None

    def hit(self, node, what):
        self.k += 1
        if self.k - 1 == self.n:
            self.what = '%s at line %s' % (what, getattr(node, 'lineno', '?'))
            return True
        return False

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.USub) and self.hit(node, 'minus dropped'):
            return node.operand
        if isinstance(node.op, ast.Not) and self.hit(node, 'not dropped'):
            return node.operand
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Sub)) and self.hit(node, 'sign flipped'):
            node.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        elif isinstance(node.op, (ast.Mult, ast.Div)) and self.hit(node, 'factor dropped'):
            return node.left
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Sub)) and self.hit(node, 'sign of an update flipped'):
            node.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        return node

    def visit_Expr(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Call) and self.hit(node, 'call dropped'):
            return ast.Pass()
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and self.hit(node, 'comparison negated'):
            return ast.UnaryOp(op=ast.Not(), operand=node)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit(node, 'and/or exchanged'):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('conjugate', 'conj') and not node.args and self.hit(node, 'conjugation dropped'):
            return node.func.value
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Tuple) and len(node.slice.elts) >= 2 and self.hit(node, 'indices exchanged'):
            e = node.slice.elts
            e[-1], e[-2] = e[-2], e[-1]
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, (int, float)) and not isinstance(node.value, bool) and self.hit(node, 'constant changed'):
            return ast.Constant(value=node.value + 1)
        return node


def find(S, rel, cls, name):
    m = S.module(rel)
    if cls is None:
        return m.funcs.get(name)
    c = m.classes.get(cls)
    for x in (c.body if c is not None else ()):
        if isinstance(x, ast.FunctionDef) and x.name == name:
            return x
    return None


def run(root, targets, check, per=4, seconds=6., stride=1):
    """targets: (rel, class, function); check(Sources) -> obligations.  For every broken copy: the worst status."""
    out, t0 = [], time.time()
    for rel, cls, name in targets:
        for n in range(per):
            if time.time() - t0 > seconds:
                return out
            S = Sources(root)
            try:
                f = find(S, rel, cls, name)
                if f is None:
                    break
                t = Mutate(n * stride)
                body = f.body[1:] if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else f.body
                f.body = [t.visit(x) for x in body]
                if t.what is None:
                    break
                ast.fix_missing_locations(f)
                st = [o['status'] for o in check(S)]
            except OutOfReach:
                st = ['undecided']
            s = 'refuted' if 'refuted' in st else 'undecided' if 'undecided' in st else 'not noticed'
            out.append({'function': '%s:%s%s' % (rel, cls + '.' if cls else '', name), 'change': t.what, 'obligations': s})
    return out
