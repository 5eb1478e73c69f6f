"""A copy of the package rewritten without a change of behaviour (other formatting, local names, branches turned round,
loops over lists, helper variables), to see that the checks stay quiet on it:

    tools/benign.py OUT        # writes OUT/src
    VERIF_REPO_SRC=OUT/src python3 run.py P01 ...
"""
import ast
import shutil
import sys
from pathlib import Path

SRC = Path('/repo/src')


class Rewrite(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        args = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        args |= {a.arg for a in (node.args.vararg, node.args.kwarg) if a}
        free = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                free |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                return node  # nested functions: leave the names alone
        names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args - free
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + '_local'
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name):
            load = ast.Name(node.target.id, ast.Load())
            return ast.Assign([node.target], ast.BinOp(load, node.op, node.value))
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (isinstance(node.test, ast.Compare) and ast.unparse(node.test).startswith('__name__')):
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if isinstance(node.iter, ast.Call) and getattr(node.iter.func, 'id', '') == 'range':
            node.iter = ast.Call(ast.Name('list', ast.Load()), [node.iter], [])
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        return [ast.Assign([ast.Name('answer', ast.Store())], node.value), ast.Return(ast.Name('answer', ast.Load()))]

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)) and '__name__' not in ast.unparse(node):
            return ast.Compare(node.comparators[0], node.ops, [node.left])
        return node


def main(out):
    out = Path(out)
    shutil.rmtree(out / 'src', ignore_errors=True)
    shutil.copytree(SRC, out / 'src', ignore=shutil.ignore_patterns('__pycache__'))
    for f in sorted((out / 'src').rglob('*.py')):
        tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(f.read_text())))
        f.write_text(ast.unparse(tree) + '\n')
    print(out / 'src')


if __name__ == '__main__':
    main(sys.argv[1])
