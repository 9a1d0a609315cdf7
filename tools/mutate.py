"""
Mutation campaign: small syntactic changes of /repo's sources, which pass the
stable tests, against the checks (with fewer cases than a quick run).

    python3 tools/mutate.py [--files PART] [--number N] [--seed S] [-j N]
                            [--scale X] [--out FILE]

Prints one line per mutant: tests (fails the existing tests), the check which
caught it, or SURVIVED with the change.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import REPO, VERIF, sh, tests_pass

CHECKS = {
    'coordinate_system.py': 'C01 C02 C16 C22 C25 C27',
    'identify/_cluster.py': 'C12 C15 C22 C25',
    'identify/plot.py': 'C19 C22',
    '_common_plot.py': 'C19',
    'search/plot.py': 'C19 C22',
    'identify/_evaluate/_point.py': 'C16 C15 C23',
    'identify/_evaluate/_line': 'C14 C15 C24 C25',
    'identify/_evaluate/_run.py': 'C15 C16 C14 C11',
    'identify/result': 'C11 C14 C15 C16 C19',
    'identify/_dimension.py': 'C13 C15 C14 C16 C25',
    'identify/_run.py': 'C15 C12 C22 C16 C14 C13 C27',
    'search/_mesh_helper.py': 'C20 C05 C25',
    'search/_controller.py':
    'C05 C03 C07 C06 C08 C09 C17 C18 C21 C22 C25 C23 C24 C20',
    'search/refinement_stencil.py': 'C20 C05 C24 C25',
    'search/_fake_potential.py': 'C21 C25 C06 C24',
    'search/_queue.py': 'C05 C07 C08 C17 C11 C06 C18',
    'search/_minimization/_nelder_mead.py': 'C04 C21 C25 C03 C17 C06 C22',
    'search/_minimization/_run.py': 'C21 C04 C03 C25 C23 C22 C11',
    'search/result/_search_result_container.py':
    'C03 C10 C11 C08 C06 C21 C22 C25',
    'search/result/_controller_state.py': 'C11 C08 C22',
    'search/result/_cell_list.py': 'C10 C03 C06 C11',
    'search/result/_minimization.py': 'C11 C04 C03 C21 C19',
    'search/_run.py': 'C05 C08 C09 C17 C18 C03 C07 C21 C22 C20 C11 C25 C27',
    'io.py': 'C11 C08 C09',
}
SKIP_LINES = ('LOGGER', 'import ', 'warnings.warn', '__version__')


class Collector(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line))
        self.out = []

    def off(self, line, col):
        raw = self.lines[line - 1].encode()[:col].decode()
        return self.starts[line - 1] + len(raw)

    def span(self, node):
        return (self.off(node.lineno, node.col_offset),
                self.off(node.end_lineno, node.end_col_offset))

    def src(self, node):
        a, b = self.span(node)
        return self.text[a:b]

    def add(self, node, new):
        a, b = self.span(node)
        line = self.lines[node.lineno - 1]
        if any(s in line for s in SKIP_LINES):
            return
        if self.text[a:b] != new:
            self.out.append((a, b, new, node.lineno))

    def between(self, left, right, new):
        a = self.span(left)[1]
        b = self.span(right)[0]
        old = self.text[a:b]
        # keep brackets and line breaks
        stripped = old.strip(' \n()\\')
        if not stripped:
            return
        i = old.index(stripped)
        self.out.append(
            (a + i, a + i + len(stripped), new, left.end_lineno)
        )

    def visit_Compare(self, node):
        table = {
            ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'],
            ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
            ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'],
            ast.IsNot: ['is']
        }
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            for new in table[type(op)]:
                self.between(left, right, new)
            left = right
        self.generic_visit(node)

    def visit_BinOp(self, node):
        table = {
            ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'],
            ast.FloorDiv: ['/'], ast.Mod: ['*'], ast.Pow: ['*'],
            ast.BitOr: ['&'], ast.BitAnd: ['|'], ast.MatMult: []
        }
        if isinstance(node.left, ast.Constant) and isinstance(
            node.left.value, str
        ):
            return
        for new in table.get(type(node.op), []):
            self.between(node.left, node.right, new)
        self.add(node, self.src(node.left))
        self.add(node, self.src(node.right))
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        new = 'and' if isinstance(node.op, ast.Or) else 'or'
        for a, b in zip(node.values, node.values[1:]):
            self.between(a, b, new)
        for value in node.values:
            self.add(node, self.src(value))
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        self.add(node, self.src(node.operand))
        self.generic_visit(node)

    def visit_Constant(self, node):
        val = node.value
        if val is True or val is False:
            self.add(node, repr(not val))
        elif isinstance(val, int):
            self.add(node, repr(val + 1))
            if val:
                self.add(node, '({})'.format(val - 1))
        elif isinstance(val, float):
            self.add(node, repr(val * 2))
            self.add(node, repr(val / 2))
        elif val is None:
            pass

    def visit_If(self, node):
        self.add(node.test, 'not ({})'.format(self.src(node.test)))
        self.add(node.test, 'False')
        self.add(node.test, 'True')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, '({})'.format(self.src(node.body)))
        self.add(node, '({})'.format(self.src(node.orelse)))
        self.generic_visit(node)

    def visit_While(self, node):
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        self.add(node, 'pass')
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, 'pass')
        table = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}
        if type(node.op) in table:
            self.between(node.target, node.value, table[type(node.op)])
        self.generic_visit(node)

    def visit_Assign(self, node):
        if isinstance(node.targets[0], ast.Attribute):
            self.add(node, 'pass')
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None and not isinstance(
            node.value, ast.Constant
        ):
            self.add(node.value, 'None')
        self.generic_visit(node)

    def visit_Break(self, node):
        self.add(node, 'pass')
        self.add(node, 'continue')

    def visit_Continue(self, node):
        self.add(node, 'pass')
        self.add(node, 'break')

    def visit_Raise(self, node):
        self.add(node, 'pass')

    def visit_Call(self, node):
        swap = {
            'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
            'sorted': 'list', 'floor': 'ceil', 'ceil': 'floor',
            'append': 'appendleft', 'popleft': 'pop', 'sum': 'max',
            'average': 'median', 'abs': 'float', 'copy': None,
            'union': 'intersection', 'difference': 'union',
        }
        func = node.func
        name = getattr(func, 'attr', getattr(func, 'id', None))
        if swap.get(name):
            a, b = self.span(func)
            self.out.append((b - len(name), b, swap[name], func.end_lineno))
        if name in ('sorted', 'list', 'tuple', 'abs', 'deepcopy', 'copy',
                    'array', 'set', 'float', 'int') and len(node.args) == 1:
            self.add(node, self.src(node.args[0]))
        for kw in node.keywords:
            if kw.arg is None:
                continue
            a, b = self.span(kw)
            end = b
            while end < len(self.text) and self.text[end] in ' \n':
                end += 1
            if end < len(self.text) and self.text[end] == ',':
                b = end + 1
            else:
                while a and self.text[a - 1] in ' \n':
                    a -= 1
                if self.text[a - 1] == ',':
                    a -= 1
            line = self.lines[kw.value.lineno - 1]
            if not any(s in line for s in SKIP_LINES):
                self.out.append((a, b, '', kw.value.lineno))
        self.generic_visit(node)

    def visit_FunctionDef(self, node):
        for dec in node.decorator_list:
            if 'cache' in self.src(dec):
                pass
        self.generic_visit(node)

    visit_AsyncFunctionDef = visit_FunctionDef


class DeepCollector(Collector):
    """Other variables, swapped and moved statements, swapped arguments."""

    def __init__(self, text):
        super().__init__(text)
        self.rng = random.Random(1)
        self.names = []
        self.attrs = []

    def visit_ClassDef(self, node):
        self.attrs.append(sorted({
            n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute)
            and isinstance(n.value, ast.Name) and n.value.id == 'self'
        }))
        self.visit_block(node)
        self.attrs.pop()

    def visit_FunctionDef(self, node):
        args = node.args
        names = {a.arg for a in args.args + args.kwonlyargs}
        names |= {n.id for n in ast.walk(node) if isinstance(n, ast.Name)
                  and isinstance(n.ctx, ast.Store)}
        names.discard('self')
        self.names.append(sorted(names))
        for child in node.body:
            self.visit(child)
        self.blocks(node)
        self.names.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_block(self, node):
        ast.NodeVisitor.generic_visit(self, node)
        self.blocks(node)

    visit_If = visit_For = visit_While = visit_With = visit_block
    visit_Try = visit_AsyncWith = visit_block

    visit_Compare = visit_BinOp = visit_BoolOp = ast.NodeVisitor.generic_visit
    visit_UnaryOp = visit_IfExp = visit_Expr = ast.NodeVisitor.generic_visit
    visit_AugAssign = visit_Assign = ast.NodeVisitor.generic_visit
    visit_Return = ast.NodeVisitor.generic_visit

    def visit_Constant(self, node):
        pass

    visit_Break = visit_Continue = visit_Raise = visit_Constant

    def lines_of(self, node):
        first = node.lineno
        for dec in getattr(node, 'decorator_list', ()):
            first = min(first, dec.lineno)
        return first - 1, node.end_lineno

    def blocks(self, node):
        for name in ('body', 'orelse', 'finalbody'):
            block = getattr(node, name, None)
            if not isinstance(block, list):
                continue
            block = [b for b in block if isinstance(b, ast.stmt)]
            for one, two in zip(block, block[1:]):
                a, b = self.lines_of(one)
                c, d = self.lines_of(two)
                if isinstance(one, ast.Expr) and isinstance(
                    one.value, ast.Constant
                ):
                    continue
                self.replace_lines(
                    a, d, self.lines[c:d] + self.lines[b:c] + self.lines[a:b]
                )
                # move the second into the block of the first, at its end
                inner = getattr(one, 'body', None)
                if isinstance(inner, list) and not isinstance(
                    one, (ast.FunctionDef, ast.ClassDef)
                ) and not getattr(one, 'orelse', None) and not isinstance(
                    one, ast.Try
                ):
                    self.replace_lines(
                        c, d, ['    ' + l for l in self.lines[c:d]]
                    )
            # move the last statement out of the block
            if name == 'body' and len(block) > 1 and isinstance(
                node, (ast.If, ast.For, ast.While, ast.With, ast.AsyncWith)
            ) and not node.__dict__.get('orelse'):
                a, b = self.lines_of(block[-1])
                self.replace_lines(a, b, [
                    l[4:] if l.strip() else l for l in self.lines[a:b]
                ])
            for stmt in block:
                if isinstance(stmt, (ast.Assign, ast.AugAssign, ast.Delete)):
                    a, b = self.lines_of(stmt)
                    indent = len(self.lines[a]) - len(self.lines[a].lstrip())
                    self.replace_lines(a, b, [' ' * indent + 'pass\n'])

    def replace_lines(self, a, b, lines):
        if any(s in ''.join(self.lines[a:b]) for s in SKIP_LINES):
            return
        self.out.append(
            (self.starts[a], self.starts[b], ''.join(lines), a + 1)
        )

    def visit_Name(self, node):
        if not isinstance(node.ctx, ast.Load) or not self.names:
            return
        names = self.names[-1]
        if node.id not in names:
            return
        others = [n for n in names if n != node.id]
        for other in self.rng.sample(others, min(2, len(others))):
            self.add(node, other)

    def visit_Attribute(self, node):
        if isinstance(node.value, ast.Name) and node.value.id == 'self':
            others = [a for a in self.attrs[-1] if a != node.attr
                      ] if self.attrs else []
            for other in self.rng.sample(others, min(2, len(others))):
                self.add(node, 'self.' + other)
            return
        self.generic_visit(node)

    def visit_Call(self, node):
        for one, two in zip(node.args, node.args[1:]):
            a, b = self.span(one)
            c, d = self.span(two)
            line = self.lines[one.lineno - 1]
            if not any(s in line for s in SKIP_LINES):
                self.out.append((
                    a, d, self.text[c:d] + self.text[b:c] + self.text[a:b],
                    one.lineno
                ))
        ast.NodeVisitor.generic_visit(self, node)

    def visit_Slice(self, node):
        for part in (node.lower, node.upper):
            if part is not None:
                self.add(part, '')


def mutants(path, deep=False):
    with open(os.path.join(REPO, 'nodefinder', path)) as f:
        text = f.read()
    tree = ast.parse(text)
    col = (DeepCollector if deep else Collector)(text)
    col.visit(tree)
    res = []
    seen = set()
    for a, b, new, line in col.out:
        changed = text[:a] + new + text[b:]
        if changed in seen:
            continue
        seen.add(changed)
        try:
            if ast.dump(ast.parse(changed)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        ctx = text[text.rfind('\n', 0, a) + 1:text.find('\n', b)]
        res.append({
            'path': path, 'line': line, 'text': changed,
            'what': '{!r} -> {!r} in {!r}'.format(
                text[a:b], new, ctx.strip()[:160])
        })
    return res


LOCK = threading.Lock()


def evaluate(mutant, args, number):
    work = tempfile.mkdtemp(prefix='mutate-')
    try:
        repo = os.path.join(work, 'repo')
        subprocess.run(['cp', '-a', REPO, repo], check=True)
        with open(os.path.join(repo, 'nodefinder', mutant['path']), 'w') as f:
            f.write(mutant['text'])
        ok, _ = tests_pass(repo)
        if not ok:
            return 'tests'
        verif = os.path.join(work, 'verif')
        shutil.copytree(args.verif, verif, ignore=shutil.ignore_patterns(
            '.git', 'seeded', 'evidence', 'replays'))
        os.makedirs(os.path.join(verif, 'evidence'))
        key = max((k for k in CHECKS if mutant['path'].startswith(k)),
                  key=len)
        for prop in CHECKS[key].split():
            rc, out = sh(
                ['./check', prop], verif, {
                    'VERIF_REPO': repo, 'VERIF_SEED': '1',
                    'VERIF_NOSHRINK': '1', 'VERIF_SCALE': str(args.scale),
                    'VERIF_WORKERS': str(args.workers)
                }
            )
            if rc == 1 and 'VIOLATION' in out:
                return prop
            if rc != 0:
                return '{} BROKEN {} {}'.format(prop, rc, out[-400:])
        return 'SURVIVED'
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('--files', default='')
    parser.add_argument('--number', type=int, default=50)
    parser.add_argument('--seed', type=int, default=0)
    parser.add_argument('-j', type=int, default=4)
    parser.add_argument('--workers', type=int, default=3)
    parser.add_argument('--scale', type=float, default=.3)
    parser.add_argument('--verif', default=VERIF)
    parser.add_argument('--deep', action='store_true')
    parser.add_argument('--list', action='store_true')
    parser.add_argument('--out')
    args = parser.parse_args()
    everything = []
    for folder, _, names in os.walk(os.path.join(REPO, 'nodefinder')):
        for name in sorted(names):
            path = os.path.relpath(
                os.path.join(folder, name), os.path.join(REPO, 'nodefinder')
            )
            if not name.endswith('.py') or args.files not in path:
                continue
            if any(path.startswith(k) for k in CHECKS):
                everything += mutants(path, args.deep)
    everything.sort(key=lambda m: (m['path'], m['line'], m['what']))
    random.Random(args.seed).shuffle(everything)
    print(len(everything), 'mutants', flush=True)
    if args.list:
        return
    out = open(args.out, 'a') if args.out else None

    def run(item):
        number, mutant = item
        try:
            res = evaluate(mutant, args, number)
        except Exception as exc:
            res = 'ERROR {!r}'.format(exc)
        text = '{} {}:{} {}'.format(
            res, mutant['path'], mutant['line'], mutant['what'])
        with LOCK:
            print(text, flush=True)
            if out:
                print(text, file=out, flush=True)

    with ThreadPoolExecutor(args.j) as pool:
        list(pool.map(run, enumerate(everything[:args.number])))


if __name__ == '__main__':
    main()
