"""
Systematic mutants of the code: every operator, constant, condition, statement and keyword argument is changed
once. For each mutant, a part of the cases (every STRIDE-th) of the checks which belong to the file runs on a copy
of /repo; what survives is written to the log, with the result of the stable tests.

mutate.py LOG [PART/PARTS] [file pattern]
"""
import ast
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRIDE = int(os.environ.get('STRIDE', '8'))
LIMIT = int(os.environ.get('LIMIT', '100'))
CHECKS = [
    ('coordinate_system', 'C01 C02 C03 C18'), ('_cluster', 'C18 C22 C20'), ('_dimension', 'C19 C21 C27'), ('_ballistic', 'C20 C21'),
    ('_dominating_set', 'C20 C21'), ('_shortest_path', 'C20 C21'), ('_line/_run', 'C20 C21 C22'), ('_evaluate', 'C20 C22 C21'),
    ('identify/_run', 'C22 C18'), ('identify/plot', 'C25'), ('_containers', 'C23 C22'), ('_shapes', 'C23 C21 C22'), ('nodefinder/io', 'C13 C23'),
    ('_controller.py', 'C10 C08 C14 C09 C11 C27 C12 C15 C07 C04'), ('_fake_potential', 'C07'), ('_mesh_helper', 'C16 C17'), ('_nelder_mead', 'C06 C05'),
    ('_minimization/_run', 'C06 C07 C05'), ('search/plot', 'C24'), ('_queue', 'C26 C08 C11 C10'), ('search/_run', 'C15 C14 C04 C27'),
    ('refinement_stencil', 'C17'), ('_cell_list', 'C03 C04'), ('_controller_state', 'C13 C11 C12'), ('result/_minimization', 'C13 C05'),
    ('_search_result_container', 'C03 C04 C07 C13 C10 C09'), ('_common_plot', 'C24 C25'),
]
COMPARE = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BINOP = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['//'], ast.Pow: ['*'], ast.MatMult: [], ast.BitOr: ['&'], ast.BitAnd: ['|']}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'argmin': 'argmax', 'argmax': 'argmin', 'minimum': 'maximum', 'maximum': 'minimum',
         'floor': 'ceil', 'ceil': 'floor', 'zeros': 'ones', 'ones': 'zeros', 'sorted': 'list', 'append': 'remove', 'combinations': 'permutations', 'cos': 'sin', 'sin': 'cos'}


class Source:
    def __init__(self, path):
        with open(path) as file:
            self.text = file.read()
        self.tree = ast.parse(self.text)
        self.starts = [0]
        for line in self.text.splitlines(True):
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.data = self.text.encode()

    def span(self, node):
        return self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset

    def get(self, node):
        a, b = self.span(node)
        return self.data[a:b].decode()


def mutants(src):
    """(start, end, new text, line)"""
    docs = set()
    for node in ast.walk(src.tree):
        body = getattr(node, 'body', None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            docs.add(id(body[0]))
            docs.add(id(body[0].value))
    skip = set()
    for node in ast.walk(src.tree):  # messages and logging
        if isinstance(node, ast.Raise) or isinstance(node, ast.Call) and re.search(r'LOGGER|warn', src.get(node.func)):
            skip |= {id(x) for x in ast.walk(node)} - {id(node)}
    for node in ast.walk(src.tree):
        if id(node) in skip or id(node) in docs:
            continue

        def between(left, right, new):
            a, b = src.span(left)[1], src.span(right)[0]
            mid = src.data[a:b].decode()
            found = re.search(r'[^\s()\\]+(\s+(in|not)\b)?', mid)
            if found is None:
                return None
            return a + len(mid[:found.start()].encode()), a + len(mid[:found.end()].encode()), new, node.lineno

        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for new in COMPARE.get(type(node.ops[0]), []):
                yield between(node.left, node.comparators[0], new)
        elif isinstance(node, ast.BinOp):
            for new in BINOP.get(type(node.op), []):
                yield between(node.left, node.right, new)
        elif isinstance(node, ast.AugAssign):
            yield between(node.target, node.value, {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*=', ast.Mod: '//='}.get(type(node.op), '='))
        elif isinstance(node, ast.BoolOp):
            yield between(node.values[0], node.values[1], 'or' if isinstance(node.op, ast.And) else 'and')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            a, b = src.span(node)
            yield a, b, '(' + src.get(node.operand) + ')', node.lineno
        elif isinstance(node, ast.Constant):
            a, b = src.span(node)
            val = node.value
            if isinstance(val, bool):
                yield a, b, str(not val), node.lineno
            elif isinstance(val, int):
                yield a, b, '(' + str(val + 1) + ')', node.lineno
                yield a, b, '(' + str(val - 1) + ')', node.lineno
            elif isinstance(val, float):
                yield a, b, '(' + repr(val * 2 or 0.5) + ')', node.lineno
        elif isinstance(node, (ast.Name, ast.Attribute)):
            name = node.id if isinstance(node, ast.Name) else node.attr
            if name in NAMES and isinstance(node.ctx, ast.Load):
                a, b = src.span(node)
                yield b - len(name), b, NAMES[name], node.lineno
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            a, b = src.span(node.test)
            if not isinstance(node, ast.While):
                yield a, b, 'True', node.lineno
            yield a, b, 'False', node.lineno
        if isinstance(node, ast.comprehension):
            for cond in node.ifs:
                a, b = src.span(cond)
                yield a, b, 'True', cond.lineno
        if isinstance(node, (ast.Break, ast.Continue)):
            a, b = src.span(node)
            yield a, b, 'continue' if isinstance(node, ast.Break) else 'break', node.lineno
        if isinstance(node, (ast.Expr, ast.AugAssign, ast.Raise, ast.Assign, ast.Assert)):
            a, b = src.span(node)
            text = src.get(node)
            if 'LOGGER' not in text and not text.startswith('from'):
                yield a, b, 'pass', node.lineno
        if isinstance(node, ast.Call):
            for kw in node.keywords:
                a, b = src.span(kw)
                rest = re.match(rb'\s*,', src.data[b:])
                yield a, b + (rest.end() if rest else 0), '', kw.value.lineno
            if len(node.args) == 1 and not node.keywords and src.get(node.func) in ('tuple', 'list', 'np.array', 'sorted', 'np.copy', 'copy.copy', 'set', 'abs', 'np.abs'):
                a, b = src.span(node)
                yield a, b, '(' + src.get(node.args[0]) + ')', node.lineno


def main():
    log = sys.argv[1]
    part, parts = map(int, (sys.argv[2] if len(sys.argv) > 2 else '0/1').split('/'))
    pattern = sys.argv[3] if len(sys.argv) > 3 else ''
    scratch = tempfile.mkdtemp(prefix='mutate.')
    verif = os.path.join(scratch, 'verif')
    os.mkdir(verif)
    for name in ('mc', 'shim', 'check', 'KNOWN_FINDINGS.txt'):
        if os.path.isdir(os.path.join(VERIF, name)):
            shutil.copytree(os.path.join(VERIF, name), os.path.join(verif, name))
        elif os.path.exists(os.path.join(VERIF, name)):
            shutil.copy2(os.path.join(VERIF, name), os.path.join(verif, name))
    path = os.path.join(verif, 'mc', 'main.py')
    with open(path) as file:
        text = file.read()
    text = text.replace('    cases = list(module.cases(tier))\n', '    cases = list(module.cases(tier))[{0} // 2::{0}]\n'.format(STRIDE)).replace("and hasattr(module, 'finish')", 'and False')
    with open(path, 'w') as file:
        file.write(text)
    repo = os.path.join(scratch, 'repo')
    shutil.copytree('/repo', repo, symlinks=True)
    files = subprocess.run(['git', '-C', repo, 'ls-files', 'nodefinder'], capture_output=True, text=True).stdout.split()
    todo = []
    for name in files:
        if not name.endswith('.py') or '_logging' in name or not re.search(pattern, name):
            continue
        checks = next((c for p, c in CHECKS if p in name), None)
        if checks is None:
            continue
        src = Source(os.path.join(repo, name))
        seen = set()
        for mut in mutants(src):
            if mut is None or mut[:3] in seen or src.data[mut[0]:mut[1]].decode() == mut[2]:
                continue
            seen.add(mut[:3])
            new = src.data[:mut[0]] + mut[2].encode() + src.data[mut[1]:]
            try:
                compile(new, name, 'exec')
            except (SyntaxError, ValueError):
                continue
            ident = hashlib.sha1((name + str(mut)).encode()).hexdigest()[:8]
            todo.append((ident, name, mut, src, new, checks.split()))
    todo.sort(key=lambda x: x[0])
    todo = todo[part::parts]
    if os.environ.get('ONLY'):  # a log: what survived there, with all cases (STRIDE=1)
        with open(os.environ['ONLY']) as file:
            only = {line.split()[1] for line in file if line.startswith('SURVIVED')}
        todo = [x for x in todo if x[0] in only]
    done = set()
    if os.path.exists(log):
        with open(log) as file:
            done = {line.split()[1] for line in file if len(line.split()) > 1}
    print(len(todo), 'mutants', flush=True)
    for ident, name, mut, src, new, checks in todo:
        if ident in done:
            continue
        target = os.path.join(repo, name)
        with open(target, 'wb') as file:
            file.write(new)
        killed = None
        for check in checks:
            env = dict(os.environ, NODEFINDER_REPO=repo)
            proc = subprocess.Popen([os.path.join(verif, 'check'), check], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=env, text=True, start_new_session=True)
            try:
                out, _ = proc.communicate(timeout=LIMIT)
                rc = proc.returncode
            except subprocess.TimeoutExpired:
                os.killpg(proc.pid, 9)
                proc.wait()
                killed = check + ' timeout'
                break
            if rc:
                killed = check + ' exit {}'.format(rc)
                break
        old = src.data[mut[0]:mut[1]].decode()
        line = src.text.splitlines()[mut[3] - 1].strip()
        text = '{}:{} `{}` -> `{}` in `{}`'.format(name.replace('nodefinder/', ''), mut[3], ' '.join(old.split())[:60], mut[2], line[:90])
        if killed is None:
            res = subprocess.run('/opt/venv/bin/python -c "import nodefinder, nodefinder.search, nodefinder.identify"', shell=True, cwd=repo, capture_output=True)
            killed_by = 'survived' if not res.returncode else 'import fails'
        else:
            killed_by = 'killed ' + killed
        with open(log, 'a') as file:
            file.write('{} {} {}\n'.format('SURVIVED' if killed is None else 'killed', ident, killed_by + ' | ' + text))
        with open(target, 'wb') as file:
            file.write(src.data)
    shutil.rmtree(scratch)


if __name__ == '__main__':
    main()
