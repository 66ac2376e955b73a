"""Evaluation aid: makes small changes to the real code one by one (in scratch copies), keeps those that pass the stable tests, and
runs the quick checks whose evidence lists the changed function until one reports a violation.
usage: mutate.py OUT.jsonl [FILE ...]   (environment: WORKERS, LIMIT, SEED)"""
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1]
FILES = sys.argv[2:] or ['terms.py', 'doc.py', 'parser.py', 'rowgen.py', 'util.py', 'datapackage.py', 'cli.py']
WORKERS = int(os.environ.get('WORKERS', 4))
BUDGET = float(os.environ.get('MUT_BUDGET', 240))
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Lt: ast.LtE, ast.LtE: ast.Lt}


def sites(tree):
    """(function, description, replacer) for every change; the replacer changes a fresh copy of the tree"""
    out = []

    def visit(node, path, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [node.name]
        for field, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, c in enumerate(val):
                    if isinstance(c, ast.AST):
                        one(node, c, path + [(field, i)], fn)
                        visit(c, path + [(field, i)], fn)
            elif isinstance(val, ast.AST):
                one(node, val, path + [(field, None)], fn)
                visit(val, path + [(field, None)], fn)

    def add(fn, path, new, what, line):
        out.append(('.'.join(fn), line, what, path, new))

    def one(parent, n, path, fn):
        if not fn:
            return
        line = getattr(n, 'lineno', 0)
        src = ast.unparse(n)[:70]
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            m = copy.deepcopy(n)
            m.ops = [SWAP[type(n.ops[0])]()]
            add(fn, path, m, src + '  ->  ' + ast.unparse(m)[:70], line)
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            add(fn, path, m, src + '  ->  ' + ast.unparse(m)[:90], line)
            for i in range(len(n.values)):
                vs = [v for j, v in enumerate(n.values) if j != i]
                m = vs[0] if len(vs) == 1 else ast.BoolOp(n.op, vs)
                add(fn, path, m, src + '  ->  ' + ast.unparse(m)[:90], line)
        if isinstance(n, (ast.If, ast.While)) :
            for v in (True, False):
                m = copy.deepcopy(n)
                m.test = ast.Constant(v)
                if not (isinstance(n, ast.While) and v):
                    add(fn, path, m, 'if ' + ast.unparse(n.test)[:70] + '  ->  ' + str(v), line)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'strip', 'title', 'upper'):
            add(fn, path, n.func.value, src + '  ->  ' + ast.unparse(n.func.value)[:70], line)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'str', 'sorted', 'tuple', 'set') and len(n.args) >= 1:
            add(fn, path, n.args[0], src + '  ->  ' + ast.unparse(n.args[0])[:70], line)
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and False):
                add(fn, path, ast.Pass(), 'delete: ' + src, line)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Yield):
            add(fn, path, ast.Pass(), 'delete: ' + src, line)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(fn, path, ast.Constant(n.value + 1), src + ' -> ' + str(n.value + 1), line)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(fn, path, ast.Constant(not n.value), src + ' -> ' + str(not n.value), line)
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(fn, path, ast.Return(ast.Constant(None)), src + ' -> return None', line)
        if isinstance(n, (ast.Continue, ast.Break)):
            add(fn, path, ast.Pass(), src + ' -> pass', line)
        if isinstance(n, ast.ListComp) and n.generators[0].ifs:
            m = copy.deepcopy(n)
            m.generators[0].ifs = []
            add(fn, path, m, src + ' -> no if', line)
        if isinstance(n, ast.IfExp):
            add(fn, path, n.body, src + ' -> ' + ast.unparse(n.body)[:60], line)
            add(fn, path, n.orelse, src + ' -> ' + ast.unparse(n.orelse)[:60], line)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(fn, path, n.left, src + ' -> ' + ast.unparse(n.left)[:60], line)

    visit(tree, [], [])
    return out


def apply(src, path, new):
    tree = ast.parse(src)
    n = tree
    for field, i in path[:-1]:
        n = getattr(n, field) if i is None else getattr(n, field)[i]
    field, i = path[-1]
    if i is None:
        setattr(n, field, new)
    else:
        getattr(n, field)[i] = new
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def evidence():
    out = []
    for f in sorted(os.listdir(os.path.join(VERIF, 'evidence'))):
        e = json.load(open(os.path.join(VERIF, 'evidence', f)))
        c = e['coverage']
        out.append((e['property'], e.get('wall_s', 30), set(c['functions_encoded'])))
    return sorted(out, key=lambda e: e[1])


EV = evidence()
ANCHORS = {p['id']: json.dumps(p.get('anchors', p)) for p in map(json.loads, open(os.path.join(VERIF, 'properties.jsonl')))}


def work(args):
    k, (file, fn, line, what, code) = args
    w = slots.pop()
    try:
        repo, verif = w
        p = os.path.join(repo, 'metatab', file)
        orig = ORIG[file]
        open(p, 'w').write(code)
        try:
            env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1')
            r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'metatab/test/test_parser.py',
                                '-k', 'test_line_doc or test_line_doc_parts or test_new_parser or test_term_subclasses or test_url'],
                               cwd=repo, capture_output=True, text=True, env=env, timeout=60)
            if r.returncode:
                return dict(file=file, fn=fn, line=line, what=what, result='tests')
            qual = 'metatab.' + file[:-3] + ':' + fn
            todo = [e for e in EV if any(f == qual or f.startswith(qual + '.') for f in e[2])]
            last = fn.split('.')[1 if '.' in fn else 0]
            todo.sort(key=lambda e: not re.search(r'\b%s\b' % re.escape(last), ANCHORS.get(e[0], '')))
            if not todo:
                return dict(file=file, fn=fn, line=line, what=what, result='not encoded')
            spent = 0
            ran = []
            import time
            for prop, t, _ in todo:
                if spent > BUDGET:
                    break
                t0 = time.time()
                try:
                    r = subprocess.run(['./check.sh', prop, '--tier', 'quick', '-n', str(max(2, 8 // WORKERS))], cwd=verif, capture_output=True, text=True,
                                       env=dict(os.environ, VERIF_REPO=repo), timeout=600)
                    rc, o = r.returncode, r.stdout + r.stderr
                except subprocess.TimeoutExpired:
                    rc, o = 'timeout', ''
                spent += time.time() - t0
                ran.append(prop)
                if rc == 1:
                    return dict(file=file, fn=fn, line=line, what=what, result='caught', by=prop)
                if rc != 0:
                    ran[-1] += ':rc%s' % rc
            return dict(file=file, fn=fn, line=line, what=what, result='SURVIVED', ran=ran, spent=round(spent))
        except subprocess.TimeoutExpired:
            return dict(file=file, fn=fn, line=line, what=what, result='tests')
        finally:
            open(p, 'w').write(orig)
    finally:
        slots.append(w)


ORIG = {f: open(os.path.join('/repo/metatab', f)).read() for f in FILES}
todo = []
for file in FILES:
    src = ORIG[file]
    for fn, line, what, path, new in sites(ast.parse(src)):
        if fn.split('.')[-1] in ('__repr__', '__str__', 'cli_init', 'prt', 'warn', 'file_ref'):
            continue
        todo.append((file, fn, line, what, apply(src, path, new)))
random.Random(int(os.environ.get('SEED', 1))).shuffle(todo)
todo = todo[:int(os.environ.get('LIMIT', 10000))]
print(len(todo), 'changes')
base = tempfile.mkdtemp(prefix='mut')
slots = []
for i in range(WORKERS):
    r, v = os.path.join(base, 'r%d' % i), os.path.join(base, 'v%d' % i)
    subprocess.check_call(['cp', '-a', '/repo', r])
    subprocess.check_call(['cp', '-a', VERIF, v])
    slots.append((r, v))
try:
    with open(OUT, 'a') as f, ThreadPoolExecutor(WORKERS) as ex:
        for fut in as_completed([ex.submit(work, e) for e in enumerate(todo)]):
            f.write(json.dumps(fut.result()) + '\n')
            f.flush()
finally:
    shutil.rmtree(base)
