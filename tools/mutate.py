"""Mutation run: small changes to lines that a check reaches, in scratch copies; those it does not notice are listed.

python3 tools/mutate.py ID[,ID...] [-n MUTANTS] [-s SEED] [-j PARALLEL] [-f PATH-PART]     (log: /tmp/mutants/ID.jsonl)
With several IDs, a mutant is listed when none of these checks notices it.
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import signal
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('MUTATE_REPO', '/repo')
SWAP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
        ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.And: [ast.Or], ast.Or: [ast.And]}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sum': 'max', 'argmax': 'argmin', 'argmin': 'argmax'}


def mutants(tree):
    """(node, replacement text)"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in SWAP.get(type(n.ops[0]), []):
                m = copy.copy(n)
                m.ops = [op()]
                yield n, '(' + ast.unparse(m) + ')'
        elif isinstance(n, ast.BinOp) and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
            for op in SWAP.get(type(n.op), []):
                m = copy.copy(n)
                m.op = op()
                yield n, '(' + ast.unparse(m) + ')'
        elif isinstance(n, ast.BoolOp):
            m = copy.copy(n)
            m.op = SWAP[type(n.op)][0]()
            yield n, '(' + ast.unparse(m) + ')'
            for i in range(len(n.values)):
                m = copy.copy(n)
                m.values = n.values[:i] + n.values[i + 1:]
                yield n, '(' + ast.unparse(m if len(m.values) > 1 else m.values[0]) + ')'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield n, '(' + ast.unparse(n.operand) + ')'
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield n, str(not n.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield n, str(n.value + 1)
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if name in NAMES:
                m = copy.deepcopy(n)
                if isinstance(n.func, ast.Name):
                    m.func.id = NAMES[name]
                else:
                    m.func.attr = NAMES[name]
                yield n, ast.unparse(m)
            if name in ('copy', 'deepcopy', 'list', 'sorted', 'set', 'dict') and len(n.args) == 1 and not n.keywords:
                yield n, '(' + ast.unparse(n.args[0]) + ')'
            elif name == 'copy' and not n.args and isinstance(n.func, ast.Attribute):
                yield n, '(' + ast.unparse(n.func.value) + ')'
        elif isinstance(n, ast.Continue):
            yield n, 'break'
        elif isinstance(n, (ast.AugAssign, ast.Break)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not ast.unparse(n).startswith('print'):
            yield n, 'pass'
        elif isinstance(n, ast.If):
            yield n.test, '(not (%s))' % ast.unparse(n.test)
        elif isinstance(n, ast.IfExp):
            m = copy.copy(n)
            m.body, m.orelse = n.orelse, n.body
            yield n, '(' + ast.unparse(m) + ')'


def splice(text, n, new):
    lines = text.split('\n')
    b = [l.encode() for l in lines]
    first, last = n.lineno - 1, n.end_lineno - 1
    out = b[first][:n.col_offset].decode() + new + b[last][n.end_col_offset:].decode()
    return '\n'.join(lines[:first] + [out] + lines[last + 1:])


def run(repo, prop, limit, cover=None):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_FAST='1', VERIF_SEED='1', VERIF_TIER='quick')
    if cover:
        env['VERIF_COVER'] = cover
    out = tempfile.TemporaryFile()
    p = subprocess.Popen(['./run.sh', prop], cwd=HERE, env=env, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        rc = p.wait(limit)
    except subprocess.TimeoutExpired:
        rc = 'timeout'
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    out.seek(0)
    return rc, out.read().decode(errors='replace')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('-n', type=int, default=30)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-j', type=int, default=2)
    ap.add_argument('-f', default='')
    a = ap.parse_args()
    os.makedirs('/tmp/mutants', exist_ok=True)
    top = tempfile.mkdtemp(prefix='mut_')
    copies = []
    for i in range(a.j):
        d = os.path.join(top, 'r%d' % i)
        os.makedirs(d)
        shutil.copytree(os.path.join(SRC, 'skdecide'), d + '/skdecide', ignore=shutil.ignore_patterns('__pycache__'))
        copies.append(d)
    cov = os.path.join(top, 'cov')
    os.makedirs(cov)
    props = a.prop.split(',')
    for x in props:
        rc, text = run(copies[0], x, 900, cov)
        assert rc == 0, text
    lines = set()
    for f in os.listdir(cov):
        lines |= set(open(os.path.join(cov, f)).read().split())
    reach = {}
    for x in lines:
        f, n = x.rsplit(':', 1)
        reach.setdefault(f, set()).add(int(n))
    found = []
    anchors = [y for x in map(json.loads, open(os.path.join(HERE, 'properties.jsonl'))) if x['id'] in props for y in x['anchors']['files']]
    for f in sorted(reach):
        if a.f not in f or not a.f and not any(f.startswith(x) for x in anchors):
            continue
        text = open(os.path.join(SRC, f)).read()
        tree = ast.parse(text)
        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n).startswith('print'):
                skip |= {id(x) for x in ast.walk(n)}
        for n, new in mutants(tree):
            if n.lineno in reach[f] and id(n) not in skip:
                found.append((f, n, new))
    random.Random(a.s).shuffle(found)
    log = open('/tmp/mutants/%s.jsonl' % a.prop, 'a')
    free = list(copies)

    def one(m):
        f, n, new = m
        text = open(os.path.join(SRC, f)).read()
        try:
            mutated = splice(text, n, new)
            compile(mutated, f, 'exec')
        except SyntaxError:
            return None
        d = free.pop()
        with open(os.path.join(d, f), 'w') as g:
            g.write(mutated)
        for x in props:
            rc, out = run(d, x, 300)
            if rc:
                break
        with open(os.path.join(d, f), 'w') as g:
            g.write(text)
        free.append(d)
        old = ast.get_source_segment(text, n)
        r = dict(prop=x, file=f, line=n.lineno, old=old, new=new, rc=rc, why='' if rc == 0 else out[-300:])
        log.write(json.dumps(r) + '\n')
        log.flush()
        return r
    with ThreadPoolExecutor(a.j) as ex:
        rs = [r for r in ex.map(one, found[:a.n]) if r]
    shutil.rmtree(top)
    alive = [r for r in rs if r['rc'] == 0]
    print('%s: %d lines reached, %d mutants, %d run, %d not noticed' % (a.prop, len(lines), len(found), len(rs), len(alive)))
    for r in alive:
        print('  %s:%d  %s  ->  %s' % (r['file'], r['line'], (r['old'] or '')[:150].replace('\n', ' '), r['new'][:150].replace('\n', ' ')))


if __name__ == '__main__':
    main()
