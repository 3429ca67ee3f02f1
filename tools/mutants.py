"""Systematic small changes to the library, to find what the checks cannot see.

usage: mutants.py tests OUT.json [PREFIX]    every mutant of /repo/webauthn_rp that passes the existing tests
       mutants.py checks OUT.json [SCALE]    run the checks on those; prints the ones no check notices
Each mutant is one edit of the text at the position of one syntax node. Works in /tmp/mut only.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SRC = '/repo/webauthn_rp'
W = '/tmp/mut'
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in',
       ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.out, self.quiet = text, [], 0
        self.lines = [0]
        for l in text.split('\n'):
            self.lines.append(self.lines[-1] + len(l.encode()) + 1)
        self.raw = text.encode()

    def pos(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.pos(n)
        return self.raw[a:b].decode()

    def add(self, n, new, what):
        a, b = self.pos(n)
        if self.raw[a:b].decode() != new:
            self.out.append((a, b, new, what, n.lineno))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.add(n, '(%s %s %s)' % (self.src(n.left), CMP[type(n.ops[0])], self.src(n.comparators[0])), 'compare')
            if type(n.ops[0]) in (ast.Eq, ast.NotEq):
                o = '>=' if type(n.ops[0]) is ast.Eq else '<'
                self.add(n, '(%s %s %s)' % (self.src(n.left), o, self.src(n.comparators[0])), 'compare')
                o = '<=' if type(n.ops[0]) is ast.Eq else '>'
                self.add(n, '(%s %s %s)' % (self.src(n.left), o, self.src(n.comparators[0])), 'compare')
            if type(n.ops[0]) in (ast.Is, ast.IsNot) and self.src(n.comparators[0]) == 'None':
                self.add(n, '(not %s)' % self.src(n.left) if type(n.ops[0]) is ast.Is else '(%s)' % self.src(n.left),
                         'falsy')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(%s)' % op.join(self.src(v) for v in n.values), 'boolop')
        for i in range(len(n.values)):
            rest = [self.src(v) for j, v in enumerate(n.values) if j != i]
            self.add(n, '(%s)' % (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest), 'operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, '(%s)' % self.src(n.operand), 'not')
        self.generic_visit(n)

    def visit_If(self, n):
        if self.src(n.test) != 'TYPE_CHECKING':
            self.add(n.test, 'True', 'if')
            self.add(n.test, 'False', 'if')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.src(n.body), 'ifexp')
        self.add(n, self.src(n.orelse), 'ifexp')
        self.generic_visit(n)

    def visit_Raise(self, n):
        if n.exc is not None and isinstance(n.exc, ast.Call):
            name = self.src(n.exc.func)
            for other in ('ParserError', 'DecodingError', 'ValidationError', 'AttestationError', 'UnimplementedError',
                          'ValueError', 'InternalError'):
                if other != name and (other in self.text or other == 'ValueError'):
                    self.add(n.exc.func, other, 'raise')
        # nothing inside messages

    def visit_Assert(self, n):
        pass

    def visit_Return(self, n):
        if n.value is not None:
            self.add(n.value, 'None', 'return')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if not (isinstance(n.targets[0], ast.Name) and n.targets[0].id == '__all__'):
            if isinstance(n.value, (ast.Call, ast.Attribute, ast.Name, ast.Subscript)):
                self.add(n.value, 'None', 'assign')
            self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if type(v) is bool:
            self.add(n, str(not v), 'const')
        elif type(v) is int:
            self.add(n, '(%d)' % (v + 1), 'const')
            self.add(n, '(%d)' % (v - 1), 'const')
        elif type(v) is str and '\n' not in v:
            self.add(n, repr(v + 'x'), 'const')
            self.add(n, repr(v.swapcase()), 'const')
        elif type(v) is bytes:
            self.add(n, repr(v + b'x'), 'const')

    def visit_BinOp(self, n):
        swap = {ast.Add: '-', ast.Sub: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.Mult: '//'}.get(type(n.op))
        if swap and not isinstance(n.op, ast.Mult):
            self.add(n, '(%s %s %s)' % (self.src(n.left), swap, self.src(n.right)), 'binop')
            if isinstance(n.op, ast.Add):
                self.add(n, '(%s + %s)' % (self.src(n.right), self.src(n.left)), 'swap')
                self.add(n, self.src(n.left), 'operand')
                self.add(n, self.src(n.right), 'operand')
        self.generic_visit(n)

    def elements(self, n, els, o, c):
        if 1 < len(els) < 40:
            for i in range(len(els)):
                rest = [self.src(e) for j, e in enumerate(els) if j != i]
                self.add(n, o + ', '.join(rest) + (',' if o == '(' else '') + c, 'element')

    def visit_Set(self, n):
        self.elements(n, n.elts, '{', '}')
        self.generic_visit(n)

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load):
            self.elements(n, n.elts, '(', ')')
        self.generic_visit(n)

    def visit_Dict(self, n):
        for i in range(len(n.keys)):
            rest = ['%s: %s' % (self.src(k), self.src(v)) for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i]
            self.add(n, '{' + ', '.join(rest) + '}', 'element')
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.src(n.func)
        if f.endswith('.format') or f in ('cast', 'Union', 'Tag', 'TypeVar') or f.startswith('logging'):
            return
        items = [self.src(a) for a in n.args] + ['%s=%s' % (k.arg, self.src(k.value)) for k in n.keywords if k.arg]
        if not any(k.arg is None for k in n.keywords) and not f.startswith('parse_'):
            for i in range(len(items)):
                if len(items) > 1:
                    self.add(n, '%s(%s)' % (f, ', '.join(x for j, x in enumerate(items) if j != i)), 'drop argument')
        for k in n.keywords:
            if k.arg:
                self.add(k.value, 'None', 'argument None')
        if len(n.args) == 2:
            self.add(n, '%s(%s)' % (f, ', '.join([items[1], items[0]] + items[2:])), 'swap')
        if len(n.keywords) > 1:
            for a, b in zip(n.keywords, n.keywords[1:]):
                if a.arg and b.arg:
                    self.add(a.value, self.src(b.value), 'other argument')
        if f in ('bool', 'int', 'str', 'list', 'tuple', 'set') and len(n.args) == 1:
            self.add(n, items[0], 'unwrap')
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        if isinstance(n.type, ast.Tuple):
            self.elements(n.type, n.type.elts, '(', ')')
        elif n.type is not None and self.src(n.type) == 'Exception':
            for t in ('ValueError', 'KeyError', '(ValueError, TypeError)'):
                self.add(n.type, t, 'except')
        elif n.type is not None:
            self.add(n.type, '()', 'except')
        for s in n.body:
            self.visit(s)

    def visit_FunctionDef(self, n):
        for s in n.body:
            self.visit(s)
        for d in list(n.args.defaults) + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_For(self, n):
        self.add(n.iter, 'list(%s)[:1]' % self.src(n.iter), 'loop')
        self.add(n.iter, 'list(%s)[:3]' % self.src(n.iter), 'loop')
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(n, 'pass', 'break')


def mutants():
    for f in sorted(os.listdir(SRC)):
        if f.endswith('.py') and f != '__init__.py':
            text = open(os.path.join(SRC, f)).read()
            v = Finder(text)
            v.visit(ast.parse(text))
            seen = set()
            for a, b, new, what, line in v.out:
                m = v.raw[:a] + new.encode() + v.raw[b:]
                try:
                    t = ast.parse(m.decode())
                except SyntaxError:
                    continue
                k = ast.dump(t)
                if k in seen or k == ast.dump(ast.parse(text)):
                    continue
                seen.add(k)
                yield {'file': f, 'line': line, 'what': what, 'old': v.raw[a:b].decode()[:160], 'new': new[:160],
                       'a': a, 'b': b, 'full': new}


def build(m, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', SRC, d + '/webauthn_rp'], check=True)
    subprocess.run(['cp', '-a', '/repo/tests', d + '/tests'], check=True)
    raw = open(os.path.join(SRC, m['file']), 'rb').read()
    with open(os.path.join(d, 'webauthn_rp', m['file']), 'wb') as f:
        f.write(raw[:m['a']] + m['full'].encode() + raw[m['b']:])


def run_tests(im):
    i, m = im
    d = '%s/t%d' % (W, i)
    build(m, d)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d)
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        ok = r.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    shutil.rmtree(d, ignore_errors=True)
    return ok


ORDER = {'backends.py': '01 03 07 09 05 02 04 06 08 30 24 31', 'parsers.py': '13 15 17 14 18 12 11 10 01 03 09 02 31 30',
         'types.py': '13 17 15 14 21 26 29 28 27 12 18 16 31 01 03 07 24', 'converters.py': '26 16 20 19 29 18 31 21 30',
         'attesters.py': '22 23 24 31 01 02 09 06 30 07', 'builders.py': '28 29 30', 'utils.py': '27 21 19 15 20 16 01 26',
         'asn1.py': '25 23', 'errors.py': '31 02 04 10', 'registrars.py': '31 09 07', 'validators.py': '21 31 13 02',
         'verifiers.py': '19 31 03 21', 'constants.py': '23 22 21 15'}


def run_checks(i, m, scale):
    """Runs from a copy of /verif, so that evidence and replays stay as they are."""
    d = '%s/c%d' % (W, i)
    build(m, d)
    v = d + '/verif'
    shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
    try:
        for c in ORDER[m['file']].split():
            r = subprocess.run(['./run.sh', 'C' + c, '--scale', scale, '--procs', '1'], cwd=v,
                               env=dict(os.environ, PBT_REPO=d, PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode:
                return 'C%s rc=%d' % (c, r.returncode)
        return None
    finally:
        shutil.rmtree(d)


def main():
    out = sys.argv[2]
    os.makedirs(W, exist_ok=True)
    if sys.argv[1] == 'tests':
        ms = [m for m in mutants() if not sys.argv[3:] or m['file'].startswith(sys.argv[3])]
        with ThreadPoolExecutor(7) as p:
            ok = list(p.map(run_tests, enumerate(ms)))
        left = [m for m, o in zip(ms, ok) if o]
        json.dump(left, open(out, 'w'), indent=1)
        print('%d mutants, %d pass the tests' % (len(ms), len(left)))
    else:
        ms = json.load(open(out))
        def one(im):
            i, m = im
            if 'by' in m:
                return
            m['by'] = run_checks(i, m, sys.argv[3] if sys.argv[3:] else '0.1')
            json.dump(ms, open(out, 'w'), indent=1)
            print(i, len(ms), m['file'], m['line'], m['what'], repr(m['old'][:70]), '->', repr(m['new'][:70]), m['by'] or
                  'NOT NOTICED', flush=True)

        with ThreadPoolExecutor(7) as p:
            list(p.map(one, enumerate(ms)))
    shutil.rmtree(W, ignore_errors=True)


main()
