"""A dictionary of constants found in the package source (the usual auto-dictionary of fuzzing):
integers, short strings and byte strings are offered to the generators with a small probability."""
import ast
import glob
import os
from functools import lru_cache


@lru_cache(maxsize=1)
def constants():
    import webauthn_rp
    ints, strs, byts = set(), set(), set()
    for path in sorted(glob.glob(os.path.join(os.path.dirname(webauthn_rp.__file__), '*.py'))):
        try:
            tree = ast.parse(open(path, encoding='utf-8').read())
        except (SyntaxError, OSError, ValueError):
            continue
        docs = set()
        for n in ast.walk(tree):
            body = getattr(n, 'body', None)
            if isinstance(body, list) and body and isinstance(body[0], ast.Expr):
                docs.add(id(body[0].value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if type(v) is int:
                    ints.add(v)
                elif type(v) is str and 0 < len(v) <= 24:
                    strs.add(v)
                elif type(v) is bytes and 0 < len(v) <= 64:
                    byts.add(v)
            elif isinstance(n, ast.BinOp):
                try:
                    v = eval(compile(ast.Expression(n), '', 'eval'), {'__builtins__': {}})
                except Exception:
                    continue
                if type(v) is int and abs(v) < 1 << 70:
                    ints.add(v)
    return sorted(ints), sorted(strs), sorted(byts)


def ints_between(lo, hi):
    """Boundary and dictionary integers inside [lo, hi]."""
    out = {lo, hi, lo + 1, hi - 1}
    for k in range(0, 66):
        for d in (-1, 0, 1):
            out.add((1 << k) + d)
            out.add(-(1 << k) + d)
    for v in constants()[0]:
        for d in (-1, 0, 1):
            out.add(v + d)
    return sorted(v for v in out if lo <= v <= hi)
