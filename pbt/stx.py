"""hypothesis.strategies with memoised constructors.

Composite generators here build many small strategies per draw; constructing a strategy costs far
more than drawing from it, so equal constructions share one object.
"""
from functools import wraps

from hypothesis import strategies as _st
from hypothesis.strategies import SearchStrategy

_MEMO = {}


def _key(x):
    if isinstance(x, (list, tuple)):
        return (type(x), tuple(_key(y) for y in x))
    if isinstance(x, dict):
        return (dict, tuple((_key(k), _key(v)) for k, v in x.items()))
    hash(x)
    return (type(x), x)


def memo(fn):
    @wraps(fn)
    def inner(*a, **kw):
        try:
            k = (fn, _key(a), _key(kw))
            got = _MEMO.get(k)
        except TypeError:
            return fn(*a, **kw)
        if got is None:
            if len(_MEMO) > 20000:
                _MEMO.clear()
            got = _MEMO[k] = fn(*a, **kw)
        return got

    return inner


class _Strategies:
    def __getattr__(self, name):
        f = getattr(_st, name)
        if name in ('integers', 'booleans', 'sampled_from', 'binary', 'none', 'just', 'text',
                    'one_of', 'lists', 'tuples', 'floats', 'dictionaries', 'characters',
                    'fixed_dictionaries'):
            f = memo(f)
        setattr(self, name, f)
        return f

    @staticmethod
    def composite(fn):
        return memo(_st.composite(fn))


st = _Strategies()
