"""C26: JSON conversion is lossless, key-faithful and JSON-safe."""
import base64
import copy
import inspect
import json

from pbt import gen
from pbt.core import prop
from pbt.stx import memo, st

RULE = """A case is a recipe of a nested value: dictionaries with string keys (snake-case, camel-case, with
runs of, leading and trailing underscores, digits, unicode), lists, tuples, enum members, bytes, strings,
integers of any size, finite floats, booleans, None, and objects of every data class of the library with
any such values as attributes; depth up to 60. A reference converter working on the recipe (never on the
library's objects) gives the expected value, compared with types. Refusal cases place one unsupported value
or non-string key anywhere. Keys that collide after conversion are avoided. Non-trivial: nested values, or any
refusal. Distinct by content."""
ASSUMES = ['NaN, infinities, cyclic values, keys that collide after conversion, subclasses of the '
           'supported types and objects of foreign classes are not judged',
           'Origin (a named tuple, never part of options) is not judged']

CLASSES = {}


def data_classes():
    """The library's data classes and their constructor parameters."""
    if not CLASSES:
        from enum import Enum
        from webauthn_rp import types as t
        for name in sorted(t.__all__):
            c = getattr(t, name)
            if inspect.isclass(c) and c.__module__ == t.__name__ and not issubclass(c, (Enum, tuple)) \
                    and type(c) is type:
                ps = [p for p in inspect.signature(c.__init__).parameters.values() if p.name != 'self']
                CLASSES[name] = [p.name for p in ps]
    return CLASSES


ENUMS = {}


def enums():
    if not ENUMS:
        from enum import Enum
        from webauthn_rp import types as t
        for name in sorted(t.__all__):
            c = getattr(t, name)
            if inspect.isclass(c) and issubclass(c, Enum):
                ENUMS[name] = [m.name for m in c]
            elif inspect.isclass(c) and type(c) is not type and hasattr(c, 'Value'):
                for kind in ('Name', 'Value'):
                    ENUMS[name + '.' + kind] = [m.name for m in getattr(c, kind)]
    return ENUMS


def resolve(path):
    from webauthn_rp import types as t
    o = t
    for p in path.split('.'):
        o = getattr(o, p)
    return o


WORDS = ['a', 'user', 'id', 'JSON', 'x5c', 'Name', 'rp', '1', 'é', 'ß', 'aB', 'public', 'key', 'IV', ' ',
         '-', '\u01c6', 'displayName']


@st.composite
def key_name(draw):
    how = draw(st.integers(0, 5))
    if how == 0:
        return draw(st.text(max_size=6))
    words = draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=4))
    if how <= 3:
        return '_'.join(words)
    s = draw(st.sampled_from(['', '_', '__']))
    for w in words:
        s += w + draw(st.sampled_from(['', '_', '__', '___']))
    return s


def camel(s):
    words = [w for w in s.split('_') if w]
    return ''.join([w if i == 0 else w[0].upper() + w[1:] for i, w in enumerate(words)])


def leaves():
    return st.one_of(
        st.tuples(st.just('v'), st.one_of(
            st.none(), st.none(), st.booleans(), st.integers(-3, 3), st.integers(-2**70, 2**70),
            st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=8), gen.text(8),
            st.sampled_from(['', 0, False, 0.0, -0.0, 'snake_case_text', 'None', 1.0, 1]))),
        st.tuples(st.just('b'), gen.blob(0, 3000)),
        st.tuples(st.just('e'), st.sampled_from([(n, m) for n in sorted(enums()) for m in enums()[n]])))


def uniq(d):
    """Drop members whose names collide after conversion (None members stay out of the way too)."""
    seen, out = set(), []
    for k, v in d:
        if camel(k) not in seen and k not in [x for x, _ in out]:
            seen.add(camel(k))
            out.append((k, v))
    return out


def extend(children):
    names = sorted(data_classes())
    return st.one_of(
        st.tuples(st.just('d'), st.lists(st.tuples(key_name(), children), max_size=4).map(uniq)),
        st.tuples(st.just('l'), st.lists(children, max_size=4)),
        st.tuples(st.just('l'), gen.longer(st.lists(leaves(), max_size=4), 300)),
        st.tuples(st.just('d'), st.tuples(st.sampled_from([2, 4, 30, 300]), leaves()).map(
            lambda x: [('key_%d' % i, x[1]) for i in range(x[0])])),
        st.tuples(st.just('t'), st.lists(children, max_size=3)),
        st.tuples(st.just('en'), children.filter(lambda r: r[0] in ('d', 'l', 't', 'o', 'b'))),
        st.tuples(st.just('o'), st.sampled_from(names),
                  st.lists(children, min_size=10, max_size=10), st.lists(st.booleans(), min_size=10,
                                                                         max_size=10)),
        st.tuples(st.just('deep'), st.sampled_from(['d', 'l', 't', 'dl']), st.integers(1, 60), children))


@memo
def recipe():
    return st.recursive(leaves(), extend, max_leaves=12)


def wrap(kind, n, leaf, mk):
    for i in range(n):
        leaf = mk(kind if kind != 'dl' else 'dl'[i % 2], leaf)
    return leaf


def build(r):
    k = r[0]
    if k in ('v', 'b', 'x'):
        return r[1]
    if k == 'e':
        return getattr(resolve(r[1][0]), r[1][1])
    if k == 'en':
        from enum import Enum
        return Enum('Own', {'MEMBER': build(r[1])}).MEMBER
    if k == 'd':
        return {n: build(v) for n, v in r[1]}
    if k == 'l':
        return [build(v) for v in r[1]]
    if k == 't':
        return tuple([build(v) for v in r[1]])
    if k == 'deep':
        return wrap(r[1], r[2], build(r[3]), lambda c, x: {'key_name': x, 'b': None} if c == 'd' else
                    [x, None] if c == 'l' else (None, x))
    c = resolve(r[1])
    return c(**{p: build(v) for p, v in fields(r)})


def fields(r):
    """(attribute, recipe) of an object; attributes not used hold None."""
    return [(p, v if use else ('v', None)) for p, v, use in zip(data_classes()[r[1]], r[2], r[3])]


SAFETYNET_FIXED = {'alg': None, 'sig': None}


def model(r, conv):
    k = r[0]
    if k == 'v':
        return r[1]
    if k == 'b':
        return base64.b64encode(r[1]).decode()
    if k == 'e':
        return getattr(resolve(r[1][0]), r[1][1]).value
    if k == 'en':
        return model(r[1], conv)
    if k == 'd':
        return members(r[1], conv)
    if k in 'lt':
        return [model(v, conv) for v in r[1]]
    if k == 'deep':
        name = 'keyName' if conv else 'key_name'
        inner = model(r[3], conv)
        return wrap(r[1], r[2], inner, lambda c, x: ({name: x} if x is not None else {}) if c == 'd' else
                    [x, None] if c == 'l' else [None, x])
    return members(fields(r), conv)


def members(items, conv):
    out = {}
    for n, v in items:
        m = model(v, conv)
        if m is not None:
            out[camel(n) if conv else n] = m
    return out


def freeze(o):
    from enum import Enum
    if isinstance(o, Enum):
        return (id(o), freeze(o.value))
    if type(o) is dict:
        return {k: freeze(v) for k, v in o.items()}
    if type(o) in (list, tuple):
        return type(o)([freeze(v) for v in o])
    if hasattr(o, '__dict__'):
        return (type(o), freeze(vars(o)))
    return copy.copy(o)


@st.composite
def case(draw):
    return {'r': draw(recipe()), 'conv': draw(st.sampled_from([True, True, False])),
            'call': draw(st.integers(0, 1))}


def convert(c, v):
    from webauthn_rp.converters import jsonify
    if c['conv'] and c['call']:
        return jsonify(v)
    return jsonify(v, c['conv']) if c['call'] else jsonify(v, convert_case=c['conv'])


@prop(case, quick=48000, thorough=500000)
def converts(c, rec):
    v = build(c['r'])
    before = freeze(v)
    try:
        got = convert(c, v)
    except Exception as e:
        rec.fail('refused', error=e)
    want = model(c['r'], c['conv'])
    rec.check(gen.same(got, want), 'result', got=got, want=want)
    rec.check(gen.same(freeze(v), before), 'the input was modified')
    try:
        back = json.loads(json.dumps(got, allow_nan=False))
    except Exception as e:
        rec.fail('not JSON-serializable', error=e, got=got)
    rec.check(gen.same(back, want), 'JSON text gives another value', got=back, want=want)
    rec.check(gen.same(convert(c, v), want), 'second conversion differs')
    rec.label('%s %s' % (c['r'][0], c['conv']))
    if c['r'][0] not in 'vbe':
        rec.nt(c)


BAD_VALUES = ['set', 'frozenset', 'complex', 'bytearray', 'range', 'decimal', 'date', 'object', 'memoryview',
              'ellipsis', 'generator', 'set of str', 'fraction']
BAD_KEYS = [1, 0, True, None, b'key', 1.5, (), ('a', ), -7]


def bad_value(n):
    import datetime
    import decimal
    return {'set': lambda: set(), 'frozenset': lambda: frozenset([1]), 'complex': lambda: 1j,
            'bytearray': lambda: bytearray(b'x'), 'range': lambda: range(2),
            'decimal': lambda: decimal.Decimal('1.5'), 'date': lambda: datetime.date(2020, 1, 2),
            'object': lambda: object(), 'memoryview': lambda: memoryview(b'x'),
            'ellipsis': lambda: Ellipsis, 'generator': lambda: iter([1, 2]), 'set of str': lambda: {'a'},
            'fraction': lambda: slice(1, 2)}[n]()


@st.composite
def refusal(draw):
    key = draw(st.booleans())
    if key:
        bad = draw(st.sampled_from(BAD_KEYS))
        val = draw(st.one_of(st.just(('v', None)), leaves()))
        items = draw(st.lists(st.tuples(key_name(), leaves()), max_size=3).map(uniq))
        pos = draw(st.integers(0, len(items)))
        core = ('badkey', items, pos, bad, val)
    else:
        core = ('bad', draw(st.sampled_from(BAD_VALUES)))
    path = draw(st.lists(st.sampled_from(['d', 'l', 't', 'o', 'd2', 'l2']), max_size=4))
    return {'core': core, 'path': path, 'conv': draw(st.booleans()), 'call': draw(st.integers(0, 1)),
            'cls': draw(st.sampled_from(sorted(data_classes()))), 'n': draw(st.integers(0, 20))}


@prop(refusal, quick=24000, thorough=160000)
def refuses(c, rec):
    from webauthn_rp.errors import JSONConversionError, UnimplementedError
    core = c['core']
    if core[0] == 'bad':
        v = bad_value(core[1])
    else:
        items = [(k, build(x)) for k, x in core[1]]
        items.insert(core[2], (core[3], build(core[4])))
        v = dict(items)
    for p in c['path']:
        if p == 'd':
            v = {'a_b': v}
        elif p == 'd2':
            v = {'x': None, 'z': 0, 'a_b': v, 'y': [1]}
        elif p == 'l':
            v = [v]
        elif p == 'l2':
            v = [None, 1, v, 'x']
        elif p == 't':
            v = (v, )
        else:
            ps = data_classes()[c['cls']]
            if ps:
                kw = {q: None for q in ps}
                kw[ps[c['n'] % len(ps)]] = v
                v = resolve(c['cls'])(**kw)
    try:
        got = convert(c, v)
    except (JSONConversionError, UnimplementedError) as e:
        want = UnimplementedError if core[0] == 'bad' else JSONConversionError
        rec.check(isinstance(e, want), 'wrong error', error=e, want=want)
    except Exception as e:
        rec.fail('not a documented error', error=e)
    else:
        rec.fail('not refused', got=got, core=core)
    rec.label('%s %s' % (core[0], core[1] if core[0] == 'bad' else repr(core[3])))
    rec.nt(c)
