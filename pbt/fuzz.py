"""Byte-level and structure-level mutation strategies for the fuzzing checks."""
from pbt import cborx, gen, mine
from pbt.cborx import Pairs, Raw, Tag, UNDEFINED
from pbt.stx import memo, st

SNIPPETS = [
    b'\x00', b'\xff', b'\xf6', b'\xf7', b'\xa0', b'\x80', b'\x40', b'\x60', b'\x9f', b'\xbf', b'\x5f',
    b'\x7f', b'\xfb\x7f\xf8\x00\x00\x00\x00\x00\x00', b'\xf9\x7e\x00', b'\x1b' + b'\xff' * 8,
    b'\x5b' + b'\xff' * 8, b'\x7b' + b'\x7f' + b'\xff' * 7, b'\x9b' + b'\xff' * 8,
    b'\xbb' + b'\xff' * 8, b'\x5a\x7f\xff\xff\xff', b'\x9a\x00\xff\xff\xff', b'\xba\x00\xff\xff\xff',
    b'\x5b\x00\x00\x00\x7f\xff\xff\xff\xff', b'\xc2\x41\x01', b'\xc2\x60', b'\xc3\x00', b'\xc0\x60',
    b'\xc0\x64abcd', b'\xc1\xfb' + b'\x7f\xef' + b'\xff' * 6, b'\xc1\x1b' + b'\xff' * 8, b'\xc4\x82\x00\x00',
    b'\xc4\x82\x1b' + b'\xff' * 8 + b'\x01', b'\xc5\x80', b'\xd8\x1e\x82\x01\x00', b'\xd8\x23\x61(',
    b'\xd8\x24\x60', b'\xd8\x25\x41\x00', b'\xd8\x1c\x81\xd8\x1d\x00', b'\xd8\x1d\x00', b'\xd8\x1d\x05',
    b'\xd8\x1c\xa1\xd8\x1d\x00\x01', b'\xd9\x01\x02\x81\x80', b'\xd9\x01\x00\x81\xd8\x19\x00',
    b'\xd9\x01\x04\x41\x00', b'\xd9\x01\x05\xa0', b'\xd9\xd9\xf7', b'\x61\xff', b'\x62\xc3\x28', b'\xf8\x14',
    b'\xf8\xff', b'\xfc', b'\xfd', b'\xfe', b'\x1c', b'\x3c', b'\x5c', b'\xdc', b'\x81' * 40, b'\xa1\x01' * 40,
    b'\xc2' * 20, b'{', b'}', b'"', b'[', b'\\u', b'\\ud800', b'\xed\xa0\x80', b'\xef\xbb\xbf', b'\xc0\x80',
    b'null', b'NaN', b'1e999', b'-', b'[' * 60, b'{"a":' * 30, b'9' * 30]


def deep():
    """Deeply nested items (recursion limits)."""
    return st.tuples(st.sampled_from([b'\x81', b'\xa1\x01', b'\xc1', b'\xd8\x1c\x81', b'\x9f', b'[', b'{"a":',
                                      b'\xbf\x00', b'\xd9\x01\x02\x81']),
                     st.sampled_from([100, 400, 900, 999, 1000, 1100, 5000, 100000]),
                     st.sampled_from([b'', b'\x00', b'\xf6'])).map(
                         lambda t: Raw(t[0] * t[1] + t[2]))


def huge_int():
    """Integers longer than Python converts to decimal text by default (4300 digits)."""
    return st.tuples(st.sampled_from([14000, 14290, 15000, 40000]), st.booleans()).map(
        lambda t: -(1 << t[0]) if t[1] else 1 << t[0])


KEYS = ([1, 2, 3, 4, 5, -1, -2, -3, 0, 'fmt', 'authData', 'attStmt', 'alg', 'sig', 'x5c', 'ver',
         'response', 'certInfo', 'pubArea', 'ecdaaKeyId', 'id', 'rawId', 'type', 'clientDataJSON',
         'attestationObject', 'authenticatorData', 'signature', 'userHandle', 'challenge', 'origin',
         'tokenBinding', 'status'] + sorted(gen.EXT) + sorted(gen.LOC))


@memo
def scalars():
    return st.one_of(
        st.sampled_from([None, True, False, UNDEFINED, 0, 1, 2, 4, -7, -8, -35, -36, 3, 6, 7, -1,
                         b'', '', 0.0, 1.0, 2.0, -7.0]),
        st.sampled_from(KEYS),
        gen.biased_ints(-2**64, 2**64 - 1), st.integers(-2**80, 2**80), huge_int(),
        gen.blob(0, 70), gen.text(12),
        st.sampled_from(['none', 'packed', 'tpm', 'android-key', 'android-safetynet', 'fido-u2f', 'ES256',
                         'EdDSA', 'EC2', 'OKP', 'Symmetric', 'P-256', 'Ed25519', 'sign', '']),
        st.floats(), deep(), st.sampled_from([Raw(s) for s in SNIPPETS]))


@memo
def trees():
    key = st.one_of(st.sampled_from(KEYS), scalars(), st.lists(st.integers(0, 3), max_size=2))
    tag = st.one_of(st.sampled_from([0, 1, 2, 3, 4, 5, 25, 28, 29, 30, 35, 36, 37, 256, 258, 260, 261,
                                     55799, 43000]), st.integers(0, 2**64 - 1))
    return st.recursive(
        scalars(), lambda x: st.one_of(
            st.lists(x, max_size=4), st.lists(st.tuples(key, x), max_size=5).map(Pairs),
            st.tuples(tag, x).map(lambda t: Tag(*t))), max_leaves=8)


def nodes(v, path=()):
    """Paths of all nodes of a dict / list tree (map keys included as ('key', i))."""
    out = [path]
    if isinstance(v, dict):
        for i, (k, x) in enumerate(v.items()):
            out.append(path + (('key', i), ))
            out += nodes(x, path + (('val', i), ))
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            out += nodes(x, path + (('item', i), ))
    return out


def replace(v, path, f):
    if not path:
        return f(v)
    kind, i = path[0]
    if isinstance(v, dict):
        items = list(v.items())
    elif isinstance(v, Pairs):
        items = list(v.items_)
    else:
        out = list(v)
        out[i] = replace(out[i], path[1:], f)
        return out
    k, x = items[i]
    items[i] = (f(k), x) if kind == 'key' else (k, replace(x, path[1:], f))
    return Pairs(items)


@st.composite
def mutate_tree(draw, v, times=None):
    """v with 1 or 2 nodes replaced, or members added / dropped / duplicated."""
    for _ in range(times or draw(st.sampled_from([1, 1, 1, 2]))):
        ps = nodes(v)
        p = draw(st.sampled_from(ps))
        k = draw(st.integers(0, 6))
        if k == 6:
            # what a library would put into its error message, in every single place
            leaves = [q for q in ps if q]
            if leaves:
                p = draw(st.sampled_from(leaves))
            inner = [q for q in leaves if len(q) > 1]
            if inner and draw(st.booleans()):
                p = draw(st.sampled_from(inner))
            new = draw(st.one_of(huge_int(), huge_int(), deep()))
            v = replace(v, p, lambda old: new)
        elif k <= 3:
            new = draw(trees())
            v = replace(v, p, lambda old: new)
        else:
            extra = (draw(st.one_of(st.sampled_from(KEYS), scalars())), draw(trees()))
            i = draw(st.integers(0, 20))

            def f(old):
                if isinstance(old, dict):
                    items = list(old.items())
                    if k == 4 or not items:
                        return Pairs(items + [extra])
                    del items[i % len(items)]
                    return Pairs(items)
                if isinstance(old, list):
                    return old + [extra[1]]
                return old
            v = replace(v, p, f)
        if not isinstance(v, (dict, list)):
            break
    return v


@st.composite
def mutate_bytes(draw, b, most=4):
    for _ in range(draw(st.integers(1, most))):
        k = draw(st.integers(0, 8))
        n = len(b)
        i = draw(st.integers(0, max(0, n)))
        if k == 0 and n:
            i = min(i, n - 1)
            b = b[:i] + bytes([b[i] ^ 1 << draw(st.integers(0, 7))]) + b[i + 1:]
        elif k == 1 and n:
            i = min(i, n - 1)
            b = b[:i] + bytes([draw(st.integers(0, 255))]) + b[i + 1:]
        elif k == 2:
            b = b[:i]
        elif k == 3:
            b = b[:i] + draw(st.sampled_from(SNIPPETS)) + b[i:]
        elif k == 4:
            s = draw(st.sampled_from(SNIPPETS))
            b = b[:i] + s + b[i + len(s):]
        elif k == 5:
            b = b[:i] + draw(st.binary(max_size=6)) + b[i:]
        elif k == 6:
            j = draw(st.integers(0, max(0, n)))
            lo, hi = min(i, j), max(i, j)
            b = b[:lo] + b[hi:]
        elif k == 7:
            b = b[:i] + draw(deep()).data + b[i:]
        else:
            j = draw(st.integers(0, max(0, n)))
            lo, hi = min(i, j), max(i, j)
            b = b[:hi] + b[lo:hi] + b[hi:]
    return b


def junk_bytes():
    return st.one_of(st.binary(max_size=60), gen.blob(0, 400),
                     st.lists(st.sampled_from(SNIPPETS), max_size=6).map(b''.join),
                     trees().map(cborx.encode), deep().map(lambda r: r.data))
