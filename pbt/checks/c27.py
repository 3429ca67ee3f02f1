"""C27: the name-case and base64url helpers obey their defining laws."""
import unicodedata

from pbt import gen
from pbt.core import prop
from pbt.stx import st

RULE = """Name cases: arbitrary strings, strings of words joined by runs of underscores (leading and trailing
included), camel-cased strings; compared with a definition written out per character, and for words of
lower-case letters and digits composed both ways. Every extension identifier is resolved on both extension
classes. Byte cases: byte strings of 0 to 5000 bytes, encoded text compared with own bit arithmetic over the
RFC 4648 alphabet, decoding with and without padding; texts of impossible length over the alphabet.
Non-trivial: more than one word, or any byte string. Distinct by content."""
ASSUMES = ['upper-case letter means Unicode category Lu; strings with title-case or other upper-case '
           'characters are not judged',
           'decoding text with characters outside the alphabet, misplaced padding or non-zero unused bits '
           'is not judged']

ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
CHARS = list('abcxyzABCXYZ019 .-') + ['é', 'É', 'ß', 'ж', 'Ж', 'σ', 'ς', 'Σ', '中', 'İ', 'ı', 'ŉ', '\n', '\x00',
                                     '٣', '\U00010400', '\U00010428']


@st.composite
def any_name(draw):
    how = draw(st.integers(0, 3))
    if how == 0:
        return draw(st.text(max_size=14))
    if how == 1:
        return draw(st.text(st.sampled_from(CHARS), max_size=14))
    word = st.text(st.sampled_from(CHARS), min_size=1, max_size=5)
    ws = draw(st.lists(word, max_size=5))
    gap = st.sampled_from(['_', '_', '__', '____'])
    s = draw(st.sampled_from(['', '', '_', '__']))
    for i, w in enumerate(ws):
        s += (draw(gap) if i else '') + w
    return s + draw(st.sampled_from(['', '', '_', '___']))


@prop(any_name, quick=48000, thorough=500000)
def to_camel(s, rec):
    from webauthn_rp.utils import snake_to_camel_case
    want, up, begun = '', False, False
    for ch in s:
        if ch == '_':
            up = begun
        else:
            want += ch.upper() if up else ch
            up, begun = False, True
    got = snake_to_camel_case(s)
    rec.check(got == want and type(got) is str, 'snake to camel', s=s, got=got, want=want)
    rec.label('%d underscores' % min(9, s.count('_')))
    if '_' in s.strip('_'):
        rec.nt(s)


@prop(any_name, quick=32000, thorough=400000)
def to_snake(s, rec):
    from webauthn_rp.utils import camel_to_snake_case
    if any(ch.isupper() and unicodedata.category(ch) != 'Lu' or unicodedata.category(ch) == 'Lt' for ch in s):
        return
    got = camel_to_snake_case(s)
    want = ''.join('_' + ch.lower() if unicodedata.category(ch) == 'Lu' else ch.lower() for ch in s)
    rec.check(got == want, 'camel to snake', s=s, got=got, want=want)
    n = sum(ch.isupper() for ch in s)
    rec.label('%d capitals' % min(n, 9))
    if n:
        rec.nt(s)


LOWER = list('abcdefghijklmnopqrstuvwxyz') + ['é', 'ж', 'ω', '\U00010428']


@st.composite
def words(draw):
    first = st.sampled_from(LOWER)
    rest = st.text(st.sampled_from(LOWER + list('0123456789')), max_size=7)
    return [draw(first) + draw(rest) for _ in range(draw(st.integers(0, 6)))]


@prop(words, quick=24000, thorough=240000)
def inverse(ws, rec):
    from webauthn_rp.utils import camel_to_snake_case, snake_to_camel_case
    snake = '_'.join(ws)
    camel = ''.join(w if i == 0 else w[0].upper() + w[1:] for i, w in enumerate(ws))
    rec.check(snake_to_camel_case(snake) == camel, 'snake to camel', s=snake, got=snake_to_camel_case(snake))
    rec.check(camel_to_snake_case(camel) == snake, 'camel to snake', s=camel, got=camel_to_snake_case(camel))
    rec.check(snake_to_camel_case(camel_to_snake_case(camel)) == camel, 'not inverse', s=camel)
    rec.label('%d words' % len(ws))
    if len(ws) > 1:
        rec.nt(ws)


@prop(lambda: st.tuples(st.sampled_from(sorted(gen.EXT)), st.integers(0, 99)), quick=3200, thorough=16000)
def extension_keys(c, rec):
    from webauthn_rp import types as t
    name, i = c
    rec.check(sorted(e.value for e in t.ExtensionIdentifier) == sorted(gen.EXT), 'identifiers',
              got=[e.value for e in t.ExtensionIdentifier])
    e = t.ExtensionIdentifier(name)
    rec.check(e.key == gen.EXT[name], 'attribute of extension', name=name, got=e.key)
    for cls in (t.AuthenticationExtensionsClientInputs, t.AuthenticationExtensionsClientOutputs):
        mark = object()
        o = cls(**{gen.EXT[name]: mark})
        rec.check(getattr(o, e.key, None) is mark, 'attribute does not hold the extension', name=name)
        rec.check(sorted(vars(o)) == sorted(gen.EXT.values()), 'attributes', got=sorted(vars(o)))
        rec.check(all(v is None for k, v in vars(o).items() if k != e.key), 'other attributes set')
    rec.label(name)
    rec.nt(name)


def model_encode(b):
    out = ''
    for i in range(0, len(b), 3):
        part = b[i:i + 3]
        n = int.from_bytes(part + bytes(3 - len(part)), 'big')
        q = [ALPHABET[n >> 18], ALPHABET[n >> 12 & 63], ALPHABET[n >> 6 & 63], ALPHABET[n & 63]]
        out += ''.join(q[:len(part) + 1]) + '=' * (3 - len(part))
    return out


@st.composite
def some_bytes(draw):
    how = draw(st.integers(0, 3))
    if how == 0:
        return draw(st.binary(max_size=40))
    if how == 1:  # rich in the two letters that differ from the plain alphabet
        return bytes(draw(st.lists(st.sampled_from([0xfb, 0xff, 0xef, 0xbe, 0xfe, 0x3e, 0x3f, 0, 0xf8]),
                                   max_size=30)))
    return draw(gen.blob(0, 5000 if how == 2 else 100))


@prop(some_bytes, quick=32000, thorough=300000)
def base64url(b, rec):
    from webauthn_rp.utils import url_base64_decode, url_base64_encode
    want = model_encode(b)
    got = url_base64_encode(b)
    rec.check(type(got) is bytes and got == want.encode(), 'encoding', b=b, got=got, want=want)
    bare = want.rstrip('=')
    for s in (want, bare):
        try:
            back = url_base64_decode(s)
        except Exception as e:
            rec.fail('valid text refused', s=s, error=e)
        rec.check(back == b, 'decoding', s=s, got=back, want=b)
    rec.label('%d mod 3' % (len(b) % 3))
    rec.nt(b)


@prop(lambda: st.tuples(st.tuples(st.text(st.sampled_from(ALPHABET), max_size=60), st.sampled_from([1] * 5 + [2, 7, 40])).map(
    lambda x: x[0] * x[1]), st.sampled_from(ALPHABET),
                        st.integers(0, 3)), quick=24000, thorough=160000)
def impossible(c, rec):
    from webauthn_rp.utils import url_base64_decode
    s = c[0][:len(c[0]) // 4 * 4] + c[1] + '=' * c[2]
    try:
        got = url_base64_decode(s)
    except Exception:
        pass
    else:
        rec.fail('text of impossible length accepted', s=s, got=got)
    rec.label('%d' % (len(s) // 16))
    rec.nt(s)
