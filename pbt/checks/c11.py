"""C11: origins are compared by scheme, host and effective port, nothing else."""
import unicodedata

from pbt import gen, mine
from pbt.core import prop
from pbt.stx import memo, st

RULE = """A case is a pair of origins built from (scheme, host, port) triples and then spelled (letter case
of scheme and host, default port written or not, leading zeros of the port), the second an equal
one spelled differently, a near miss or an independent one; or one string made invalid on purpose.
Equality of the parsed origins must coincide with equality of the triples, and the parsed parts
must be those of the triple. Non-trivial: the two spellings differ. Distinct by the pair of strings."""
ASSUMES = ['hosts are names (small letters beyond ASCII included) or bracketed IP literals without '
           'white space, backslash or percent signs; empty "?" / "#" and empty ports are not judged']


def spell(t, style, zeros):
    s, h, p = t
    if style & 16:
        h = ''.join(c.upper() if c.isascii() else c for c in h)
    out = gen.render_origin(s, h, p, style & 7)
    if zeros and out.rsplit(':', 1)[-1].isdigit() and not out.endswith(']'):
        a, b = out.rsplit(':', 1)
        out = '%s:%s%s' % (a, '0' * zeros, b)
    return out


@memo
def styles():
    return st.tuples(st.integers(0, 31), st.sampled_from([0, 0, 0, 0, 0, 1, 3]))


# small letters beyond ASCII that are hosts of their own: folding or normalising them is not "letter case"
WIDE = ['\u00e9', '\u00fc', '\u00df', '\u00f1', '\u0436', '\u4e2d', '\uff45', '\ufb01', '\u017f', '\u00b5', '\u03bc',
        '\u03c2', '\u03c3', '\u0131', '\u0301', '\u1e9b', '\u3002', '\uff0e', '\u00ad', '\u200d']


def respelt(h):
    return st.sampled_from([h.casefold(), unicodedata.normalize('NFKC', h), unicodedata.normalize('NFC', h),
                            unicodedata.normalize('NFD', h), unicodedata.normalize('NFKC', h).casefold(),
                            ''.join(c for c in h if c.isascii()), h.encode('ascii', 'replace').decode().replace('?', 'x'),
                            h.replace('\u3002', '.').replace('\uff0e', '.')])


@st.composite
def wide_triple(draw):
    s, h, p = draw(gen.origin_triple())
    k = draw(st.integers(0, 9))
    if k == 0:
        h = draw(st.text(alphabet='abcdefghijklmnopqrstuvwxyz0123456789-._~!$', min_size=1,
                         max_size=30))
    elif k == 1:
        h = '[%s]' % draw(st.ip_addresses(v=6).map(lambda a: str(a) if '%' not in str(a) else '::1'))
    elif k == 2:
        h = str(draw(st.ip_addresses(v=4)))
    elif k == 3:
        w = [x for x in mine.constants()[1] if x.isascii() and x.isalnum()]
        h = draw(st.sampled_from(w or ['a'])).lower() + draw(st.sampled_from(['', '.com', '.']))
    elif k == 4:
        h = draw(st.sampled_from(['80', '443', 'http', 'https', 'www.https', 'a:b'.replace(':', '.'),
                                  'example.com.', 'example.com', 'localhost.localdomain', '0', '1.1']))
    elif k == 5:
        h = ('a' * 63 + '.') * 3 + 'b' * draw(st.integers(1, 60))
    elif k == 6:
        h = draw(st.text(alphabet='ab1.', max_size=3)) + draw(st.sampled_from(WIDE)) + draw(
            st.text(alphabet=''.join(WIDE) + 'ab1.', max_size=6))
    return (s, h, p)


@st.composite
def pair(draw):
    a = draw(wide_triple())
    k = draw(st.integers(0, 5))
    if k <= 1:
        b = a
    elif k <= 3:
        b = draw(gen.near_origin(a))['key']
    elif k == 4:
        b = (a[0], a[1], draw(st.sampled_from([80, 443, 8080, a[2]])))
        if draw(st.booleans()):
            b = ('http' if a[0] == 'https' else 'https', ) + b[1:]
    else:
        b = draw(wide_triple())
    if not a[1].isascii() and draw(st.booleans()):
        h = draw(respelt(a[1]))
        b = (a[0], h or 'x', a[2])
    return {'a': a, 'b': b, 'sa': spell(a, *draw(styles())), 'sb': spell(b, *draw(styles()))}


def parts_ok(rec, o, t, s):
    host = t[1].lower()
    rec.check(o.scheme == t[0], 'wrong scheme', origin=s, got=o.scheme)
    rec.check(type(o.port) is int and o.port == t[2], 'wrong port', origin=s, got=o.port)
    rec.check(o.hostname.lower().strip('[]') == host.strip('[]'), 'wrong host', origin=s,
              got=o.hostname)


@prop(pair, quick=72000, thorough=600000)
def equality(c, rec):
    from webauthn_rp.errors import OriginError
    from webauthn_rp.parsers import parse_origin
    try:
        a, b = parse_origin(c['sa']), parse_origin(c['sb'])
    except OriginError as e:
        rec.fail('a valid origin was refused', a=c['sa'], b=c['sb'], error=e)
    parts_ok(rec, a, c['a'], c['sa'])
    parts_ok(rec, b, c['b'], c['sb'])
    want = gen.norm_origin(c['a']) == gen.norm_origin(c['b'])
    rec.check((a == b) is want, 'equality of origins is wrong', a=c['sa'], b=c['sb'], want=want)
    rec.check((hash(a) == hash(b)) or not want, 'equal origins with different hashes')
    rec.check((a in {b}) is want and (a in [b]) is want, 'membership differs from equality')
    rec.label('equal' if want else 'different')
    if c['sa'] != c['sb']:
        rec.nt((c['sa'], c['sb']))


@st.composite
def invalid(draw):
    k = draw(st.integers(0, 9))
    if k <= 4:
        return draw(gen.invalid_origin())['s']
    t = draw(wide_triple())
    s = spell(t, *draw(styles()))
    if k == 5:
        return s + draw(st.sampled_from(['/', '//', '/.', '/ ', '/;', '/..', '/a/b', '/?a#b'])) + \
            draw(st.sampled_from(['', 'x']))
    if k == 6:
        return s + draw(st.sampled_from(['?', '#'])) + draw(st.text(
            alphabet='abc=&/:@.', min_size=1, max_size=6))
    if k == 7:
        user = draw(st.text(alphabet='abc:.-%0', max_size=6))
        return '%s://%s@%s' % (s.split('://')[0], user, s.split('://')[1])
    if k == 8:
        scheme = draw(st.text(alphabet='abcdefhpstw+.-0', max_size=6))
        if scheme in ('http', 'https'):
            scheme = 'httpx'
        return scheme + '://' + s.split('://')[1]
    port = draw(st.one_of(st.integers(65536, 10**9).map(str),
                          st.text(alphabet='abcx-+. ', min_size=1, max_size=4),
                          st.tuples(st.integers(0, 65535), st.integers(0, 5), st.sampled_from(
                              ['_', '+', '-', 'a', 'x', '.', ',', '\u0665', '\uff15', '\u00b2', ':', ';', '=']),
                              ).map(lambda x: str(x[0])[:x[1]] + x[2] + str(x[0])[x[1]:])))
    return '%s://%s:%s' % (t[0], t[1], port)


@prop(invalid, quick=48000, thorough=400000)
def refusals(s, rec):
    from webauthn_rp.errors import OriginError
    from webauthn_rp.parsers import parse_origin
    try:
        o = parse_origin(s)
    except OriginError:
        rec.nt(s)
        return
    rec.fail('an invalid origin was parsed', origin=s, got=o)
