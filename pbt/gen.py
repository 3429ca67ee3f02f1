"""Shared generators, encoders and reference models for the two ceremonies.

Cases are plain data (dict / list / bytes / str / int).  `build_*` turns a case into library
objects and raw bytes with this file's own encoders; `*_model` says, from the case alone, which
requirements are violated.
"""
import base64
import hashlib
import json
import re
import struct
import unicodedata
from pbt.stx import memo, st
from pbt.stx import st

from pbt import cborx, curves, der, mine
from pbt.curves import CURVES, OKP, Key

ALG = {'ES256': -7, 'ES384': -35, 'ES512': -36, 'EdDSA': -8}
KTY = {'OKP': 1, 'EC2': 2}
CRV = {'P-256': 1, 'P-384': 2, 'P-521': 3, 'Ed25519': 6, 'Ed448': 7}
OPS = {'sign': 1, 'verify': 2, 'encrypt': 3, 'decrypt': 4, 'wrap key': 5, 'unwrap key': 6,
       'derive key': 7, 'derive bits': 8, 'MAC create': 9, 'MAC verify': 10}
SIZE = {'P-256': 32, 'P-384': 48, 'P-521': 66, 'Ed25519': 32, 'Ed448': 57}
UP, UV, AT, ED = 1, 4, 64, 128
EXT = {  # identifier -> attribute
    'appid': 'appid', 'txAuthSimple': 'tx_auth_simple', 'txAuthGeneric': 'tx_auth_generic',
    'authnSel': 'authn_sel', 'exts': 'exts', 'uvi': 'uvi', 'loc': 'loc', 'uvm': 'uvm',
    'biometricPerfBounds': 'biometric_perf_bounds'}
LOC = {'latitude': 'latitude', 'longitude': 'longitude', 'altitude': 'altitude',
       'accuracy': 'accuracy', 'altitudeAccuracy': 'altitude_accuracy', 'heading': 'heading',
       'speed': 'speed'}
LEADING_ZERO = {'P-256': [379, 552, 751, 783, 43, 444, 742], 'P-384': [197, 234, 463, 176, 831],
                'P-521': [273, 351, 555, 73, 968]}


def sha256(b):
    return hashlib.sha256(b).digest()


def b64url(b, pad=False):
    s = base64.b64encode(b).decode().replace('+', '-').replace('/', '_')
    return s if pad else s.rstrip('=')


# ------------------------------------------------------------------ basic strategies

def biased_ints(lo, hi):
    pool = mine.ints_between(lo, hi)
    return st.one_of(st.integers(lo, hi), st.sampled_from(pool))


def sizes(lo, hi):
    pool = [v for v in mine.ints_between(lo, hi)]
    return st.one_of(st.integers(lo, min(hi, lo + 40)), st.sampled_from(pool))


@st.composite
def blob(draw, lo=0, hi=300):
    """Bytes with a biased length and cheap but varied content."""
    kind = draw(st.integers(0, 9))
    if kind <= 5:
        return draw(st.binary(min_size=lo, max_size=min(hi, lo + 24)))
    if kind == 6:
        fits = [c for c in mine.constants()[2] + [s.encode() for s in mine.constants()[1]]
                if lo <= len(c) <= hi]
        if fits:
            return draw(st.sampled_from(fits))
    n = draw(sizes(lo, hi))
    if kind == 9:
        return bytes([draw(st.sampled_from([0, 0xff, 0x41]))]) * n
    seed = draw(st.integers(0, 255))
    return hashlib.shake_128(bytes([seed])).digest(n)


@memo
def longer(lists, most=40):
    """Now and then a list repeated many times (long lists at little cost)."""
    return st.tuples(lists, st.sampled_from([1] * 16 + [3, 9, most])).map(lambda x: x[0] * x[1])


ODD_TEXT = ['e\u0301', '\u212b', '\ufb01', '\u0130', '\u00df', '\u200b', '\ufeff', '\u00a0', '\x00', 'A\u030a',
            '\u1100\u1161', '\r\n', ' a ', '\t', '\x7f', '\u2028', '\U0001f511', '\uffff', '%41', '&amp;', '\\u0041',
            '"', "'", '\u0049\u0307', '\u03c2', '\u00b5', 'a\u00ad', '=', '==', '+', '/', '-', '_', '__', '.', '..']


EDGES = [' ', '\t', '\n', '\r', '\x00', '\ufeff', '\u00a0', '\u200b', '=', '/', '.', '-', '_', '"', "'", '#', '\\',
         '%20', '+', ':']


@memo
def edged(inner):
    """The text with something at its start or end, or in the middle, that careless code drops."""
    def put(t):
        s, e, where = t
        return [e + s, s + e, e + s + e, s[:len(s) // 2] + e + s[len(s) // 2:], s.upper() + e][where]
    return st.tuples(inner, st.sampled_from(EDGES), st.integers(0, 4)).map(put)


LONG_TEXT = st.tuples(st.text(min_size=1, max_size=3), st.one_of(
    st.integers(4, 70), st.sampled_from([64, 65, 128, 129, 200, 255, 256, 300, 1025]))).map(
        lambda x: (x[0] * x[1])[:x[1]])


@memo
def text(max_size=12):
    return st.one_of(
        st.text(alphabet='abcXYZ019-_. ', max_size=max_size),
        edged(st.text(alphabet='abcXYZ019', max_size=max_size)),
        st.text(alphabet=st.characters(blacklist_categories=('Cs', )), max_size=max_size),
        st.sampled_from(ODD_TEXT) if max_size < 8 else st.sampled_from(ODD_TEXT) | st.sampled_from(ODD_TEXT) | LONG_TEXT,
        st.sampled_from([s for s in mine.constants()[1] if len(s) <= max(8, max_size)] or ['a']))


def near_texts(s):
    """Texts that careless comparison takes for s (some may equal it)."""
    last = s[:-1] + chr(ord(s[-1]) ^ 1) if s and 32 < ord(s[-1]) < 127 else s + '0'
    return [s + '=', s + '==', s.rstrip('='), s.upper(), s.lower(), s.swapcase(), s.strip(), ' ' + s, s + ' ', s + '\x00',
            s + '\n', s[:-1], s[1:], s[::-1], s + 'x', 'x' + s, s.replace('-', '+').replace('_', '/'), s.replace('-', '_'),
            s.replace('_', ''), unicodedata.normalize('NFC', s), unicodedata.normalize('NFD', s),
            unicodedata.normalize('NFKC', s), s.casefold(), last, s + '.', '.' + s, s * 2, s.title(), '\ufeff' + s,
            s.split('.', 1)[-1], s.rsplit('.', 1)[0], 'www.' + s, 'login.' + s, 'https://' + s, s + '/', s + ':443', '"%s"' % s,
            s.encode('ascii', 'ignore').decode(), s.encode('ascii', 'replace').decode()]


def other_spellings(n):
    """Member names that a lenient reader takes for n."""
    if not n:
        return [' ', '\x00']
    snake = ''.join('_' + ch.lower() if ch.isupper() else ch for ch in n)
    words = snake.split('_')
    out = [n.lower(), n.upper(), n.title(), n[0].upper() + n[1:], n.replace('JSON', 'Json'), snake, snake.replace('_', '-'),
           n + ' ', ' ' + n, n + '=', n + '\x00', n[:-1], n.replace('Id', 'ID'), n.replace('JSON', 'json'),
           snake.replace('_j_s_o_n', '_JSON'), n.swapcase(), words[0] + ''.join(w.title() for w in words[1:])]
    return [s for s in out if s != n]


TB_IDS = ['', 'tb', 'TB', 'tb ', 'YWJj', 'YWJjZA', 'YWJjZA==', 'yWJj', 'tb-id-1', 'a-_', 'a+/']
RP_IDS = ['example.com', 'localhost', 'login.example.com', 'Example.com', 'b\u00fccher.example', 'x']
LOOK_BASES = TB_IDS + RP_IDS + ['YWJjZA=', 'a.b', 'EXAMPLE.com', 'user-1', '0', '00', 'e\u0301', '\u212a', '\ufb01', '\u0131',
                               'stra\u00dfe', '\u03c3\u03c2', '%61', 'a b', 'null', 'None', '\u200b', 'xn--bcher-kva.example']


@st.composite
def look_alike(draw, auth):
    """An honest ceremony in which one text (or byte string) that must match is replaced, on one
    side, by one that is easily taken for it (or, on both sides, by the same)."""
    fields = ['tb', 'tb', 'rp', 'challenge'] + (['rps', 'user', 'handle', 'allow'] if auth else [])
    f = draw(st.sampled_from(fields))
    a = draw(st.sampled_from(LOOK_BASES))
    b = draw(st.sampled_from(near_texts(a)))
    if draw(st.booleans()):
        a, b = b, a
    if draw(st.integers(0, 9)) == 0:
        b = a
    cfg = draw(rp_config())
    if f == 'tb':
        cfg['tb'] = (draw(st.sampled_from(['present', 'supported'])), a)
    elif f == 'rp':
        cfg['rp_id'] = a
    elif f == 'challenge':
        cfg['challenge'] = a.encode('utf-8')
    c = draw((authentication if auth else registration)(cfg, max_devs=1, allow=[]))
    if f == 'tb':
        m = dict(c['cd']['members'])
        m['tokenBinding'] = {'status': cfg['tb'][0], 'id': b}
        c['cd'] = dict(c['cd'], members=list(m.items()), m=dict(c['cd']['m'], tb=(cfg['tb'][0], b)))
    elif f == 'rp':
        c['ad']['rp_hash'] = sha256(b.encode('utf-8'))
    elif f == 'challenge':
        m = dict(c['cd']['members'])
        m['challenge'] = b64url(b.encode('utf-8'), draw(st.booleans()))
        c['cd'] = dict(c['cd'], members=list(m.items()), m=dict(c['cd']['m'], challenge_ok=a == b))
    elif f == 'rps':
        c['rp_given'], c['rp_stored'] = a, b
        c['ad']['rp_hash'] = sha256(draw(st.sampled_from([a, b])).encode('utf-8'))
    else:
        a, b = a.encode('utf-8'), b.encode('utf-8')
        if f == 'user':
            c['user_given'], c['stored_user'], c['handle'] = a, b, draw(st.sampled_from([None, a, b]))
        elif f == 'handle':
            c['user_given'], c['stored_user'], c['handle'] = draw(st.sampled_from([None, a])), a, b
        else:
            c['raw_id'], c['allow'] = a, draw(st.permutations([b, b'other', b + b'x']))
    return c


@memo
def small_choices():
    return st.one_of(st.just(()), st.lists(st.integers(0, 10), max_size=24).map(tuple))


# ------------------------------------------------------------------ keys

def cbor_tail(raw):
    """Bytes that do not belong after the CBOR item raw."""
    return st.one_of(st.sampled_from([b'\x00', b'\xf6', b'\xff', b'\xa0', b'\x40', b' ', b'\n', bytes(16), raw, raw[:1], raw[-1:],
                                      b'\xa1', b'\xd9\xd9\xf7', b'\x1f']), st.binary(min_size=1, max_size=40))


@st.composite
def key_spec(draw, curve=None, extras=True):
    crv = curve or draw(st.sampled_from(['P-256', 'P-256', 'P-384', 'P-521', 'Ed25519', 'Ed448']))
    if crv in CURVES:
        d = draw(st.one_of(st.integers(1, 60), st.sampled_from(LEADING_ZERO[crv]),
                           st.integers(CURVES[crv].n - 3, CURVES[crv].n - 1)))
        alg = draw(st.sampled_from(['ES256', 'ES384', 'ES512']))
    else:
        d, alg = draw(st.integers(0, 200)), 'EdDSA'
    k = {'crv': crv, 'd': d, 'alg': alg, 'names': draw(st.integers(0, 15)), 'kid': None,
         'ops': None, 'iv': None}
    if extras and draw(st.integers(0, 3)) == 0:
        k['kid'] = draw(st.none() | blob(0, 300))
        k['ops'] = draw(st.none() | longer(st.lists(st.sampled_from(sorted(OPS)), min_size=1, max_size=4), 10))
        k['iv'] = draw(st.none() | blob(0, 120))
    return k


def the_key(k):
    return Key(k['crv'], k['d'], k['alg'])


def cose_map(k):
    """The COSE_Key map of a key spec; bits of 'names' select names instead of numbers."""
    nm = k['names']
    key = the_key(k)
    kty = 'EC2' if key.ec else 'OKP'
    m = {1: kty if nm & 1 else KTY[kty]}
    if k['kid'] is not None:
        m[2] = k['kid']
    m[3] = k['alg'] if nm & 2 else ALG[k['alg']]
    if k['ops'] is not None:
        m[4] = [o if nm & 8 else OPS[o] for o in k['ops']]
    if k['iv'] is not None:
        m[5] = k['iv']
    m[-1] = k['crv'] if nm & 4 else CRV[k['crv']]
    m[-2] = key.x
    if key.ec:
        m[-3] = key.y
    return m


def lib_key(k):
    """The same key as a library object, made through the public constructors."""
    from webauthn_rp import types as t
    nm = k['names']
    key = the_key(k)

    def pick(container, bit, name, value):
        return container(name) if nm & bit else container(value)

    kty = 'EC2' if key.ec else 'OKP'
    kw = dict(kty=pick(t.COSEKeyType, 1, kty, KTY[kty]), kid=k['kid'],
              alg=pick(t.COSEAlgorithmIdentifier, 2, k['alg'], ALG[k['alg']]),
              key_ops=None if k['ops'] is None else
              [pick(t.COSEKeyOperation, 8, o, OPS[o]) for o in k['ops']],
              base_IV=k['iv'], x=key.x)
    if key.ec:
        return t.EC2CredentialPublicKey(crv=pick(t.EC2Curve, 4, k['crv'], CRV[k['crv']]),
                                        y=key.y, **kw)
    return t.OKPCredentialPublicKey(crv=pick(t.OKPCurve, 4, k['crv'], CRV[k['crv']]), **kw)


def key_view(o):
    """Observable content of a library key object."""
    if o is None:
        return None
    v = lambda e: None if e is None else e.value
    out = {'kind': type(o).__name__, 'kty': v(o.kty), 'kid': o.kid, 'alg': v(o.alg),
           'ops': None if o.key_ops is None else [v(e) for e in o.key_ops], 'iv': o.base_IV,
           'crv': v(o.crv), 'x': o.x}
    if hasattr(o, 'y'):
        out['y'] = o.y
    return out


def map_view(m):
    """What key_view must show after parsing the COSE map m."""
    out = {'kind': 'EC2CredentialPublicKey' if m[1] in ('EC2', 2) else 'OKPCredentialPublicKey',
           'kty': m[1], 'kid': m.get(2), 'alg': m[3],
           'ops': None if m.get(4) is None else list(m[4]), 'iv': m.get(5), 'crv': m[-1],
           'x': m[-2]}
    if -3 in m and out['kind'][0] == 'E':
        out['y'] = m[-3]
    return out


# ------------------------------------------------------------------ extensions

def ext_value(name):
    if name in ('appid', 'authnSel', 'biometricPerfBounds'):
        return st.booleans()
    if name == 'txAuthSimple':
        return text(10)
    if name in ('txAuthGeneric', 'uvi'):
        return st.one_of(blob(0, 40), blob(0, 40), blob(0, 40), blob(0, 5000))
    if name == 'exts':
        return longer(st.lists(text(8), max_size=4))
    if name == 'uvm':
        return longer(st.lists(longer(st.lists(biased_ints(-5, 2**40) | biased_ints(
            -2**64, 2**64 - 1), max_size=3), 12), max_size=3), 12)
    if name == 'loc':
        num = st.one_of(st.integers(-180, 180), st.sampled_from([0, 0.0, -0.5, 1e300, 2**70]),
                        st.floats(allow_nan=False, allow_infinity=False))
        return st.dictionaries(st.sampled_from(sorted(LOC)), num, max_size=7)
    raise KeyError(name)


@st.composite
def ext_map(draw, min_size=0):
    names = draw(st.lists(st.sampled_from(sorted(EXT)), unique=True, min_size=min_size,
                          max_size=9 if draw(st.integers(0, 4)) == 0 else 3))
    out = {}
    for n in names:
        out[n] = None if draw(st.integers(0, 9)) == 0 else draw(ext_value(n))
    return out


def ext_view(o):
    if o is None:
        return None
    out = {}
    for n, a in EXT.items():
        v = getattr(o, a)
        if n == 'loc' and v is not None:
            v = {k: getattr(v, b) for k, b in LOC.items()}
        elif n in ('exts', 'uvm') and v is not None:
            v = [list(x) if isinstance(x, (list, tuple)) else x for x in v]
        out[n] = v
    return out


def ext_model(m):
    if m is None:
        return None
    out = {}
    for n in EXT:
        v = m.get(n)
        if n == 'loc' and v is not None:
            v = {k: v.get(k) for k in LOC}
        elif n in ('exts', 'uvm') and v is not None:
            v = [list(x) if isinstance(x, (list, tuple)) else x for x in v]
        out[n] = v
    return out


def same(a, b):
    """Equality that also distinguishes types (True / 1 / 1.0) and signs of zero."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return struct.pack('>d', a) == struct.pack('>d', b)
    return a == b


# ------------------------------------------------------------------ origins

HOSTS = ['example.com', 'example.org', 'localhost', 'login.example.com', 'a.b', '127.0.0.1',
         '[::1]', '[2001:db8::7]', 'xn--bcher-kva.example', 'example.co', 'com', 'x']
DEFAULT = {'http': 80, 'https': 443}


# hosts that code treats specially now and then
SPECIAL = ['app.localhost', 'localhost.localdomain', '192.168.0.1', '10.0.0.1', '0.0.0.0', '[::]', '[::ffff:7f00:1]', 'www.example.com',
           'example.co.uk', 'printer.local', 'dev.test', 'a.example', 'a.invalid', 'host.internal', 'intranet', '127.1', '2130706433',
           'xn--fiqs8s', 'm.example.com', 'example.com.au', 'a--b.c', '1.2.3.4.5', '[fe80::1]', 'www.com', 'appspot.com', 'github.io']
HOST_PART = re.compile(r'^[a-z0-9.-]{2,40}\Z')


@memo
def source_hosts():
    """Hosts made from texts in the library's source."""
    out = []
    for s in mine.constants()[1]:
        s = s.strip('.-').lower()
        if HOST_PART.match(s) and '..' not in s:
            out += [s, 'a.' + s, 'a' + s, s + '.com', s + 'x']
    return st.sampled_from(sorted(set(out)) or HOSTS)


@st.composite
def host(draw):
    k = draw(st.integers(0, 11))
    if k < 7:
        return draw(st.sampled_from(HOSTS))
    if k == 7:
        return draw(st.sampled_from(SPECIAL))
    if k == 8:
        return draw(source_hosts())
    label = st.text(alphabet='abcdefghijklmnopqrstuvwxyz0123456789-', min_size=1, max_size=8)
    return '.'.join(draw(st.lists(label, min_size=1, max_size=4)))


def render_origin(scheme, hst, port, style):
    """style bits: 1 upper-case some of the host, 2 upper-case scheme, 4 write a default port."""
    h = hst
    if style & 1:
        h = ''.join(c.upper() if i % 2 == 0 and c.isascii() else c for i, c in enumerate(h))
    s = scheme.upper() if style & 2 else scheme
    if port == DEFAULT[scheme] and not style & 4:
        return '%s://%s' % (s, h)
    return '%s://%s:%d' % (s, h, port)


@st.composite
def origin_triple(draw):
    scheme = draw(st.sampled_from(['https', 'https', 'http']))
    port = draw(st.one_of(st.just(DEFAULT[scheme]), st.sampled_from([80, 443, 8080, 8443, 5000]),
                          biased_ints(0, 65535)))
    return (scheme, draw(host()), port)


@memo
def style():
    return st.sampled_from([0, 0, 0, 0, 1, 2, 4, 4, 5, 7])


@st.composite
def valid_origin(draw):
    tr = draw(origin_triple())
    return {'s': render_origin(*tr, draw(style())), 'key': tr}


@st.composite
def near_origin(draw, tr):
    """An origin close to, but (usually) different from, the triple."""
    scheme, h, port = tr
    k = draw(st.integers(0, 9))
    name = not h.startswith('[')
    if k == 0:
        scheme = 'http' if scheme == 'https' else 'https'
        port = DEFAULT[scheme] if draw(st.booleans()) else port
    elif k == 1:
        port = draw(st.sampled_from([80, 443, port + 1, port - 1, port * 10, port // 10, 8443, 0]))
        port = min(65535, max(0, port))
    elif k == 2 and name:
        h = draw(st.sampled_from(['www.', 'x', 'evil-', '-'])) + h
    elif k == 3 and name:
        h = h + draw(st.sampled_from(['.evil.com', 'x', '.', '.com', '0']))
    elif k == 4 and name and len(h) > 1:
        h = h[1:].lstrip('.') or 'z'
    elif k == 5 and name and len(h) > 1:
        h = h[:-1].rstrip('.') or 'z'
    elif k == 6 and name and '.' in h:
        h = h.split('.', 1)[1] or 'z'
    elif k == 7:
        scheme, h, port = draw(origin_triple())
    else:
        h = draw(host())
    tr = (scheme, h, port)
    return {'s': render_origin(*tr, draw(style())), 'key': tr}


PLAIN_HOST = re.compile(r'^[a-z]([a-z0-9-]*\.)*[a-z]+\Z')


@st.composite
def rp_id_origin(draw, rp_id):
    """An origin made from the relying party's id: only allowed when it is expected."""
    scheme = draw(st.sampled_from(['https', 'https', 'https', 'http']))
    tr = (scheme, draw(st.sampled_from(['', '', '', 'www.', 'login.'])) + rp_id,
          draw(st.sampled_from([DEFAULT[scheme]] * 3 + [8443])))
    return {'s': render_origin(*tr, draw(style())), 'key': tr}


@st.composite
def invalid_origin(draw):
    tr = draw(origin_triple())
    base = render_origin(*tr, draw(style()))
    k = draw(st.integers(0, 9))
    bare = '%s://%s' % (tr[0], tr[1])
    s = [base + '/', base + '/' + draw(st.sampled_from(['a', 'index.html', '?x', '%2f'])),
         base + '?' + draw(st.sampled_from(['q', 'a=b'])),
         base + '#' + draw(st.sampled_from(['f', 'top'])),
         base.split('://')[1],
         draw(st.sampled_from(['ftp', 'ws', 'wss', 'file', 'android', 'httpss', 'htt', 'h'])) +
         '://' + base.split('://')[1],
         bare + ':' + draw(st.sampled_from(['65536', '99999', 'x', '-1', '8o', '4 43', '1e3'])),
         tr[0] + '://' + draw(st.sampled_from(['', ':443', ':80', ':'])),
         tr[0] + '://' + draw(st.sampled_from(['u@', 'u:p@', '@', 'example.com@', ':@'])) +
         base.split('://')[1],
         draw(st.sampled_from(['', 'null', '://', 'https:', 'https:/', '//', 'https', 'about:blank',
                               'https://[', 'https://[::1', 'https://]', 'https:example.com',
                               'data:,x', 'http://a\u2100b', '\u2100', '\x00', ' ']))][k]
    return {'s': s, 'key': None}


# ------------------------------------------------------------------ client data

def render_client_data(cd):
    """cd: ordered list of (key, value) members plus a rendering style."""
    d = dict(cd['members'])
    if cd['style'] & 1:
        d = dict(reversed(list(d.items())))
    kw = {}
    if cd['style'] & 2:
        kw['ensure_ascii'] = False
    if cd['style'] & 4:
        kw['indent'] = 1
    elif cd['style'] & 8:
        kw['separators'] = (',', ':')
    s = json.dumps(d, **kw)
    if cd['style'] & 16:
        s = '\r\n\t ' + s + ' \n'
    return s.encode('utf-8', 'surrogatepass')


JUNK = st.recursive(st.none() | st.booleans() | st.integers(-3, 3) | st.text(max_size=4),
                    lambda x: st.lists(x, max_size=2) | st.dictionaries(st.text(max_size=3), x,
                                                                       max_size=2), max_leaves=4)


# ------------------------------------------------------------------ authenticator data

def render_auth_data(ad):
    out = ad['rp_hash'] + bytes([ad['flags']]) + struct.pack('>I', ad['count'])
    if ad.get('acd') is not None:
        a = ad['acd']
        out += a['aaguid'] + struct.pack('>H', len(a['cid'])) + a['cid']
        m = a['map'] if 'map' in a else cose_map(a['key'])
        out += cborx.encode(m, a.get('enc', ()))
    if ad.get('ext') is not None:
        out += cborx.encode(ad['ext'], ad.get('enc', ()))
    return out


# ------------------------------------------------------------------ relying-party configuration



@memo
def token_binding():
    return st.one_of(
        st.none(), st.none(),
        st.tuples(st.just('supported'), st.none() | tb_ids()),
        st.tuples(st.just('present'), tb_ids()))


@memo
def tb_ids():
    return st.one_of(st.sampled_from(TB_IDS), text(8), st.sampled_from(TB_IDS).map(near_texts).flatmap(st.sampled_from))




@memo
def rp_id():
    return st.one_of(st.sampled_from(RP_IDS), text(20))


@st.composite
def rp_config(draw):
    n = draw(st.sampled_from([1, 1, 1, 1, 1, 2, 2, 3, 3, 4, 4, 9]))
    origins = draw(st.lists(valid_origin(), min_size=n, max_size=n))
    single = n == 1 and draw(st.booleans())
    return {
        'rp_id': draw(rp_id()),
        'challenge': draw(st.one_of(blob(16, 64), blob(0, 80), blob(60, 1500))),
        'origins': origins,
        'container': 'str' if single else draw(st.sampled_from(
            ['list', 'tuple', 'set', 'frozenset', 'dict'])),
        'tb': draw(token_binding()),
        'uv': draw(st.booleans()),
        'ext': draw(st.none() | st.lists(st.sampled_from(sorted(EXT)), unique=True,
                                         max_size=draw(st.sampled_from([3, 3, 3, 9])))),
    }


def expected_origin(cfg):
    o = [x['s'] for x in cfg['origins']]
    c = cfg['container']
    if c == 'str':
        return o[0]
    return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset,
            'dict': dict.fromkeys}[c](o)


# ------------------------------------------------------------------ honest response, then deviations

@st.composite
def client_data(draw, cfg, typ, devs):
    """Client data for cfg; each name in devs alters that member."""
    chal = b64url(cfg['challenge'], draw(st.booleans()))
    ok_type = typ
    bad_challenge = False
    if 'type' in devs:
        typ = draw(st.one_of(st.sampled_from(
            ['webauthn.get', 'webauthn.create', '', 'webauthn', 'Webauthn.create', 'webauthn.get ',
             'webauthn.Get', 'webauthn.create\x00', ' webauthn.create', 'webauthn.creat',
             'webauthn.getx', 'webauthn.createx', 'WEBAUTHN.GET', 'webauthn_create',
             'payment.get', 'get', 'create']), text(12)))
    if 'challenge' in devs:
        c = bytearray(cfg['challenge'])
        k = draw(st.integers(0, 10))
        if k == 0 and c:
            i = draw(st.integers(0, len(c) - 1))
            c[i] ^= 1 << draw(st.integers(0, 7))
        elif k == 7 and c:
            c[-1] ^= draw(st.integers(1, 255))
        elif k == 8 and c:
            c[0] ^= draw(st.integers(1, 255))
        elif k == 10 and c:
            # the same text but for the case of letters
            s = b64url(bytes(c))
            i = draw(st.integers(0, len(s)))
            s = draw(st.sampled_from([s.lower(), s.upper(), s.swapcase(), s[:i] + s[i:].swapcase()]))
            c = bytearray(base64.urlsafe_b64decode(s + '=' * (-len(s) % 4)))
        elif k == 9 and len(c) > 1:
            i, j = draw(st.integers(0, len(c) - 1)), draw(st.integers(0, len(c) - 1))
            c[i], c[j] = c[j], c[i]
        elif k == 1 and c:
            c = c[:draw(st.integers(0, len(c) - 1))]
        elif k == 2:
            c += draw(st.binary(min_size=1, max_size=3))
        elif k == 3 and c:
            c = c[1:]
        elif k == 4:
            c = bytearray(b'')
        elif k == 5:
            c = c[::-1]
        else:
            c = bytearray(draw(blob(0, 64)))
        chal = b64url(bytes(c), draw(st.booleans()))
        bad_challenge = bytes(c) != cfg['challenge']
    if 'origin' in devs:
        others = [near_origin(cfg['origins'][0]['key'] or ('https', 'example.com', 443)),
                  near_origin(cfg['origins'][-1]['key'] or ('https', 'a.b', 443)), invalid_origin()]
        if PLAIN_HOST.match(cfg['rp_id']):
            others.append(rp_id_origin(cfg['rp_id']))
        o = draw(st.one_of(*others))
    else:
        pick = draw(st.sampled_from(cfg['origins']))
        o = pick
        if pick['key'] is not None and draw(st.booleans()):
            o = {'s': render_origin(*pick['key'], draw(style())), 'key': pick['key']}
    tb = cfg['tb']
    if 'tb' in devs:
        tb = draw(st.one_of(
            token_binding(),
            st.just(('present', (cfg['tb'][1] or '') + 'x') if cfg['tb'] else ('supported', None)),
            st.just(('supported', cfg['tb'][1]) if cfg['tb'] else ('present', '')),
            st.sampled_from(near_texts(cfg['tb'][1] or '' if cfg['tb'] else '')).map(
                lambda s: (cfg['tb'][0] if cfg['tb'] else 'present', s))))
    members = [('type', typ), ('challenge', chal), ('origin', o['s'])]
    if tb is not None:
        t = {'status': tb[0]}
        if tb[1] is not None:
            t['id'] = tb[1]
        elif draw(st.booleans()):
            t['id'] = None
        members.append(('tokenBinding', t))
    elif draw(st.integers(0, 5)) == 0:
        members.append(('tokenBinding', None))
    if draw(st.integers(0, 3)) == 0:
        members += list(draw(st.dictionaries(
            st.sampled_from(['crossOrigin', 'hashAlgorithm', 'extra', 'Type', 'clientExtensions']),
            JUNK, max_size=2)).items())
    if draw(st.integers(0, 24)) == 0:
        members.append(('padding', 'p' * draw(sizes(200, 70000))))
    return {'members': members, 'style': draw(st.sampled_from([0, 0, 8, 1, 2, 4, 16, 31])),
            'm': {'type_ok': typ == ok_type, 'challenge_ok': not bad_challenge,
                  'origin': o['key'], 'tb': tb}}


def norm_origin(k):
    return (k[0], k[1].lower(), k[2])


def client_violations(cfg, cd):
    v = set()
    m = cd['m']
    allowed = [o['key'] for o in cfg['origins']]
    if not allowed or any(k is None for k in allowed):
        v.add('origin')
    if not m['type_ok']:
        v.add('type')
    if not m['challenge_ok']:
        v.add('challenge')
    if m['origin'] is None or norm_origin(m['origin']) not in [norm_origin(k) for k in allowed
                                                              if k is not None]:
        v.add('origin')
    if (cfg['tb'] is None) != (m['tb'] is None):
        v.add('tb')
    elif cfg['tb'] is not None and tuple(cfg['tb']) != tuple(m['tb']):
        v.add('tb')
    return v


@st.composite
def auth_data(draw, cfg_rp_id, cfg, devs, acd):
    flags = UP | draw(st.integers(0, 255)) & (UV | 2 | 8 | 16 | 32)
    if cfg['uv']:
        flags |= UV
    if 'up' in devs:
        flags &= ~UP
    if 'uv' in devs:
        flags &= ~UV
    need = list(cfg['ext'] or [])
    ext = draw(st.none() | ext_map())
    if need and 'ext' not in devs:
        ext = dict(ext or {})
        for n in need:
            if ext.get(n) is None:
                ext[n] = draw(ext_value(n))
    elif need and 'ext' in devs:
        ext = dict(ext or {})
        for n in need:
            if draw(st.integers(0, 2)):
                ext[n] = draw(ext_value(n))
        miss = draw(st.sampled_from(need))
        if draw(st.booleans()):
            ext[miss] = None
        else:
            ext.pop(miss, None)
        if not ext and draw(st.booleans()):
            ext = None
    rp = cfg_rp_id
    h = sha256(rp.encode('utf-8'))
    if 'rphash' in devs:
        k = draw(st.integers(0, 5))
        if k == 0:
            i = draw(st.integers(0, 31))
            h = h[:i] + bytes([h[i] ^ 1 << draw(st.integers(0, 7))]) + h[i + 1:]
        elif k == 1:
            h = sha256(draw(st.sampled_from(near_texts(rp))).encode('utf-8'))
        elif k == 2:
            h = draw(st.sampled_from([bytes(32), b'\xff' * 32, sha256(b'')]))
        elif k == 3:
            h = h[::-1]
        elif k == 4:
            h = hashlib.sha512(rp.encode('utf-8')).digest()[:32]
        else:
            h = draw(st.binary(min_size=32, max_size=32))
    if acd is not None:
        flags |= AT
    if ext is not None:
        flags |= ED
    return {'rp_hash': h, 'flags': flags, 'count': draw(biased_ints(0, 2**32 - 1)), 'acd': acd,
            'ext': ext, 'enc': draw(small_choices())}


def auth_data_violations(cfg, ad):
    v = set()
    if not ad['flags'] & UP:
        v.add('up')
    if cfg['uv'] and not ad['flags'] & UV:
        v.add('uv')
    for n in cfg['ext'] or []:
        if ad['ext'] is None or ad['ext'].get(n) is None:
            v.add('ext')
    return v


ERRORS = {
    'type': 'ClientDataTypeError', 'challenge': 'ChallengeError', 'origin': 'OriginError',
    'tb': 'TokenBindingError', 'rphash': 'RPIDHashError', 'up': 'UserPresenceError',
    'uv': 'UserVerificationError', 'ext': 'ExtensionError', 'keypair': 'ValidationError',
    'att': 'AttestationError', 'unimpl': 'UnimplementedError',
    'allow': 'CredentialNotAllowedError', 'stored': 'CredentialDataError', 'user': 'UserIDError',
    'handle': 'UserHandleError', 'norp': 'RPNotFoundError', 'rp': 'RPIDError',
    'sig': 'VerificationError', 'count': 'SignatureCountError'}


# ------------------------------------------------------------------ bad signatures

@st.composite
def sig_deviation(draw, fields):
    """A recipe for a signature that must not verify."""
    return draw(st.one_of(
        st.tuples(st.just('field'), st.sampled_from(fields), st.integers(0, 10**6)),
        st.tuples(st.just('flip'), st.integers(0, 10**6), st.integers(0, 7)),
        st.tuples(st.just('otherkey'), st.integers(0, 30)),
        st.tuples(st.just('otherhash'), st.integers(0, 1)),
        st.tuples(st.just('empty')),
        st.tuples(st.just('junk'), st.binary(max_size=80)),
        st.tuples(st.just('cut'), st.integers(1, 200)),
        st.tuples(st.just('zero'), st.integers(0, 3)),
        st.tuples(st.just('drop'), st.sampled_from(fields)),
        st.tuples(st.just('dup'), st.sampled_from(fields)),
        st.tuples(st.just('slice'), st.sampled_from(fields), st.sampled_from([1, 16, 31, 32, 33, 36, 37, 37, 37, 64]),
                  st.booleans()),
        st.tuples(st.just('slice'), st.just(fields[0]), st.sampled_from([32, 33, 37, 37, 37]), st.booleans()),
        st.tuples(st.just('tail'), st.integers(1, 130) | st.sampled_from([8, 16, 32, 57, 64, 96, 114]),
                  st.integers(0, 3), st.booleans()),
        st.tuples(st.just('order')), st.tuples(st.just('rehash'), st.sampled_from(fields))))


def make_signature(key, alg, parts, dev):
    """Sign the concatenation of parts (list of (name, bytes)); dev alters it. Returns
    (signature, is_valid). Recipes that happen to change nothing give a valid signature."""
    data = b''.join(b for _, b in parts)
    good = key.sign(data, alg)
    if dev is None:
        return good, True
    kind = dev[0]
    if kind in ('field', 'drop', 'dup', 'slice', 'order', 'rehash'):
        out = b''
        for n, b in parts[::-1] if kind == 'order' else parts:
            if kind != 'order' and n == dev[1]:
                if kind == 'slice':
                    b = b[:dev[2]] if dev[3] else b[dev[2]:]
                elif kind == 'rehash':
                    b = sha256(b)
                elif kind == 'drop':
                    b = b''
                elif kind == 'dup':
                    b = b + b
                elif b:
                    i = dev[2] % len(b)
                    b = b[:i] + bytes([b[i] ^ 1 << dev[2] % 7]) + b[i + 1:]
            out += b
        return key.sign(out, alg), out == data
    if kind == 'flip':
        i = dev[1] % len(good)
        return good[:i] + bytes([good[i] ^ 1 << dev[2]]) + good[i + 1:], False
    if kind == 'otherkey':
        d = key.d + dev[1]
        if key.ec:
            n = curves.ALL[key.crv].n
            # 0: the point with the same x and the other y
            d = d % (n - 1) + 1 if dev[1] else n - key.d
            if d == key.d:
                return good, True
        elif not dev[1]:
            d += 1
        return Key(key.crv, d, key.alg).sign(data, alg), False
    if kind == 'otherhash':
        if not key.ec:
            return key.sign(sha256(data)), False
        others = [a for a in ('ES256', 'ES384', 'ES512') if a != alg]
        return key.sign(data, others[dev[1]]), False
    if kind == 'empty':
        return b'', False
    if kind == 'junk':
        return dev[1], False
    if kind == 'tail':
        more = [bytes(dev[1]), (good * 3)[:dev[1]], b'\xff' * dev[1], sha256(good) * 5][dev[2]][:dev[1]]
        return more + good if dev[3] else good + more, False
    if kind == 'cut':
        return good[:max(0, len(good) - dev[1])], False
    if kind == 'zero':
        if not key.ec:
            return bytes(len(good)), False
        return curves.sig_der(dev[1] & 1, dev[1] >> 1), False
    raise KeyError(kind)


# ------------------------------------------------------------------ Android key description

# tag -> (name, type): i integer, s set of integers, n null, o octets, r root of trust
AUTHZ = {1: ('purpose', 's'), 2: ('algorithm', 'i'), 3: ('keySize', 'i'), 5: ('digest', 's'),
         6: ('padding', 's'), 10: ('ecCurve', 'i'), 200: ('rsaPublicExponent', 'i'),
         303: ('rollbackResistance', 'n'), 400: ('activeDateTime', 'i'),
         401: ('originationExpireDateTime', 'i'), 402: ('usageExpireDateTime', 'i'),
         503: ('noAuthRequired', 'n'), 504: ('userAuthType', 'i'), 505: ('authTimeout', 'i'),
         506: ('allowWhileOnBody', 'n'), 507: ('trustedUserPresenceRequired', 'n'),
         508: ('trustedConfirmationRequired', 'n'), 509: ('unlockedDeviceRequired', 'n'),
         600: ('allApplications', 'n'), 601: ('applicationId', 'o'),
         701: ('creationDateTime', 'i'), 702: ('origin', 'i'), 703: ('rollbackResistant', 'n'),
         704: ('rootOfTrust', 'r'), 705: ('osVersion', 'i'), 706: ('osPatchLevel', 'i'),
         709: ('attestationApplicationId', 'o'), 710: ('attestationIdBrand', 'o'),
         711: ('attestationIdDevice', 'o'), 712: ('attestationIdProduct', 'o'),
         713: ('attestationIdSerial', 'o'), 714: ('attestationIdImei', 'o'),
         715: ('attestationIdMeid', 'o'), 716: ('attestationIdManufacturer', 'o'),
         717: ('attestationIdModel', 'o'), 718: ('vendorPatchLevel', 'i'),
         719: ('bootPatchLevel', 'i')}


@memo
def asn_int():
    return st.one_of(st.integers(0, 10), biased_ints(-2**33, 2**64))


@st.composite
def authz_value(draw, typ):
    if typ == 'i':
        return draw(asn_int())
    if typ == 's':
        return draw(st.lists(asn_int(), max_size=4))
    if typ == 'n':
        return None
    if typ == 'o':
        return draw(st.binary(max_size=12))
    return (draw(st.binary(max_size=33)), draw(st.booleans()), draw(st.integers(0, 3)),
            draw(st.binary(max_size=33)))


@st.composite
def authz_list(draw, exclude=(), max_size=5):
    tags = draw(st.lists(st.sampled_from([t for t in sorted(AUTHZ) if t not in exclude]),
                         unique=True, max_size=max_size))
    return {t: draw(authz_value(AUTHZ[t][1])) for t in tags}


def authz_der(a, order=None):
    out = []
    for t in (order or sorted(a)):
        v = a[t]
        typ = AUTHZ[t][1]
        if typ == 'i':
            body = der.integer(v)
        elif typ == 's':
            body = der.set_of([der.integer(x) for x in v])
        elif typ == 'n':
            body = der.null()
        elif typ == 'o':
            body = der.octets(v)
        else:
            body = der.seq(der.octets(v[0]), der.boolean(v[1]), der.enumerated(v[2]),
                           der.octets(v[3]))
        out.append(der.ctx(t, body))
    return der.seq(*out)


def kd_der(kd):
    return der.seq(der.integer(kd['av']), der.enumerated(kd['asl']), der.integer(kd['kv']),
                   der.enumerated(kd['ksl']), der.octets(kd['challenge']), der.octets(kd['uid']),
                   authz_der(kd['se']), authz_der(kd['tee']))


KD_OID = '1.3.6.1.4.1.11129.2.1.17'


# ------------------------------------------------------------------ attestation

ANDROID_DEVS = ['nocert', 'badcert', 'otherkey', 'sig', 'noext', 'badder', 'challenge', 'allapps_se',
                'allapps_tee', 'origin_none', 'origin_val', 'purpose_none', 'purpose_val', 'rsa',
                'origin_se', 'purpose_se', 'alg', 'order']
U2F_DEVS = ['ncert', 'badcert', 'curve', 'sig', 'rsa', 'credkey', 'okpcert']


@memo
def looks():
    return st.one_of(st.just(0), st.integers(0, 767))


@memo
def versions():
    return st.one_of(st.integers(0, 5), st.sampled_from([100, 200, 300, 400, -1]), biased_ints(-2**31, 2**40))


@st.composite
def android_att(draw, devs):
    """Everything about an android-key statement except the key and the signed data."""
    se = draw(authz_list(exclude=(600, )))
    tee = draw(authz_list(exclude=(600, 1, 702)))
    tee[702] = 0
    others = draw(st.lists(st.sampled_from([0, 1, 3, 4, 5, 6]), max_size=3, unique=True))
    tee[1] = others + [2]
    a = {'fmt': 'android-key', 'devs': sorted(devs), 'av': draw(versions()),
         'asl': draw(st.integers(0, 2)), 'kv': draw(versions()),
         'ksl': draw(st.integers(0, 2)), 'uid': draw(blob(0, 300)), 'se': se, 'tee': tee,
         'more': draw(st.integers(0, 2)), 'exts': draw(st.integers(0, 3)),
         'names': draw(st.booleans()), 'p': draw(st.integers(0, 10**6)), 'sig': None,
         'stated': draw(st.integers(0, 3)), 'look': draw(looks())}
    if 'sig' in devs:
        a['sig'] = draw(sig_deviation(['ad', 'cdh']))
    if 'allapps_se' in devs:
        se[600] = None
    if 'allapps_tee' in devs:
        tee[600] = None
    if 'origin_none' in devs or 'origin_se' in devs:
        del tee[702]
        if 'origin_se' in devs:
            se[702] = 0
    elif 'origin_val' in devs:
        tee[702] = draw(st.one_of(st.integers(1, 4), st.sampled_from([-1, 2, 256, 2**32])))
    if 'purpose_none' in devs or 'purpose_se' in devs:
        del tee[1]
        if 'purpose_se' in devs:
            se[1] = [2]
    elif 'purpose_val' in devs:
        tee[1] = draw(st.lists(st.sampled_from([0, 1, 3, 4, 5, 258, -2, 22]), max_size=3,
                               unique=True))
    return a


@st.composite
def attestation(draw, devs, fmts=None):
    """devs may contain 'att' (make the attestation fail) and 'unimpl'; fmts limits the format."""
    if 'unimpl' in devs:
        return draw(st.fixed_dictionaries({
            'fmt': st.sampled_from(['packed', 'tpm', 'android-safetynet']),
            'alg': st.sampled_from(sorted(ALG)), 'v': st.integers(0, 2),
            'sig': st.one_of(st.just(b''), st.binary(max_size=72), blob(0, 3000)),
            'ver': st.one_of(st.sampled_from(['2.0', '1', '', '0', '1.2', '14366018']), text(8)),
            'b1': st.one_of(st.just(b''), blob(0, 3000)), 'b2': st.one_of(st.just(b''), blob(0, 3000)),
            'x5c': longer(st.lists(st.one_of(st.just(b''), blob(0, 1500)), max_size=3))}))
    fmt = draw(st.sampled_from(fmts or (['none', 'fido-u2f', 'android-key'] if 'att' not in devs
                                        else ['fido-u2f', 'android-key'])))
    if fmt == 'none':
        return {'fmt': 'none'}
    if fmt == 'fido-u2f':
        dv = set()
        if 'att' in devs:
            dv = set(draw(st.lists(st.sampled_from(U2F_DEVS + ['sig'] * 3), min_size=1, max_size=2,
                                   unique=True)))
        return {'fmt': fmt, 'devs': sorted(dv), 'certd': draw(st.integers(1, 40)),
                'n': draw(st.sampled_from([0, 2, 3])), 'p': draw(st.integers(0, 10**6)),
                'nonce': draw(st.integers(0, 3)), 'look': draw(looks()),
                'sig': draw(sig_deviation(['zero', 'rp', 'cdh', 'cid', 'four', 'x', 'y'])) if
                'sig' in dv else None}
    dv = set()
    if 'att' in devs:
        dv = set(draw(st.lists(st.sampled_from(ANDROID_DEVS), min_size=1, max_size=2,
                               unique=True)))
    return draw(android_att(dv))


def bad_certificate(p, key, exts, full):
    """A certificate that does not load, or carries no usable key (or, with full, no usable
    extensions); otherwise everything about it is right."""
    cert = curves.certificate(key.spki(), exts)
    ec_oid, p256 = der.oid('1.2.840.10045.2.1'), der.oid('1.2.840.10045.3.1.7')
    k = Key('P-256', 5, 'ES256')
    pt = b'\x04' + k.x + k.y

    def spki(alg, *params, point=pt):
        return der.seq(der.seq(alg, *params), der.bits(point))

    out = [b'', cert[:-1], cert[:40], b'\x30\x00', b'junk', cert[1:],
           curves.certificate(key.spki(), exts, version=9),
           curves.certificate(spki(ec_oid, p256, point=b'\x04' + k.x + k.x), exts),
           curves.certificate(spki(ec_oid, der.oid('1.2.3.4')), exts),
           curves.certificate(spki(ec_oid), exts),
           curves.certificate(spki(ec_oid, der.seq(der.integer(1))), exts),
           curves.certificate(spki(der.oid('1.2.3')), exts),
           curves.certificate(spki(der.oid('1.3.101.112'), point=bytes(31)), exts),
           curves.certificate(spki(der.oid('1.3.101.110'), point=bytes(31) + b'\x09'), exts)]
    if not full:
        # (with android-key the error depends on whether the key is compared or used first)
        out.append(curves.certificate(spki(ec_oid, p256, point=b'\x00'), exts))
    if full:
        out += [curves.certificate(key.spki(), list(exts) + list(exts[:1]) * 2 + [('1.2.3', False, b'x')] * 2),
                curves.certificate(key.spki(), list(exts) + [('2.5.29.19', False, b'x')]),
                curves.certificate(key.spki(), [('2.5.29.17', False, b'\x30\x02\x82\x05')] + list(exts))]
    return out[p % len(out)]


def bad_key_description(p, kd):
    """A description that is not one per the schema; most keep every value the attester looks at."""
    good = kd_der(kd)
    parts = [der.integer(kd['av']), der.enumerated(kd['asl']), der.integer(kd['kv']),
             der.enumerated(kd['ksl']), der.octets(kd['challenge']), der.octets(kd['uid']),
             authz_der(kd['se']), authz_der(kd['tee'])]
    tee_items = [der.ctx(1, der.set_of([der.integer(2)])), der.ctx(702, der.integer(0))]
    i = p // 19 % 8
    return [b'', good[:-1], b'\x04' + good[1:], b'\x30\x00', good[:10],
            der.seq(der.octets(b'1'), good[4:]),
            der.seq(*(parts[:i] + parts[i + 1:])),
            der.seq(*(parts[:7])),
            der.seq(*(parts + [parts[i]])),
            der.seq(*(parts[:i % 6] + [der.octets(b'') if i % 6 < 4 else der.integer(1)] + parts[i % 6 + 1:])),
            der.seq(*(parts[:7] + [der.seq(*(tee_items[::-1]))])),
            der.seq(*(parts[:7] + [der.seq(*(tee_items + tee_items[1:]))])),
            der.seq(*(parts[:7] + [der.seq(*(tee_items + [der.ctx(720, der.integer(0))]))])),
            der.seq(*(parts[:7] + [der.seq(tee_items[0], der.ctx(702, der.octets(b'\x00')))])),
            der.seq(*(parts[:7] + [der.seq(tee_items[0], der.integer(0))])),
            der.seq(*(parts[:7] + [der.seq(der.ctx(1, der.integer(2)), tee_items[1])])),
            der.seq(*(parts[:7] + [der.tlv(0x31, b''.join(tee_items))])),
            der.seq(*(parts[:7] + [der.seq(*(tee_items + [der.ctx(704, der.seq(
                der.octets(b'k'), der.boolean(True), der.enumerated(0)))]))])),
            der.seq(*(parts[:1] + parts[2:3] + parts[1:2] + parts[3:])),
            ][p % 19]


def build_att(att, acd, raw_ad, rp_hash, cdh):
    """(attStmt map, ok) for the given attestation recipe."""
    fmt = att['fmt']
    if fmt == 'none':
        return {}, True
    if fmt == 'packed' or fmt == 'tpm':
        m = {'alg': ALG[att['alg']], 'sig': att['sig']}
        if fmt == 'tpm':
            m.update(ver=att['ver'], certInfo=att['b1'], pubArea=att['b2'])
        if att['v'] == 1:
            m['x5c'] = list(att['x5c'])
        elif att['v'] == 2:
            m['ecdaaKeyId'] = att['b1']
        if fmt == 'packed' and att['v'] == 0:
            m['alg'] = ALG[acd['key']['alg']]
            m['sig'] = the_key(acd['key']).sign(raw_ad + cdh)
        return m, None
    if fmt == 'android-safetynet':
        return {'ver': att['ver'], 'response': att['sig']}, None
    devs = set(att['devs'])
    key = the_key(acd['key'])
    ok = not devs - {'sig'}
    if fmt == 'fido-u2f':
        crv = 'P-256'
        if 'curve' in devs:
            crv = ['P-384', 'secp256k1', 'P-521', 'brainpoolP256r1', 'P-224'][att['p'] % 5]
        ck = Key(crv, att['certd'], 'ES256')
        spki = ck.spki()
        if 'okpcert' in devs:
            spki = Key(['Ed25519', 'Ed448'][att['p'] % 2], 1, 'EdDSA').spki()
        if 'rsa' in devs:
            spki = curves.rsa_spki(2**2047 + 2 * att['p'] + 1)
        cert = curves.certificate(spki, look=att.get('look', 0))
        if 'badcert' in devs:
            cert = bad_certificate(att['p'], ck, [], False)
        y = key.y if key.ec else b''
        if not (key.ec and key.crv == 'P-256'):
            ok = False
        parts = [('zero', b'\x00'), ('rp', rp_hash), ('cdh', cdh), ('cid', acd['cid']),
                 ('four', b'\x04'), ('x', key.x), ('y', y)]
        sig, sig_ok = make_signature(ck, 'ES256', parts, att['sig'])
        ok = ok and sig_ok
        x5c = [cert]
        if 'ncert' in devs:
            x5c = [cert] * att['n']
            if att['n'] == 2 and att['p'] & 1:
                x5c[att['p'] >> 1 & 1] = curves.certificate(Key('P-256', 9, 'ES256').spki())
        return {'sig': sig, 'x5c': x5c}, ok
    # android-key
    sk = key
    if 'otherkey' in devs:
        sk = Key(key.crv, key.d % 50 + 1 if key.d % 50 + 1 != key.d else 51, key.alg)
        if key.ec and att['p'] % 3 == 0:
            # the same x and the other y
            sk = Key(key.crv, CURVES[key.crv].n - key.d, key.alg)
    challenge = cdh
    if 'challenge' in devs:
        p = att['p']
        challenge = [cdh[:-1], cdh + b'\x00', b'', cdh[:-1] + bytes([cdh[-1] ^ 1]), sha256(cdh),
                     bytes([cdh[0] ^ 0x80]) + cdh[1:], cdh[::-1], raw_ad[:32]][p % 8]
        if challenge == cdh:
            challenge = b'x'
    kd = dict(att, challenge=challenge)
    blob_ = kd_der(kd)
    if 'badder' in devs:
        blob_ = bad_key_description(att['p'], kd)
    extra = [('1.2.3.4', False, b'zz'), ('1.3.6.1.4.1.11129.2.1.18', False, blob_)]
    exts = [] if 'noext' in devs else [(KD_OID, att['p'] // 11 % 3 == 1, blob_)]
    if att['exts'] & 1:
        exts = exts + extra[:1]
    if att['exts'] & 2:
        exts = extra[1:] + exts
    spki = sk.spki()
    if 'rsa' in devs:
        spki = curves.rsa_spki(2**2047 + 2 * att['p'] + 1)
    cert = curves.certificate(spki, exts, look=att.get('look', 0))
    if 'badcert' in devs:
        cert = bad_certificate(att['p'], sk, exts, True)
    alg = stated = sk.alg
    if 'sig' in devs:
        devs.discard('alg')  # signing with the other hash could make the pair valid again
        ok = not devs - {'sig'}
    if sk.ec:
        alg = stated = ['ES256', 'ES384', 'ES512', sk.alg][att.get('stated', 3) % 4]
        if 'alg' in devs:
            stated = [v for v in sorted(ALG) if v != alg][att['p'] % 3]
    sig, sig_ok = make_signature(sk, alg, [('ad', raw_ad), ('cdh', cdh)], att['sig'])
    if 'alg' in devs and not sk.ec:
        ok = not devs - {'sig', 'alg'}  # the stated algorithm of an Ed25519 or Ed448 key is not judged
    ok = ok and sig_ok
    # what the other certificates say does not matter; some carry the right extension and key
    proper = [(KD_OID, False, kd_der(dict(att, challenge=cdh, se={}, tee={1: [2], 702: 0})))]
    spare = Key('P-256', 61, 'ES256').spki()
    rest = [curves.certificate(*[(spare, []), (spare, proper), (key.spki(), proper), (sk.spki(), exts),
                                 (spare, [(KD_OID, False, b'\x30\x00')])][att['p'] // 7 % 5]),
            curves.certificate(*[(key.spki(), proper), (spare, [])][att['p'] // 3 % 2])]
    odd = att['p'] // 13 % 7
    if odd < 3:
        rest[odd % 2] = [b'', b'junk', cert[:-1]][odd] if odd < 2 or att['p'] % 2 else curves.certificate(
            curves.rsa_spki(2**2047 + 1), exts)
    x5c = [cert] + rest[:att['more']]
    if 'nocert' in devs:
        x5c = []
    if 'order' in devs:
        x5c = [curves.certificate(spare, [[], proper][att['p'] % 2])] + x5c
    return {'alg': stated if att['names'] else ALG[stated], 'sig': sig, 'x5c': x5c}, ok


# ------------------------------------------------------------------ registration

REG_DEVS = ['type', 'challenge', 'origin', 'tb', 'rphash', 'up', 'uv', 'ext', 'keypair', 'att',
            'unimpl', 'noacd', 'exporig']


@st.composite
def registration(draw, cfg=None, max_devs=3, allow=REG_DEVS, fmts=None):
    cfg = dict(cfg or draw(rp_config()))
    devs = set()
    if allow and draw(st.integers(0, 9)) >= 3:
        devs = set(draw(st.lists(st.sampled_from(allow), min_size=1, max_size=max_devs,
                                 unique=True)))
    if 'uv' in devs:
        cfg['uv'] = True
    if 'ext' in devs and not cfg['ext']:
        cfg['ext'] = draw(st.lists(st.sampled_from(sorted(EXT)), unique=True, min_size=1,
                                   max_size=draw(st.sampled_from([3, 3, 9]))))
    if 'exporig' in devs:
        bad = draw(invalid_origin())
        if draw(st.booleans()):
            cfg.update(origins=[], container=draw(st.sampled_from(['list', 'tuple', 'set'])))
        else:
            cfg.update(origins=cfg['origins'] + [bad],
                       container=draw(st.sampled_from(['list', 'tuple', 'set'])))
    src = cfg if cfg['origins'] else dict(cfg, origins=[draw(valid_origin())])
    cd = draw(client_data(src, 'webauthn.create', devs))
    att = draw(attestation(devs, fmts))
    acd = None
    if 'noacd' not in devs:
        k = draw(key_spec())
        if att['fmt'] == 'fido-u2f' and 'credkey' not in att['devs']:
            k = draw(key_spec(curve='P-256'))
        elif att['fmt'] == 'fido-u2f':
            k = draw(key_spec(curve=draw(st.sampled_from(['P-384', 'P-521', 'Ed25519', 'Ed448']))))
        if 'keypair' in devs:
            k['alg_override'] = True
        acd = {'aaguid': draw(st.binary(min_size=16, max_size=16)), 'cid': draw(blob(0, 1023)),
               'key': k, 'enc': draw(small_choices())}
    ad = draw(auth_data(cfg['rp_id'], cfg, devs, acd))
    return {'cfg': cfg, 'cd': cd, 'ad': ad, 'att': att, 'enc': draw(small_choices()),
            'raw_id': draw(st.none() | blob(0, 64)),
            'user': {'id': draw(blob(0, 64)), 'name': draw(text(8)),
                     'display_name': draw(text(8))},
            'rp_name': draw(text(8)), 'extra': draw(st.booleans()), 'cid_text': draw(id_text())}


def build_registration(c):
    """Returns (kwargs for handle_credential_attestation, violated requirements, details)."""
    from webauthn_rp import types as t
    cfg, cd, ad, att = c['cfg'], c['cd'], c['ad'], c['att']
    viol = client_violations(cfg, cd) | auth_data_violations(cfg, ad)
    if ad['rp_hash'] != sha256(cfg['rp_id'].encode('utf-8')):
        viol.add('rphash')
    raw_cd = render_client_data(cd)
    cdh = sha256(raw_cd)
    ad2 = ad
    if ad['acd'] is not None and ad['acd']['key'].get('alg_override'):
        m = cose_map(ad['acd']['key'])
        wrong = 'ES256' if ad['acd']['key']['alg'] == 'EdDSA' else 'EdDSA'
        m[3] = wrong if ad['acd']['key']['names'] & 2 else ALG[wrong]
        ad2 = dict(ad, acd=dict(ad['acd'], map=m))
        viol.add('keypair')
    raw_ad = render_auth_data(ad2)
    stmt_acd = ad['acd']
    if stmt_acd is None:
        viol.add('noacd')
        stmt_acd = {'cid': b'c', 'key': {'crv': 'P-256', 'd': 1, 'alg': 'ES256', 'names': 0,
                                         'kid': None, 'ops': None, 'iv': None}}
    stmt, ok = build_att(att, stmt_acd, raw_ad, ad['rp_hash'], cdh)
    if ok is None:
        viol.add('unimpl')
    elif not ok:
        viol.add('att')
    obj = {'fmt': att['fmt'], 'attStmt': stmt, 'authData': raw_ad}
    if c['extra']:
        obj = {'authData': raw_ad, 'fmt': att['fmt'], 'attStmt': stmt}
    raw_obj = cborx.encode(obj, c['enc'])
    raw_id = c['raw_id'] if c['raw_id'] is not None else stmt_acd['cid']
    cred = t.PublicKeyCredential(
        id=b64url(raw_id) if c.get('cid_text') is None else c['cid_text'], type='public-key',
        raw_id=raw_id,
        response=t.AuthenticatorAttestationResponse(client_data_JSON=raw_cd,
                                                    attestation_object=raw_obj))
    kw = dict(credential=cred, user=t.PublicKeyCredentialUserEntity(**c['user']),
              rp=t.PublicKeyCredentialRpEntity(name=c['rp_name'], id=cfg['rp_id']),
              expected_challenge=cfg['challenge'], expected_origin=expected_origin(cfg))
    add_options(kw, cfg)
    return kw, viol, {'raw_ad': raw_ad, 'stmt': stmt, 'cdh': cdh, 'raw_obj': raw_obj,
                      'raw_cd': raw_cd, 'ad': ad2}


def add_options(kw, cfg):
    from webauthn_rp import types as t
    if cfg['tb'] is not None:
        kw['token_binding'] = t.TokenBinding(status=t.TokenBindingStatus(cfg['tb'][0]),
                                             id=cfg['tb'][1])
    if cfg['uv']:
        kw['require_user_verification'] = True
    if cfg['ext'] is not None:
        kw['expected_extensions'] = {t.ExtensionIdentifier(n) for n in cfg['ext']}


# ------------------------------------------------------------------ authentication

AUTH_DEVS = ['type', 'challenge', 'origin', 'tb', 'rphash', 'up', 'uv', 'ext', 'exporig', 'allow',
             'stored', 'user', 'handle', 'norp', 'rp', 'sig', 'count']


def near_bytes(b):
    opts = [b + b'\x00', b'\x00' + b, b[:-1], b[1:], b.upper(), b.lower(), b.strip(), b'', b[::-1], b.swapcase(),
            b * 2, b64url(b).encode(), b64url(b, True).encode(), b.hex().encode(), sha256(b), b.lstrip(b'\0'),
            b.rstrip(b'\0'), b + b'\n', bytes(sorted(b)), bytes(x & 0x7f for x in b)]
    if b:
        opts.append(b[:-1] + bytes([b[-1] ^ 1]))
        opts.append(bytes([b[0] ^ 0x80]) + b[1:])
    return st.one_of(st.sampled_from(opts), blob(0, 64))


@st.composite
def authentication(draw, cfg=None, max_devs=3, allow=AUTH_DEVS, curve=None):
    cfg = dict(cfg or draw(rp_config()))
    devs = set()
    if allow and draw(st.integers(0, 9)) >= 3:
        devs = set(draw(st.lists(st.sampled_from(allow), min_size=1, max_size=max_devs,
                                 unique=True)))
    if 'uv' in devs:
        cfg['uv'] = True
    if 'ext' in devs and not cfg['ext']:
        cfg['ext'] = draw(st.lists(st.sampled_from(sorted(EXT)), unique=True, min_size=1,
                                   max_size=draw(st.sampled_from([3, 3, 9]))))
    if 'exporig' in devs:
        if draw(st.booleans()):
            cfg.update(origins=[], container=draw(st.sampled_from(['list', 'tuple', 'set'])))
        else:
            cfg.update(origins=cfg['origins'] + [draw(invalid_origin())],
                       container=draw(st.sampled_from(['list', 'tuple', 'set'])))
    src = cfg if cfg['origins'] else dict(cfg, origins=[draw(valid_origin())])
    cd = draw(client_data(src, 'webauthn.get', devs))
    acd = None
    if draw(st.integers(0, 7)) == 0:
        acd = {'aaguid': bytes(16), 'cid': draw(blob(0, 64)), 'key': draw(key_spec()), 'enc': ()}
    ad = draw(auth_data(cfg['rp_id'], cfg, devs, acd))
    k = draw(key_spec(curve=curve))
    uid = draw(blob(0, 64))
    raw_id = draw(blob(0, 1500))
    # registered / given RP: at least one of them
    mode = draw(st.sampled_from(['both', 'given', 'stored']))
    rp_given = cfg['rp_id'] if mode in ('both', 'given') else None
    rp_stored = cfg['rp_id'] if mode in ('both', 'stored') else None
    if 'norp' in devs:
        rp_given = rp_stored = None
    elif 'rp' in devs:
        rp_given = cfg['rp_id']
        r = cfg['rp_id']
        rp_stored = draw(st.sampled_from(near_texts(r) + ['x', '', r + '.evil']))
        if draw(st.booleans()):
            rp_given, rp_stored = rp_stored, rp_given
    user_given = uid if draw(st.booleans()) else None
    handle = uid if (user_given is None or draw(st.booleans())) else None
    stored_user = uid
    if 'user' in devs:
        user_given = uid
        stored_user = draw(near_bytes(uid))
        handle = draw(st.sampled_from([None, uid, stored_user]))
    if 'handle' in devs:
        handle = draw(st.one_of(st.none(), near_bytes(uid)))
    ids = None
    if 'allow' in devs:
        ids = draw(st.lists(near_bytes(raw_id).filter(lambda b: b != raw_id), max_size=3))
        if draw(st.integers(0, 7)) == 0:
            ids += [sha256(b'%d' % i) for i in range(draw(st.sampled_from([8, 20, 64])))]
    elif draw(st.booleans()):
        ids = draw(st.lists(near_bytes(raw_id), max_size=3))
        if draw(st.integers(0, 7)) == 0:
            ids += [sha256(b'%d' % i) for i in range(draw(st.sampled_from([8, 20, 64])))]
        ids.insert(draw(st.integers(0, len(ids))), raw_id)
    count_mode = draw(st.integers(0, 3))
    ignore = draw(st.integers(0, 3)) == 0
    stored_count = None
    if 'count' in devs:
        ignore = False
        stored_count = draw(st.one_of(
            st.just(ad['count']), st.just(min(2**32 - 1, ad['count'] + 1)),
            st.integers(ad['count'], 2**32 - 1), st.just(2**32 - 1)))
    elif count_mode:
        if ad['count'] == 0:
            stored_count = 0
        else:
            stored_count = draw(st.one_of(st.just(0), st.just(ad['count'] - 1),
                                          st.integers(0, ad['count'] - 1)))
        if ignore:
            stored_count = draw(st.one_of(st.just(stored_count), biased_ints(0, 2**32 - 1)))
    return {'cfg': cfg, 'cd': cd, 'ad': ad, 'key': k, 'raw_id': raw_id, 'rp_given': rp_given,
            'rp_stored': rp_stored, 'user_given': user_given, 'handle': handle,
            'stored': 'stored' not in devs, 'stored_user': stored_user, 'allow': ids,
            'same': draw(st.sampled_from([0, 3, 8, 127]) | st.integers(0, 127)),
            'count': stored_count, 'ignore': ignore,
            'sig': draw(sig_deviation(['ad', 'cdh'])) if 'sig' in devs else None,
            'nonce': draw(st.integers(0, 3)), 'cid_text': draw(id_text()),
            'transports': draw(st.sampled_from([None, None, (), ('usb',), ('internal', 'nfc'), ('ble',)])),
            'allow_tuple': draw(st.booleans())}


@memo
def id_text():
    """The id member of a credential: base64url of the raw id (None), or anything else: it is the
    raw id that identifies a credential."""
    return st.one_of(st.none(), st.none(), text(8), st.sampled_from(['', 'AAAA', 'eA', 'x']))


def count_violation(stored, received, ignore):
    if stored is None or ignore or (stored == 0 and received == 0):
        return False
    return received <= stored


def build_authentication(c):
    from webauthn_rp import types as t
    from webauthn_rp.registrars import CredentialData
    cfg, cd, ad = c['cfg'], c['cd'], c['ad']
    v = client_violations(cfg, cd) | auth_data_violations(cfg, ad)
    raw_cd = render_client_data(cd)
    raw_ad = render_auth_data(ad)
    key = the_key(c['key'])
    sig, ok = make_signature(key, c['key']['alg'],
                             [('ad', raw_ad), ('cdh', sha256(raw_cd))], c['sig'])
    data = None
    h = lambda r: sha256(r.encode('utf-8'))
    same = c.get('same', 0)  # which texts the given and the stored entities share
    if c['allow'] is not None and c['raw_id'] not in c['allow']:
        v.add('allow')
    if c['stored']:
        data = CredentialData(
            credential_public_key=lib_key(c['key']), signature_count=c['count'],
            user_entity=t.PublicKeyCredentialUserEntity(
                name='given' if same & 1 else 'stored', id=c['stored_user'],
                display_name='Given' if same & 2 else 'Stored User',
                icon='data:,1' if same & 4 else None),
            rp_entity=None if c['rp_stored'] is None else t.PublicKeyCredentialRpEntity(
                name='given rp' if same & 8 else 'stored rp', id=c['rp_stored'],
                icon='data:,2' if same & 16 else None))
        owner = c['stored_user']
        if c['user_given'] is not None:
            if c['user_given'] != owner:
                v.add('user')
                # the handle must be the user's id: with the two in conflict either may be meant
                if c['handle'] is not None and c['handle'] != owner:
                    v.add('handle')
            if c['handle'] is not None and c['handle'] != c['user_given']:
                v.add('handle')
        else:
            if c['handle'] is None or c['handle'] != owner:
                v.add('handle')
        if c['rp_given'] is None and c['rp_stored'] is None:
            v.add('norp')
        if c['rp_given'] is not None and c['rp_stored'] is not None and (
                c['rp_given'] != c['rp_stored']):
            v.add('rp')
        if any(r is not None and ad['rp_hash'] != h(r) for r in (c['rp_given'], c['rp_stored'])):
            v.add('rphash')
        if not ok:
            v.add('sig')
        if count_violation(c['count'], ad['count'], c['ignore']):
            v.add('count')
    else:
        v.add('stored')
        if c['rp_given'] is not None and ad['rp_hash'] != h(c['rp_given']):
            v.add('rphash')
        if c['user_given'] is None and c['handle'] is None:
            v.add('handle')
        if c['user_given'] is not None and c['handle'] is not None and (
                c['user_given'] != c['handle']):
            v.add('handle')
    cred = t.PublicKeyCredential(
        id=b64url(c['raw_id']) if c.get('cid_text') is None else c['cid_text'], type='public-key',
        raw_id=c['raw_id'],
        response=t.AuthenticatorAssertionResponse(
            client_data_JSON=raw_cd, authenticator_data=raw_ad, signature=sig,
            user_handle=c['handle']))
    kw = dict(credential=cred, expected_challenge=cfg['challenge'],
              expected_origin=expected_origin(cfg))
    if c['rp_given'] is not None:
        kw['rp'] = t.PublicKeyCredentialRpEntity(name='given rp', id=c['rp_given'],
                                                 icon='data:,2' if same & 32 else None)
    if c['user_given'] is not None:
        kw['user'] = t.PublicKeyCredentialUserEntity(name='given', id=c['user_given'],
                                                     display_name='Given',
                                                     icon='data:,1' if same & 64 else None)
    if c['allow'] is not None:
        kw['allow_credentials'] = [t.PublicKeyCredentialDescriptor(
            type=t.PublicKeyCredentialType.PUBLIC_KEY, id=i,
            transports=None if c.get('transports') is None else
            [t.AuthenticatorTransport(x) for x in c['transports']]) for i in c['allow']]
        if c.get('allow_tuple'):
            kw['allow_credentials'] = tuple(kw['allow_credentials'])
    if c['ignore']:
        kw['ignore_clone_error'] = True
    add_options(kw, cfg)
    return kw, v, {'data': data, 'raw_ad': raw_ad, 'raw_cd': raw_cd, 'sig': sig}


# ------------------------------------------------------------------ recording registrar

def make_registrar():
    from webauthn_rp.registrars import CredentialsRegistrar

    class Recorder(CredentialsRegistrar):
        """Records every call; answers come from the plan set before each ceremony."""

        def __init__(self):
            self.calls = []
            self.data = None
            self.on_lookup = None
            self.on_record = None

        def register_credential_attestation(self, credential, att, att_type, user, rp,
                                            trusted_path=None):
            self.calls.append(('attestation', dict(credential=credential, att=att,
                                                   att_type=att_type, user=user, rp=rp,
                                                   trusted_path=trusted_path)))
            if self.on_record is not None:
                return self.on_record()

        def register_credential_assertion(self, credential, authenticator_data, user, rp):
            self.calls.append(('assertion', dict(credential=credential, user=user, rp=rp,
                                                 authenticator_data=authenticator_data)))
            if self.on_record is not None:
                return self.on_record()

        def get_credential_data(self, credential_id):
            self.calls.append(('lookup', credential_id))
            if self.on_lookup is not None:
                return self.on_lookup()
            return self.data

    return Recorder()


def outcome(fn, **kw):
    """('ok', value) or ('error', class name, exception)."""
    try:
        return ('ok', fn(**kw), None)
    except Exception as e:
        return ('error', type(e).__name__, e)


def is_lib_error(e):
    from webauthn_rp.errors import WebAuthnRPError
    return isinstance(e, WebAuthnRPError)


def records(reg):
    return [c for c in reg.calls if c[0] in ('attestation', 'assertion')]


def auth_view(a):
    """Observable content of a parsed AuthenticatorData."""
    acd = a.attested_credential_data
    return {'rp_hash': a.rp_id_hash, 'flags': a.flags, 'count': a.sign_count,
            'acd': None if acd is None else {
                'aaguid': acd.aaguid, 'len': acd.credential_id_length, 'cid': acd.credential_id,
                'key': key_view(acd.credential_public_key)},
            'ext': ext_view(a.extensions)}


def auth_model(ad):
    acd = ad.get('acd')
    return {'rp_hash': ad['rp_hash'], 'flags': ad['flags'], 'count': ad['count'],
            'acd': None if acd is None else {
                'aaguid': acd['aaguid'], 'len': len(acd['cid']), 'cid': acd['cid'],
                'key': map_view(acd['map'] if 'map' in acd else cose_map(acd['key']))},
            'ext': ext_model(ad.get('ext'))}


def view(o):
    """Deep, comparable picture of any library object or plain value (bytes of certificates,
    enums by class and name)."""
    import enum
    if isinstance(o, enum.Enum):
        return ('enum', type(o).__qualname__, o.name)
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return (type(o).__name__, repr(o) if isinstance(o, float) else o)
    if isinstance(o, dict):
        return ('dict', sorted((repr(view(k)), view(v)) for k, v in o.items()))
    if isinstance(o, (set, frozenset)):
        return ('set', sorted(repr(view(x)) for x in o))
    if isinstance(o, tuple) and hasattr(o, '_fields'):
        return (type(o).__name__, [(f, view(getattr(o, f))) for f in o._fields])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [view(x) for x in o])
    if hasattr(o, 'public_bytes') and hasattr(o, 'issuer'):
        from cryptography.hazmat.primitives.serialization import Encoding
        return ('cert', o.public_bytes(Encoding.DER))
    if hasattr(o, '__dict__'):
        return (type(o).__name__, sorted((k, view(v)) for k, v in vars(o).items()))
    return ('opaque', id(o))
