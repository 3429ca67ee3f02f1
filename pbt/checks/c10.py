"""C10: parsers answer any input with a result or a documented error."""
import base64
import json

from pbt import cborx, fuzz, gen
from pbt.cborx import Pairs, Raw, Tag, UNDEFINED
from pbt.core import prop, text_of
from pbt.stx import memo, st

RULE = """A case is one input to one parser: random bytes, CBOR soup (every major type, tags, bignums of
thousands of digits, shared references, oversized lengths, deep nesting, invalid text), or a valid
input with one or two of its nodes replaced, or with up to four byte-level edits; for the dictionary
parsers the same trees as Python objects; for the origin parser arbitrary text and edited origins;
for bytes that a reference decoder cannot decode as UTF-8 / JSON / CBOR / base64 the error must be
DecodingError. Non-trivial: the input is a mutation of a valid one, or parses, or is refused with an
error other than the first length check. Distinct by the input itself."""
ASSUMES = ['inputs stay below 500 kB; memory is limited to 3 GB per process']


def good_map(k):
    return gen.cose_map(k)


@st.composite
def valid_ad(draw):
    acd = None
    if draw(st.booleans()):
        acd = {'aaguid': bytes(16), 'cid': draw(gen.blob(0, 40)), 'key': draw(gen.key_spec()),
               'enc': draw(gen.small_choices())}
    ext = draw(st.none() | gen.ext_map())
    flags = 1 | (64 if acd else 0) | (128 if ext is not None else 0)
    return {'rp_hash': bytes(32), 'flags': flags, 'count': 7, 'acd': acd, 'ext': ext, 'enc': ()}


@st.composite
def stmt(draw):
    alg = draw(st.sampled_from([-7, -8, -35, -36, 'ES256', 'EdDSA']))
    sig = draw(st.binary(max_size=8))
    fmt = draw(st.sampled_from(['none', 'packed', 'tpm', 'android-key', 'android-safetynet',
                                'fido-u2f']))
    m = {'none': {}, 'packed': {'alg': alg, 'sig': sig},
         'tpm': {'alg': alg, 'sig': sig, 'ver': '2.0', 'certInfo': b'c', 'pubArea': b'p'},
         'android-key': {'alg': alg, 'sig': sig, 'x5c': [b'1', b'2']},
         'android-safetynet': {'ver': 'v', 'response': b'r'},
         'fido-u2f': {'sig': sig, 'x5c': [b'1']}}[fmt]
    if fmt in ('packed', 'tpm'):
        v = draw(st.integers(0, 2))
        if v == 1:
            m = dict(m, x5c=[b'1'])
        elif v == 2:
            m = dict(m, ecdaaKeyId=b'k')
    return fmt, m


@st.composite
def cose_input(draw):
    m = gen.cose_map(draw(gen.key_spec()))
    k = draw(st.integers(0, 3))
    if k == 0:
        return ('soup', draw(fuzz.junk_bytes()))
    if k == 1:
        return ('bytes', draw(fuzz.mutate_bytes(cborx.encode(m))))
    return ('tree', cborx.encode(draw(fuzz.mutate_tree(m))))


@st.composite
def ad_input(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        n = draw(st.integers(0, 37))
        return ('soup', bytes(n) + draw(fuzz.junk_bytes()))
    ad = draw(valid_ad())
    if k == 1:
        return ('bytes', draw(fuzz.mutate_bytes(gen.render_auth_data(ad))))
    if k == 2:
        return ('flags', gen.render_auth_data(dict(ad, flags=draw(st.integers(0, 255)))))
    if ad['acd'] is not None and (k == 3 or ad['ext'] is None):
        ad = dict(ad, acd=dict(ad['acd'], map=draw(fuzz.mutate_tree(
            gen.cose_map(ad['acd']['key'])))))
        return ('key', gen.render_auth_data(ad))
    new = draw(fuzz.mutate_tree(ad['ext'] or {'appid': True}))
    return ('ext', gen.render_auth_data(dict(ad, ext=new, flags=ad['flags'] | 128)))


@st.composite
def obj_input(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        return ('soup', draw(fuzz.junk_bytes()))
    fmt, m = draw(stmt())
    obj = {'fmt': fmt, 'attStmt': m, 'authData': gen.render_auth_data(draw(valid_ad()))}
    if k == 1:
        return ('bytes', draw(fuzz.mutate_bytes(cborx.encode(obj))))
    if k == 2:
        obj['authData'] = draw(ad_input())[1]
        return ('authdata', cborx.encode(obj))
    return ('tree', cborx.encode(draw(fuzz.mutate_tree(obj))))


@memo
def json_tree():
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.floats(), gen.text(8),
                     st.sampled_from(['webauthn.get', 'present', 'supported', 'status', 'id']),
                     st.just(10**4000), st.just(-10**4200))
    key = st.one_of(gen.text(5), st.sampled_from([k for k in fuzz.KEYS if type(k) is str]))
    return st.recursive(leaf, lambda x: st.one_of(st.lists(x, max_size=4),
                                                  st.dictionaries(key, x, max_size=4)),
                        max_leaves=8)


@st.composite
def cd_input(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return ('soup', draw(fuzz.junk_bytes()))
    d = {'type': 'webauthn.get', 'challenge': 'YQ', 'origin': 'https://a.b'}
    if draw(st.booleans()):
        d['tokenBinding'] = {'status': draw(st.sampled_from(['present', 'supported'])), 'id': 'x'}
    if k <= 2:
        b = json.dumps(d, ensure_ascii=draw(st.booleans())).encode()
        return ('bytes', draw(fuzz.mutate_bytes(b)))
    if k == 3:
        return ('digits', ('{"type":"a","challenge":"b","origin":"c","n":%s%s}' % (
            draw(st.sampled_from(['', '-'])), '7' * draw(st.sampled_from([1, 4299, 4300, 4301,
                                                                         9000])))).encode())
    key = draw(st.one_of(st.sampled_from(sorted(d)), st.sampled_from(['tokenBinding', 'zz'])))
    d[key] = draw(json_tree())
    if draw(st.integers(0, 3)) == 0:
        d = draw(json_tree())
    return ('tree', json.dumps(d).encode())


def undecodable_json(b):
    try:
        json.loads(b.decode('utf-8'))
        return False
    except (UnicodeDecodeError, json.JSONDecodeError):
        return True
    except (RecursionError, ValueError):
        return None  # a Python limit, not a property of the input


@memo
def bytes_case():
    return st.one_of(
        st.tuples(st.just('client'), cd_input()), st.tuples(st.just('auth'), ad_input()),
        st.tuples(st.just('object'), obj_input()), st.tuples(st.just('cose'), cose_input()))


@prop(bytes_case, quick=32000, thorough=400000, shards=16)
def raw_bytes(case, rec):
    from webauthn_rp import errors as e
    from webauthn_rp import parsers as p
    which, (kind, data) = case
    fn, ok = {
        'client': (p.parse_client_data, (e.ParserError, )),
        'auth': (p.parse_authenticator_data, (e.ParserError, e.ValidationError)),
        'object': (p.parse_attestation_object, (e.ParserError, e.ValidationError)),
        'cose': (p.parse_cose_key, (e.ParserError, ))}[which]
    try:
        v = fn(data)
        rec.label('%s %s parsed' % (which, kind))
        rec.check(v is not None, 'parser returned None')
        rec.nt(case)
        return
    except ok as err:
        rec.label('%s %s %s' % (which, kind, type(err).__name__))
        if kind != 'soup' or 'DecodingError' != type(err).__name__:
            rec.nt(case)
        got = err
    if which == 'client' and undecodable_json(data):
        rec.check(isinstance(got, e.DecodingError), 'undecodable client data not a DecodingError',
                  error=got)
    if which == 'cose':
        try:
            b, complete = data, False
            cborx.decode(b)
            complete = True
        except Exception:
            pass
        if data == b'' or data[0] in (0x1c, 0x3c, 0x5c, 0x9c, 0xfc, 0xfd, 0xfe):
            rec.check(isinstance(got, e.DecodingError), 'undecodable CBOR not a DecodingError',
                      error=got)
        rec.label('reference %s' % ('decodes' if complete else 'does not decode'))


def to_python(v):
    """A tree as Python objects: what json or cbor2 could have produced."""
    if isinstance(v, Raw):
        return v.data
    if v is UNDEFINED:
        return Ellipsis
    if isinstance(v, Tag):
        return (v.tag, to_python(v.value))
    if isinstance(v, Pairs):
        return {hashable(to_python(k)): to_python(x) for k, x in v.items_}
    if isinstance(v, dict):
        return {hashable(to_python(k)): to_python(x) for k, x in v.items()}
    if isinstance(v, list):
        return [to_python(x) for x in v]
    if isinstance(v, tuple):
        return tuple(to_python(x) for x in v)
    return v


def hashable(v):
    if isinstance(v, list):
        return tuple(hashable(x) for x in v)
    if isinstance(v, tuple):
        return tuple(hashable(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted(text_of(k) for k in v))
    return v


@st.composite
def dict_case(draw):
    which = draw(st.sampled_from(['cose', 'okp', 'ec2', 'ext', 'stmt', 'cred']))
    if draw(st.integers(0, 7)) == 0:
        return (which, draw(st.lists(st.tuples(st.sampled_from(fuzz.KEYS), fuzz.trees()),
                                     max_size=6).map(Pairs)), draw(stmt())[0])
    fmt = ''
    if which in ('cose', 'okp', 'ec2'):
        v = gen.cose_map(draw(gen.key_spec()))
    elif which == 'ext':
        v = draw(gen.ext_map(min_size=1))
    elif which == 'stmt':
        fmt, v = draw(stmt())
    else:
        r = {'clientDataJSON': 'e30=', 'attestationObject': 'oA=='}
        if draw(st.booleans()):
            r = {'clientDataJSON': 'e30=', 'authenticatorData': 'AA==', 'signature': 'AA==',
                 'userHandle': 'AAA='}
        v = {'id': 'x', 'rawId': 'eA==', 'type': 'public-key', 'response': r}
    return (which, draw(fuzz.mutate_tree(v)), fmt)


FNS = {'cose': 'parse_cose_key', 'okp': 'parse_okp_public_key', 'ec2': 'parse_ec2_public_key',
       'ext': 'parse_extensions', 'cred': 'parse_public_key_credential'}


@prop(dict_case, quick=32000, thorough=400000, shards=16)
def dictionaries(case, rec):
    from webauthn_rp import errors as e
    from webauthn_rp import parsers as p
    which, tree, fmt = case
    v = to_python(tree)
    if type(v) is not dict:
        return
    name = FNS.get(which) or 'parse_%s_attestation_statement' % fmt.replace('-', '_')
    try:
        out = getattr(p, name)(v)
        rec.check(out is not None, 'parser returned None')
        rec.label(name + ' parsed')
    except e.ParserError as err:
        rec.label('%s %s' % (name, type(err).__name__))
    rec.nt(case)


@st.composite
def origin_text(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        return draw(st.text(max_size=30))
    if k == 1:
        return draw(gen.invalid_origin())['s']
    s = draw(gen.valid_origin())['s']
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(s)))
        c = draw(st.one_of(st.sampled_from(list(':/@[]?#%.\\; \t\n\x00') + [
            '\u2100', '\uff0e', '\u3002', '\ud800', '\xad', '//', '[::', ':99999', '://', 'xn--', '%00',
            '\u0130', '\uff10', '\u0661', ':\u0661', '[v1.a]', '[1:', '[::1%25a]']),
            st.characters()))
        s = s[:i] + c + s[i + draw(st.sampled_from([0, 0, 0, 1])):]
    return s


@prop(origin_text, quick=24000, thorough=300000)
def origins(s, rec):
    from webauthn_rp import errors as e
    from webauthn_rp import parsers as p
    try:
        o = p.parse_origin(s)
        rec.label('parsed')
        rec.check(type(o.port) is int and 0 <= o.port <= 65535 and o.scheme in ('http', 'https'),
                  'strange origin', got=o)
        rec.nt(s)
    except e.OriginError:
        rec.label('OriginError')
        if '://' in s:
            rec.nt(s)


def b64_text():
    return st.one_of(st.text(max_size=8), st.text(alphabet='AZaz09+/=-_ \n', max_size=12),
                     st.binary(max_size=9).map(lambda b: base64.b64encode(b).decode()),
                     st.binary(max_size=9).map(lambda b: base64.b64encode(b).decode()[:-1]))


@prop(lambda: st.tuples(st.sampled_from(['rawId', 'clientDataJSON', 'attestationObject',
                                         'authenticatorData', 'signature', 'userHandle']),
                        b64_text()), quick=6000)
def base64_members(case, rec):
    from webauthn_rp import errors as e
    from webauthn_rp import parsers as p
    member, s = case
    r = {'clientDataJSON': 'e30='}
    if member == 'attestationObject':
        r['attestationObject'] = s
    else:
        r.update(authenticatorData='AA==', signature='AA==')
        if member != 'rawId':
            r[member] = s
    d = {'id': 'x', 'rawId': s if member == 'rawId' else 'eA==', 'type': 'public-key',
         'response': r}
    core = s.rstrip('=')
    plain = all(c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/' for c in core)
    try:
        p.parse_public_key_credential(d)
        rec.check(not (plain and len(core) % 4 == 1), 'impossible base64 accepted', text=s)
        rec.label('parsed')
        rec.nt(case)
    except e.ParserError as err:
        if plain and len(s) % 4:
            rec.check(isinstance(err, e.DecodingError), 'undecodable base64 not a DecodingError',
                      error=err)
            rec.nt(case)
        rec.label(type(err).__name__)
