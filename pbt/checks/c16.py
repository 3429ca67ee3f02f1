"""C16: COSE encoding a public key and parsing it back gives the same key."""
from pbt import cborx, gen
from pbt.core import prop
from pbt.stx import st

RULE = """A case is a library key made through the public constructors: either type, every curve, every
algorithm by name or number, any combination of kid, key operations (list or tuple) and base IV,
empty values included, coordinates with leading zeros or arbitrary. Its encoding, decoded by an own
CBOR decoder, must be exactly the standard map; parsing it back must give an equal key. Non-trivial:
an optional member is present or a coordinate starts with zero. Distinct by key."""
ASSUMES = ['an empty key-operations list is not judged (the parser refuses it by design)']


@st.composite
def case(draw):
    k = draw(gen.key_spec())
    k['kid'] = draw(st.none() | gen.blob(0, 600))
    k['ops'] = draw(st.none() | st.lists(st.sampled_from(sorted(gen.OPS)), min_size=1, max_size=11))
    k['iv'] = draw(st.none() | gen.blob(0, 600))
    if k['crv'] in ('Ed25519', 'Ed448') or draw(st.integers(0, 5)) == 0:
        k['alg'] = draw(st.sampled_from(sorted(gen.ALG)))
    n = gen.SIZE[k['crv']]
    xy = None
    if draw(st.integers(0, 2)) == 0:
        b = st.one_of(st.binary(min_size=n, max_size=n), st.sampled_from(
            [bytes(n), b'\xff' * n, bytes(n - 1) + b'\x01', b'\x00' + b'\x80' * (n - 1)]))
        xy = (draw(b), draw(b))
    return {'k': k, 'xy': xy, 'tuple': draw(st.booleans()), 'direct': draw(st.booleans())}


@prop(case, quick=72000, thorough=500000)
def round_trip(c, rec):
    from webauthn_rp import converters as cv
    from webauthn_rp.errors import WebAuthnRPError
    from webauthn_rp.parsers import parse_cose_key
    k = c['k']
    key = gen.lib_key(k)
    m = gen.cose_map(k)
    if c['xy']:
        key.x, m[-2] = c['xy'][0], c['xy'][0]
        if -3 in m:
            key.y, m[-3] = c['xy'][1], c['xy'][1]
    if c['tuple'] and key.key_ops is not None:
        key.key_ops = tuple(key.key_ops)
    before = gen.view(key)
    enc = cv.cose_key
    if c['direct']:
        enc = cv.cose_ec2_public_key if -3 in m else cv.cose_okp_public_key
    raw = enc(key)
    rec.check(type(raw) is bytes, 'encoding is not bytes', got=raw)
    try:
        got = cborx.decode(raw)
    except cborx.DecodeError as e:
        rec.fail('the encoding is not one definite CBOR item', data=raw, error=e)
    rec.check(gen.same(got, m), 'the encoded map differs', got=got, want=m)
    rec.check(gen.view(key) == before, 'encoding modified the key')
    try:
        back = parse_cose_key(raw)
    except WebAuthnRPError as e:
        rec.fail('the encoding cannot be parsed back', data=raw, error=e)
    a, b = gen.key_view(back), gen.key_view(key)
    rec.check(gen.same(a, b), 'round trip changed the key', got=a, want=b)
    rec.check(type(back) is type(key), 'round trip changed the class')
    for f in ('kty', 'alg', 'crv'):
        rec.check(getattr(back, f) is getattr(key, f), 'round trip changed ' + f)
    rec.check(cv.cose_key(back) == raw, 'encoding again differs')
    rec.label('%s %s' % (k['crv'], sum(k[i] is not None for i in ('kid', 'ops', 'iv'))))
    if any(k[i] is not None for i in ('kid', 'ops', 'iv')) or m[-2][0] == 0:
        rec.nt((m, c['tuple']))
