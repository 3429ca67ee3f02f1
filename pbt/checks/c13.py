"""C13: authenticator data is decoded byte-exactly with no slack."""
from pbt import cborx, gen
from pbt.core import prop
from pbt.stx import st

RULE = """A case is an authenticator data value (RP ID hash, flag byte, counter, optional attested credential
data with a credential id of 0 to 65535 bytes and any supported key, optional extension map, each
CBOR item in a randomly chosen valid encoding) rendered by an own encoder. The parsed fields must be
those values; every proper prefix, extra bytes at the end, and the same content under other AT / ED
bits must be refused; a key with an unsupported type, curve and algorithm triple must be refused.
Non-trivial: the case has attested data or extensions. Distinct by the bytes."""
ASSUMES = ['embedded keys are valid points; keys off the curve are judged in C20']


@st.composite
def auth(draw, need=False):
    acd = ext = None
    k = draw(st.integers(1 if need else 0, 3))
    if k & 1:
        cid = draw(st.one_of(gen.blob(0, 64), gen.blob(0, 1023), gen.blob(0, 65535)))
        acd = {'aaguid': draw(st.one_of(st.binary(min_size=16, max_size=16), st.just(bytes(16)),
                                        st.just(b'\xff' * 16), st.just(b'\xa0' * 16))),
               'cid': cid, 'key': draw(gen.key_spec()), 'enc': draw(gen.small_choices())}
    if k & 2:
        ext = draw(gen.ext_map())
    flags = draw(st.integers(0, 255)) & ~(gen.AT | gen.ED)
    flags |= (gen.AT if acd else 0) | (gen.ED if ext is not None else 0)
    return {'rp_hash': draw(st.one_of(st.binary(min_size=32, max_size=32),
                                      st.sampled_from([bytes(32), b'\xff' * 32, bytes(range(32))]))),
            'flags': flags, 'count': draw(gen.biased_ints(0, 2**32 - 1)), 'acd': acd, 'ext': ext,
            'enc': draw(gen.small_choices())}


def parse(raw):
    from webauthn_rp.parsers import parse_authenticator_data
    return parse_authenticator_data(raw)


def refused(rec, raw, why):
    from webauthn_rp.errors import ParserError, ValidationError
    try:
        o = parse(raw)
    except (ParserError, ValidationError):
        return
    rec.fail('authenticator data accepted', why=why, data=raw, got=gen.auth_view(o))


@prop(auth, quick=32000, thorough=300000)
def layout(c, rec):
    from webauthn_rp.errors import ParserError, ValidationError
    raw = gen.render_auth_data(c)
    try:
        o = parse(raw)
    except (ParserError, ValidationError) as e:
        rec.fail('valid authenticator data refused', data=raw, error=e)
    got, want = gen.auth_view(o), gen.auth_model(c)
    rec.check(gen.same(got, want), 'decoded fields differ', got=got, want=want, data=raw)
    rec.check(type(o.flags) is int and type(o.sign_count) is int, 'field types')
    rec.label('acd %s ext %s' % (c['acd'] is not None, c['ext'] is not None))
    if c['acd'] or c['ext'] is not None:
        rec.nt(raw)


@st.composite
def slack(draw):
    c = draw(auth())
    extra = draw(st.one_of(st.binary(min_size=1, max_size=8), st.sampled_from(
        [b'\x00', b'\xa0', b'\xf6', b'\xff', b'\xa1\x65appid\xf5', bytes(16), b'\xa0\xa0', bytes(37)])))
    return {'c': c, 'extra': extra, 'cuts': draw(st.lists(st.integers(0, 10**6), max_size=12)),
            'flip': draw(st.sampled_from([gen.AT, gen.ED, gen.AT | gen.ED]))}


@prop(slack, quick=12000, thorough=120000)
def no_slack(s, rec):
    c = s['c']
    raw = gen.render_auth_data(c)
    n = len(raw)
    if n <= 260:
        cuts = range(n)
    else:
        cuts = sorted({x % n for x in s['cuts']} | set(range(0, 60)) | set(range(n - 160, n)))
    for i in cuts:
        refused(rec, raw[:i], 'prefix of %d of %d bytes' % (i, n))
    refused(rec, raw + s['extra'], 'extra bytes')
    refused(rec, raw + s['extra'][:1], 'one extra byte')
    flags = c['flags'] ^ s['flip']
    # content and flags disagree (an announced part is missing or an unannounced one is present)
    refused(rec, raw[:32] + bytes([flags]) + raw[33:], 'flags %02x content %02x' % (flags,
                                                                                  c['flags']))
    rec.label('prefixes checked', )
    if c['acd'] or c['ext'] is not None:
        rec.nt(raw)


@st.composite
def declared(draw):
    """Attested data whose declared credential id length disagrees, or with an unsupported key."""
    c = draw(auth(need=True))
    if c['acd'] is None:
        c['acd'] = {'aaguid': bytes(16), 'cid': draw(gen.blob(0, 64)), 'key': draw(gen.key_spec()),
                    'enc': ()}
        c['flags'] |= gen.AT
    kind = draw(st.sampled_from(['triple', 'triple', 'length', 'notmap', 'extnotmap']))
    val = draw(st.sampled_from([None, 0, 'x', b'x', [], [1, 2], True, 1.5]))
    kty = draw(st.sampled_from([1, 2, 4, 'OKP', 'EC2', 'Symmetric']))
    crv = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 'P-256', 'P-384', 'P-521', 'X25519', 'X448',
                                'Ed25519', 'Ed448', 'secp256k1']))
    alg = draw(st.sampled_from([-7, -35, -36, -8, -257, 'ES256', 'ES384', 'ES512', 'EdDSA', -47]))
    return {'c': c, 'kind': kind, 'val': val, 't': (kty, crv, alg),
            'delta': draw(st.sampled_from([1, 2, 256, -1, 255, 65535])),
            'size': draw(st.sampled_from([32, 48, 66, 57, 56]))}


EC_C = {1: 32, 2: 48, 3: 66, 'P-256': 32, 'P-384': 48, 'P-521': 66}
OK_C = {6: 32, 7: 57, 'Ed25519': 32, 'Ed448': 57}


@prop(declared, quick=20000, thorough=200000)
def embedded_keys(s, rec):
    from webauthn_rp.errors import ParserError, ValidationError
    c, kind = s['c'], s['kind']
    acd = c['acd']
    if kind == 'triple':
        kty, crv, alg = s['t']
        size = EC_C.get(crv) or OK_C.get(crv) or s['size']
        m = {1: kty, 3: alg, -1: crv, -2: b'\x01' * size, -3: b'\x02' * size}
        ec = kty in (2, 'EC2') and crv in EC_C and alg in (-7, -35, -36, 'ES256', 'ES384', 'ES512')
        okp = kty in (1, 'OKP') and crv in OK_C and alg in (-8, 'EdDSA')
        if okp:
            del m[-3]
        raw = gen.render_auth_data(dict(c, acd=dict(acd, map=m)))
        if ec or okp:
            try:
                o = parse(raw)
            except (ParserError, ValidationError) as e:
                rec.fail('supported key refused', triple=s['t'], error=e)
            got = gen.key_view(o.attested_credential_data.credential_public_key)
            rec.check(gen.same(got, gen.map_view(m)), 'key differs', got=got, want=m)
        else:
            refused(rec, raw, 'unsupported key %r' % (s['t'], ))
        rec.label('supported' if ec or okp else 'unsupported')
    elif kind == 'length':
        raw = gen.render_auth_data(c)
        n = (len(acd['cid']) + s['delta']) % 65536
        refused(rec, raw[:53] + n.to_bytes(2, 'big') + raw[55:], 'declared length %d' % n)
    elif kind == 'notmap':
        v = s['val'] if not isinstance(s['val'], dict) else 0
        refused(rec, gen.render_auth_data(dict(c, acd=dict(acd, map=v))), 'key is not a map')
    else:
        refused(rec, gen.render_auth_data(dict(
            c, flags=c['flags'] | gen.ED, ext=cborx.Raw(cborx.encode(s['val'])))),
            'extensions are not a map')
    rec.nt((kind, s['t'] if kind == 'triple' else gen.render_auth_data(c)))
