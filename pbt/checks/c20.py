"""C20: public key conversion preserves the key and refuses impossible ones."""
from pbt import curves, gen
from pbt.core import prop
from pbt.curves import CURVES
from pbt.stx import st

RULE = """A case is a public key object: a point computed by own curve arithmetic (multiples of the base
point, lifted x coordinates, leading-zero coordinates found by search), or a pair that is no point of
the named curve (perturbed, one bit changed, swapped, negated on the wrong side, zero, coordinates at or above the
field prime that are congruent to a point, a point of another curve), or OKP bytes of right or wrong
length. Own curve equations decide. Valid keys must come back with the same curve and coordinates.
Non-trivial: every case; distinct by curve and coordinates."""
ASSUMES = ['EC2 coordinate strings longer than the curve size with the same value are not judged',
           'whether OKP bytes decode to a curve point is left to the cryptography package']


@st.composite
def ec_case(draw):
    crv = draw(st.sampled_from(sorted(CURVES)))
    c = CURVES[crv]
    how = draw(st.sampled_from(['point', 'point', 'lift', 'lift', 'zero']))
    if how == 'zero':
        x, y = curves.point(crv, draw(st.sampled_from(gen.LEADING_ZERO[crv])))
    elif how == 'point':
        x, y = curves.point(crv, draw(st.one_of(st.integers(1, 200), st.integers(c.n - 9, c.n - 1))))
    else:
        x = draw(st.one_of(st.integers(0, 300), st.integers(c.p - 300, c.p - 1), st.integers(0, c.p - 1)))
        y = c.lift(x)
        while y is None:
            x = (x + 1) % c.p
            y = c.lift(x)
    kind = draw(st.sampled_from(['good', 'good', 'good', 'bump', 'swap', 'neg', 'zero', 'xp', 'yp', 'curve',
                                 'ones', 'random', 'p', 'negx', 'one0', 'bit', 'bit']))
    if kind == 'bump':
        d = draw(st.sampled_from([1, -1, 2, 256, 1 << 100]))
        x, y = ((x + d) % c.p, y) if draw(st.booleans()) else (x, (y + d) % c.p)
    elif kind == 'swap':
        x, y = y, x
    elif kind == 'neg':
        y = (-y) % c.p
    elif kind == 'negx':
        x = (-x) % c.p
    elif kind == 'zero':
        x, y = 0, 0
    elif kind == 'one0':
        x, y = draw(st.sampled_from([(0, y), (x, 0), (0, 1), (1, 0)]))
    elif kind == 'xp':
        x += c.p
    elif kind == 'yp':
        y += c.p
    elif kind == 'ones':
        x = y = (1 << 8 * c.size) - 1
    elif kind == 'p':
        x, y = draw(st.sampled_from([(c.p, y), (x, c.p), (c.p, c.p), (c.p, 0)]))
    elif kind == 'bit':
        # one bit, often above the field size, where the coordinate's bytes have room for it
        b = 1 << draw(st.one_of(st.integers(0, 8 * c.size - 1), st.integers(8 * c.size - 9, 8 * c.size - 1)))
        x, y = draw(st.sampled_from([(x ^ b, y), (x, y ^ b), (x ^ b, y ^ b)]))
    elif kind == 'random':
        x = draw(st.integers(0, (1 << 8 * c.size) - 1))
        y = draw(st.integers(0, (1 << 8 * c.size) - 1))
    name = crv
    if kind == 'curve':
        name = draw(st.sampled_from([n for n in sorted(CURVES) if n != crv]))
    size = CURVES[name].size
    lim = 1 << 8 * size
    return {'crv': name, 'x': x % lim, 'y': y % lim, 'kind': kind, 'names': draw(st.integers(0, 15)),
            'alg': draw(st.sampled_from(['ES256', 'ES384', 'ES512'])),
            'direct': draw(st.booleans())}


def base_key(crv, names, alg):
    return {'crv': crv, 'd': 1, 'alg': alg, 'names': names, 'kid': b'k', 'ops': None, 'iv': None}


@prop(ec_case, quick=72000, thorough=500000)
def ec2(c, rec):
    from webauthn_rp import converters as cv
    from webauthn_rp.errors import PublicKeyConversionError
    cu = CURVES[c['crv']]
    valid = cu.on_curve(c['x'], c['y'])
    k = gen.lib_key(base_key(c['crv'], c['names'], c['alg']))
    k.x, k.y = c['x'].to_bytes(cu.size, 'big'), c['y'].to_bytes(cu.size, 'big')
    before = gen.view(k)
    fn = cv.cryptography_ec2_public_key if c['direct'] else cv.cryptography_public_key
    try:
        o = fn(k)
    except PublicKeyConversionError as e:
        rec.check(not valid, 'a valid point refused', curve=c['crv'], x=k.x, y=k.y, error=e)
    else:
        rec.check(valid, 'something that is no point was converted', curve=c['crv'], x=k.x, y=k.y,
                  kind=c['kind'])
        nums = o.public_numbers()
        rec.check((nums.x, nums.y) == (c['x'], c['y']), 'coordinates changed')
        rec.check(o.curve.name == cu.cls().name, 'curve changed', got=o.curve.name)
    rec.check(gen.view(k) == before, 'conversion modified the key')
    rec.label('%s %s %s' % (c['crv'], c['kind'], valid))
    rec.nt((c['crv'], c['x'], c['y']))


@st.composite
def okp_case(draw):
    crv = draw(st.sampled_from(['Ed25519', 'Ed448']))
    n = gen.SIZE[crv]
    kind = draw(st.sampled_from(['good', 'good', 'raw', 'len', 'len', 'other']))
    x = curves.okp_public(crv, draw(st.integers(0, 300)))
    if kind == 'raw':
        x = draw(st.one_of(st.binary(min_size=n, max_size=n),
                           st.sampled_from([bytes(n), b'\xff' * n, b'\x01' + bytes(n - 1)])))
    elif kind == 'len':
        x = draw(st.sampled_from([x[:-1], x[1:], x + b'\x00', b'\x00' + x, b'', x + x, x[:16],
                                  x.hex().encode(), b'\x40' + x]))
    elif kind == 'other':
        x = curves.okp_public('Ed448' if crv == 'Ed25519' else 'Ed25519', draw(st.integers(0, 50)))
    return {'crv': crv, 'x': x, 'kind': kind, 'names': draw(st.integers(0, 15)),
            'direct': draw(st.booleans())}


@prop(okp_case, quick=36000, thorough=200000)
def okp(c, rec):
    from cryptography.hazmat.primitives.asymmetric.ed448 import Ed448PublicKey
    from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PublicKey
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    from webauthn_rp import converters as cv
    from webauthn_rp.errors import PublicKeyConversionError
    cls = {'Ed25519': Ed25519PublicKey, 'Ed448': Ed448PublicKey}[c['crv']]
    k = gen.lib_key(base_key(c['crv'], c['names'], 'EdDSA'))
    k.x = c['x']
    right = len(c['x']) == gen.SIZE[c['crv']]
    fn = cv.cryptography_okp_public_key if c['direct'] else cv.cryptography_public_key
    try:
        o = fn(k)
    except PublicKeyConversionError as e:
        rec.check(not right or c['kind'] == 'raw', 'a valid key refused', case=c, error=e)
    else:
        rec.check(right, 'a key of the wrong length was converted', case=c)
        rec.check(isinstance(o, cls), 'wrong curve', got=type(o), want=c['crv'])
        rec.check(o.public_bytes(Encoding.Raw, PublicFormat.Raw) == c['x'], 'public bytes changed')
    rec.label('%s %s' % (c['crv'], c['kind']))
    rec.nt((c['crv'], c['x']))
