"""Curve arithmetic facts and deterministic keys / signatures.

ECDSA is computed here from its definition with a derived nonce (so that a case is a pure function
of its data); the only primitive taken from the cryptography package is scalar multiplication of
the base point.  Ed25519 / Ed448 signatures are deterministic by definition.
"""
import hashlib
from functools import lru_cache

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
from cryptography.hazmat.primitives.asymmetric.ed448 import Ed448PrivateKey
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from pbt import der


class Curve:
    def __init__(self, name, cls, p, b, n, size, num, oid):
        self.name, self.cls, self.p, self.b, self.n = name, cls, p, b, n
        self.size, self.num, self.oid = size, num, oid

    def on_curve(self, x, y):
        p = self.p
        return (0 <= x < p and 0 <= y < p
                and (y * y - (x * x * x - 3 * x + self.b)) % p == 0)

    def lift(self, x):
        """y with (x, y) on the curve, or None. All three primes are 3 mod 4."""
        p = self.p
        r = (x * x * x - 3 * x + self.b) % p
        y = pow(r, (p + 1) // 4, p)
        return y if y * y % p == r else None


P256 = Curve('P-256', ec.SECP256R1, 2**256 - 2**224 + 2**192 + 2**96 - 1,
             0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
             0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551, 32, 1,
             '1.2.840.10045.3.1.7')
P384 = Curve(
    'P-384', ec.SECP384R1, 2**384 - 2**128 - 2**96 + 2**32 - 1,
    int('b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875a'
        'c656398d8a2ed19d2a85c8edd3ec2aef', 16),
    int('ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf'
        '581a0db248b0a77aecec196accc52973', 16), 48, 2, '1.3.132.0.34')
P521 = Curve(
    'P-521', ec.SECP521R1, 2**521 - 1,
    int('0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef1'
        '09e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b50'
        '3f00', 16),
    int('01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff'
        'fffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e9138'
        '6409', 16), 66, 3, '1.3.132.0.35')
CURVES = {'P-256': P256, 'P-384': P384, 'P-521': P521}
# curves no credential key may be on, for certificates only (their arithmetic is never needed here)
OTHER = {
    'secp256k1': Curve('secp256k1', ec.SECP256K1, None, None, int(
        'fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141', 16), 32, 8,
        '1.3.132.0.10'),
    'brainpoolP256r1': Curve('brainpoolP256r1', ec.BrainpoolP256R1, None, None, int(
        'a9fb57dba1eea9bc3e660a909d838d718c397aa3b561a6f7901e0e82974856a7', 16), 32, None,
        '1.3.36.3.3.2.8.1.1.7'),
    'P-224': Curve('P-224', ec.SECP224R1, None, None, int(
        'ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d', 16), 28, None, '1.3.132.0.33'),
}
OKP = {'Ed25519': (32, 6, '1.3.101.112'), 'Ed448': (57, 7, '1.3.101.113')}
ALL = dict(CURVES, **OTHER)
HASHES = {'ES256': hashlib.sha256, 'ES384': hashlib.sha384, 'ES512': hashlib.sha512}


@lru_cache(maxsize=4096)
def point(curve_name, d):
    """(x, y) of d*G."""
    c = ALL[curve_name]
    nums = ec.derive_private_key(d, c.cls(), default_backend()).public_key().public_numbers()
    return nums.x, nums.y


def ecdsa_rs(curve_name, d, data, alg, nonce=0):
    c = ALL[curve_name]
    h = HASHES[alg](data).digest()
    e = int.from_bytes(h, 'big')
    excess = 8 * len(h) - c.n.bit_length()
    if excess > 0:
        e >>= excess
    i = nonce
    while True:
        seed = hashlib.sha512(b'%d|%d|%s|' % (d, i, alg.encode()) + h).digest()
        k = int.from_bytes(seed + hashlib.sha512(seed).digest(), 'big') % (c.n - 1) + 1
        r = point(curve_name, k)[0] % c.n
        s = pow(k, -1, c.n) * (e + r * d) % c.n
        if r and s:
            return r, s
        i += 1


def ecdsa_check(curve_name, pub, r, s, data, alg):
    """Reference verification needs point addition; done with affine arithmetic (slow, rarely)."""
    c = CURVES[curve_name]
    if not (0 < r < c.n and 0 < s < c.n):
        return False
    h = HASHES[alg](data).digest()
    e = int.from_bytes(h, 'big')
    excess = 8 * len(h) - c.n.bit_length()
    if excess > 0:
        e >>= excess
    w = pow(s, -1, c.n)
    g = point(curve_name, 1)
    q = _add(c, _mul(c, g, e * w % c.n), _mul(c, pub, r * w % c.n))
    return q is not None and q[0] % c.n == r


def _add(c, a, b):
    if a is None:
        return b
    if b is None:
        return a
    p = c.p
    if a[0] == b[0]:
        if (a[1] + b[1]) % p == 0:
            return None
        m = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, p) % p
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, p) % p
    x = (m * m - a[0] - b[0]) % p
    return x, (m * (a[0] - x) - a[1]) % p


def _mul(c, pt, k):
    r = None
    while k:
        if k & 1:
            r = _add(c, r, pt)
        pt = _add(c, pt, pt)
        k >>= 1
    return r


def sig_der(r, s):
    return der.seq(der.integer(r), der.integer(s))


@lru_cache(maxsize=1024)
def okp_private(name, seed_int):
    size = 32 if name == 'Ed25519' else 57
    h = hashlib.shake_256(b'%s %d' % (name.encode(), seed_int)).digest(size)
    cls = Ed25519PrivateKey if name == 'Ed25519' else Ed448PrivateKey
    return cls.from_private_bytes(h)


@lru_cache(maxsize=1024)
def okp_public(name, seed_int):
    return okp_private(name, seed_int).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)


class Key:
    """A key pair: crv one of the five curves, d scalar (EC) or seed (OKP), alg for signing."""

    def __init__(self, crv, d, alg):
        self.crv, self.d, self.alg = crv, d, alg
        self.ec = crv in ALL

    @property
    def x(self):
        if self.ec:
            return point(self.crv, self.d)[0].to_bytes(ALL[self.crv].size, 'big')
        return okp_public(self.crv, self.d)

    @property
    def y(self):
        return point(self.crv, self.d)[1].to_bytes(ALL[self.crv].size, 'big')

    def sign(self, data, alg=None, nonce=0):
        if self.ec:
            return sig_der(*ecdsa_rs(self.crv, self.d, data, alg or self.alg, nonce))
        return okp_private(self.crv, self.d).sign(data)

    def spki(self):
        if self.ec:
            c = ALL[self.crv]
            return der.seq(der.seq(der.oid('1.2.840.10045.2.1'), der.oid(c.oid)),
                           der.bits(b'\x04' + self.x + self.y))
        return der.seq(der.seq(der.oid(OKP[self.crv][2])), der.bits(self.x))


RSA_SPKI = None


def rsa_spki(n):
    return der.seq(der.seq(der.oid('1.2.840.113549.1.1.1'), der.null()),
                   der.bits(der.seq(der.integer(n), der.integer(65537))))


def certificate(spki, extensions=(), serial=1, issuer='ca', subject='dev', version=2, look=0):
    """A structurally valid X.509 certificate (its own signature is arbitrary: nobody checks it);
    look varies what an attestation does not depend on: validity, serial, names, other extensions."""
    valid = [('u200101000000Z', 'u400101000000Z'), ('u010203040506Z', 'u020203040506Z'),
             ('g20600101000000Z', 'g20990101000000Z'), ('u500101000000Z', 'g99991231235959Z')][look % 4]
    when = [(der.utctime if v[0] == 'u' else der.gentime)(v[1:]) for v in valid]
    serial = [serial, 2**159 - 1, 2**64, 127][look // 4 % 4]
    issuer, subject = [(issuer, subject), (subject, subject), ('', ''), ('\u00e4' * 40, 'CN=a, O=b')][look // 16 % 4]
    extensions = list(extensions)
    more = look // 64 % 6
    if more == 1:
        extensions.append(('2.5.29.19', True, der.seq(der.boolean(True))))
    elif more == 2:
        extensions.insert(0, ('2.5.29.15', True, der.tlv(3, b'\x07\x80')))
    elif more == 3:
        extensions.insert(0, ('1.3.6.1.4.1.45724.1.1.4', False, der.octets(bytes(range(16)))))
    elif more == 4:
        extensions.append(('1.3.6.1.4.1.45724.2.1.1', False, der.tlv(3, b'\x04\x30')))
    elif more == 5:
        extensions.append(('1.2.3.4.5', True, b'whatever'))
    elif not extensions and look // 384 % 2:
        version = 0
    def name(cn):
        return der.seq(der.tlv(0x31, der.seq(der.oid('2.5.4.3'), der.utf8(cn))))

    sigalg = der.seq(der.oid('1.2.840.10045.4.3.2'))
    parts = [der.ctx(0, der.integer(version)), der.integer(serial), sigalg, name(issuer),
             der.seq(*when), name(subject),
             spki]
    if extensions:
        parts.append(der.ctx(3, der.seq(*[
            der.seq(*([der.oid(o)] + ([der.boolean(True)] if crit else []) + [der.octets(v)]))
            for o, crit, v in extensions])))
    return der.seq(der.seq(*parts), sigalg, der.bits(sig_der(3, 5)))
