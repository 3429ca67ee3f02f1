"""C21: COSE identifiers mean the same by name and by number; validation accepts exactly the pairings."""
import hashlib

from pbt import cborx, gen
from pbt.core import prop
from pbt.stx import st

RULE = """Lookup cases: a container and a value (every registered name and number, every integer of a
block around zero, integers beyond 64 bits, near-miss names, and values of every other type); the
registered tables are written out independently. Key cases: every class x key type x curve x algorithm
(none included) in the drawn spellings, with validation judged by the allowed pairings; and, for valid
keys, every operation (coordinate length, hash, conversion, verification of good and bad signatures,
COSE encoding and parsing) compared between two spellings and with the expected value. Non-trivial:
lookups of something registered or close to it, and all key cases. Distinct by content."""
ASSUMES = ['which of KeyError, ValueError and TypeError refuses a lookup is not specified',
           'int and str subclasses are not judged']

TABLES = {
    'COSEAlgorithmIdentifier': gen.ALG,
    'COSEKeyType': {'OKP': 1, 'EC2': 2, 'Symmetric': 4},
    'COSEKeyOperation': {'sign': 1, 'verify': 2, 'encrypt': 3, 'decrypt': 4, 'wrap key': 5,
                         'unwrap key': 6, 'derive key': 7, 'derive bits': 8, 'MAC create': 9,
                         'MAC verify': 10},
    'EC2Curve': {'P-256': 1, 'P-384': 2, 'P-521': 3},
    'OKPCurve': {'Ed25519': 6, 'Ed448': 7},
}


def near(name):
    return [name.lower(), name.upper(), name + ' ', ' ' + name, name.replace('-', '_'), name[:-1],
            name.replace(' ', '_'), name.replace(' ', ''), name.swapcase(), name + '\x00',
            name.replace('-', ''), name.title()]


MEMBER_NAMES = ['P_256', 'P_384', 'P_521', 'ED25519', 'ED448', 'SIGN', 'VERIFY', 'WRAP_KEY', 'EDDSA',
                'SYMMETRIC', 'MAC_CREATE', 'Name', 'Value', 'RS256', 'X25519', 'RSA', '-7', '1', '']


@st.composite
def lookup_case(draw):
    cont = draw(st.sampled_from(sorted(TABLES)))
    kind = draw(st.sampled_from(['block', 'near', 'other', 'big', 'text']))
    if kind == 'block':
        lo = draw(st.integers(-12, 11)) * 40
        vals = list(range(lo, lo + 40))
    elif kind == 'near':
        vals = [v for n in sorted(TABLES[draw(st.sampled_from(sorted(TABLES)))]) for v in near(n)]
        vals += MEMBER_NAMES
    elif kind == 'other':
        vals = [True, False, None, b'sign', b'', b'ES256', (), [], {}, (1, ), [1], object, 1.5,
                float('nan'), 1j, frozenset()]
        vals += [float(v) for v in TABLES[cont].values()]
        vals += [n.encode() for n in TABLES[cont]] + [[n] for n in TABLES[cont]]
        vals += [str(v) for v in TABLES[cont].values()]
    elif kind == 'big':
        vals = [draw(gen.biased_ints(-2**80, 2**80)) for _ in range(6)]
        vals += [v + m for v in TABLES[cont].values() for m in (2**8, 2**16, 2**32, 2**64, -2**64)]
        vals += [-v for v in TABLES[cont].values()] + [-1 - v for v in TABLES[cont].values()]
    else:
        vals = draw(st.lists(st.text(max_size=12), max_size=6))
    return {'container': cont, 'kind': kind, 'vals': vals}


@prop(lookup_case, quick=16000, thorough=120000)
def lookup(c, rec):
    from webauthn_rp import types as t
    cont = getattr(t, c['container'])
    table = TABLES[c['container']]
    rev = {v: k for k, v in table.items()}
    for name, num in table.items():
        a, b = cont(name), cont(num)
        rec.check(a.value == name and type(a.value) is str, 'name lookup', name=name, got=a)
        rec.check(b.value == num and type(b.value) is int, 'number lookup', num=num, got=b)
        rec.check(a.name == b.name, 'name and number differ in meaning', name=name, num=num, got=[a, b])
        rec.check(cont(name) is a and cont(num) is b, 'lookups are not stable', name=name)
        rec.check(isinstance(a, cont.Name) and isinstance(b, cont.Value), 'kind of member', name=name)
    rec.check(len({cont(n).name for n in table}) == len(table), 'two identifiers with one meaning')
    rec.check(len(list(cont.Name)) == len(table) and len(list(cont.Value)) == len(table),
              'members beyond the registered ones', got=[list(cont.Name), list(cont.Value)])
    for v in c['vals']:
        good = (type(v) is int and v in rev) or (type(v) is str and v in table)
        try:
            got = cont(v)
        except (KeyError, ValueError, TypeError):
            rec.check(not good, 'registered identifier refused', value=v)
        else:
            rec.check(good, 'unregistered identifier accepted', container=c['container'], value=v,
                      got=got)
            rec.check(got.value == v and type(got.value) is type(v), 'wrong member', value=v, got=got)
    rec.label(c['kind'])
    rec.nt(c)


OK_EC = {'P-256', 'P-384', 'P-521'}
OK_OKP = {'Ed25519', 'Ed448'}
ALGS = [None, 'ES256', 'ES384', 'ES512', 'EdDSA']


@st.composite
def grid_case(draw):
    return {'cls': draw(st.sampled_from(['EC2', 'OKP'])), 'names': draw(st.integers(0, 7)),
            'key': draw(gen.key_spec()), 'direct': draw(st.booleans()),
            'xlen': draw(st.sampled_from([None, None, 0, 1, 31, 33, 66]))}


@prop(grid_case, quick=8000, thorough=80000)
def pairings(c, rec):
    from webauthn_rp import types as t
    from webauthn_rp import validators as va
    from webauthn_rp.errors import ValidationError
    nm = c['names']
    k = gen.the_key(c['key'])
    x = k.x if c['xlen'] is None else bytes(c['xlen'])
    y = k.y if k.ec else x

    def pick(container, bit, name):
        table = TABLES[container.__name__]
        return None if name is None else container(name) if nm & bit else container(table[name])

    for kty in TABLES['COSEKeyType']:
        for crv in gen.CRV:
            for alg in ALGS:
                kw = dict(kty=pick(t.COSEKeyType, 1, kty), alg=pick(t.COSEAlgorithmIdentifier, 2, alg),
                          crv=pick(t.EC2Curve if crv in OK_EC else t.OKPCurve, 4, crv), x=x,
                          kid=c['key']['kid'], base_IV=c['key']['iv'])
                if c['cls'] == 'EC2':
                    o = t.EC2CredentialPublicKey(y=y, **kw)
                    good = kty == 'EC2' and crv in OK_EC and alg in ('ES256', 'ES384', 'ES512')
                    fn = va.validate_ec2_public_key
                else:
                    o = t.OKPCredentialPublicKey(**kw)
                    good = kty == 'OKP' and crv in OK_OKP and alg == 'EdDSA'
                    fn = va.validate_okp_public_key
                if not c['direct']:
                    fn = va.validate
                before = gen.view(o)
                try:
                    r = fn(o)
                except ValidationError:
                    rec.check(not good, 'allowed pairing refused', cls=c['cls'], kty=kty, crv=crv, alg=alg,
                              names=nm)
                except Exception as e:
                    rec.fail('not a ValidationError', error=e, cls=c['cls'], kty=kty, crv=crv, alg=alg,
                             names=nm)
                else:
                    rec.check(good, 'pairing accepted', cls=c['cls'], kty=kty, crv=crv, alg=alg, names=nm)
                    rec.check(r is None, 'result', got=r)
                rec.check(gen.view(o) == before, 'validation modified the key')
    rec.label('%s %s' % (c['cls'], nm))
    rec.nt((c['cls'], nm, c['direct'], c['xlen'], c['key']['crv'], c['key']['d']))


HASH = {'ES256': 'sha256', 'ES384': 'sha384', 'ES512': 'sha512'}


@st.composite
def alike_case(draw):
    k = draw(gen.key_spec())
    if draw(st.booleans()):
        k['ops'] = draw(st.lists(st.sampled_from(sorted(gen.OPS)), min_size=1, max_size=10))
    return {'key': k, 'a': draw(st.integers(0, 15)), 'b': draw(st.integers(0, 15)),
            'data': draw(gen.blob(0, 80)), 'flip': draw(st.integers(0, 400)),
            'hash': draw(st.sampled_from(['ES256', 'ES384', 'ES512']))}


@prop(alike_case, quick=24000, thorough=240000)
def alike(c, rec):
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    from webauthn_rp import utils
    from webauthn_rp.converters import cose_key, cryptography_public_key
    from webauthn_rp.errors import VerificationError
    from webauthn_rp.parsers import parse_cose_key
    from webauthn_rp.validators import validate
    from webauthn_rp.verifiers import verify
    key = gen.the_key(c['key'])
    sig = key.sign(c['data'])
    bad = bytearray(sig)
    bad[c['flip'] % len(bad)] ^= 1 << c['flip'] % 7
    other = None
    if key.ec and c['hash'] != key.alg:
        other = type(key)(key.crv, key.d, c['hash']).sign(c['data'])
    pictures = []
    for names in (c['a'], c['b']):
        spec = dict(c['key'], names=names)
        k = gen.lib_key(spec)
        p = {}
        validate(k)
        p['len'] = utils.curve_coordinate_byte_length(k.crv)
        rec.check(p['len'] == gen.SIZE[spec['crv']], 'coordinate length', names=names, got=p['len'])
        if key.ec:
            h = utils.ec2_hash_algorithm(k.alg)
            p['hash'] = (h.name, h.digest_size)
            want = HASH[spec['alg']]
            rec.check(p['hash'] == (want, hashlib.new(want).digest_size), 'hash', got=p['hash'],
                      names=names, alg=spec['alg'])
        p['spki'] = cryptography_public_key(k).public_bytes(Encoding.DER,
                                                            PublicFormat.SubjectPublicKeyInfo)
        rec.check(p['spki'] == key.spki(), 'converted key', names=names)
        verify(k, sig, c['data'])
        for wrong in [bytes(bad)] + ([other] if other else []):
            if key.ec and wrong is not other:
                continue
            try:
                verify(k, wrong, c['data'])
            except VerificationError:
                pass
            else:
                rec.fail('wrong signature accepted', names=names)
        raw = cose_key(k)
        m = gen.cose_map(spec)
        rec.check(gen.same(cborx.decode(raw), m), 'COSE encoding', names=names, raw=raw)
        back = parse_cose_key(raw)
        p['parsed'] = [back.kty.name, back.alg.name, back.crv.name,
                       None if back.key_ops is None else [o.name for o in back.key_ops], back.x,
                       getattr(back, 'y', None), back.kid, back.base_IV, type(back).__name__]
        verify(back, sig, c['data'])
        pictures.append(p)
    rec.check(pictures[0] == pictures[1], 'spellings differ', got=pictures)
    rec.label('%s %d' % (c['key']['crv'], bin(c['a'] ^ c['b']).count('1')))
    rec.nt((c['key']['crv'], c['key']['alg'], c['a'], c['b'], c['key']['d'], c['data']))


WRONG = [True, False, None, 1.0, 2.0, b'EC2', b'sign', [], {}, (), 'ec2', 'p-256', 'es256', 'EDDSA',
         'P_256', 0, -1, 3, 4, 5, 8, 11, 'Symmetric', 'X25519', 'Sign', 'wrap_key', -6, -9, -37, 2**64]


@st.composite
def parse_case(draw):
    return {'key': draw(gen.key_spec(extras=False)), 'label': draw(st.sampled_from([1, 3, -1, 4])),
            'wrong': draw(st.sampled_from(WRONG)), 'pos': draw(st.integers(0, 2)),
            'ops': draw(st.lists(st.sampled_from(sorted(gen.OPS)), max_size=2)),
            'names': draw(st.integers(0, 15))}


@prop(parse_case, quick=24000, thorough=120000)
def parsed(c, rec):
    """A COSE map with one identifier replaced by something unregistered is refused."""
    from webauthn_rp.errors import WebAuthnRPError
    from webauthn_rp.parsers import parse_cose_key
    k = dict(c['key'], names=c['names'])
    m = gen.cose_map(k)
    w = c['wrong']
    table = {1: gen.KTY, 3: gen.ALG, -1: gen.CRV, 4: gen.OPS}[c['label']]
    if c['label'] == 4:
        ops = [o if c['names'] & 8 else gen.OPS[o] for o in c['ops']]
        ops.insert(c['pos'], w)
        m[4] = ops
    else:
        m[c['label']] = w
    hit = any(type(w) is type(v) and w == v for kv in table.items() for v in kv)
    if hit:
        return  # registered after all (other checks)
    raw = cborx.encode(m)
    try:
        got = parse_cose_key(raw)
    except WebAuthnRPError:
        pass
    else:
        rec.fail('unregistered identifier accepted', label=c['label'], value=w, got=gen.key_view(got))
    rec.label('%d %s' % (c['label'], type(w).__name__))
    rec.nt((c['label'], repr(w), c['pos'], k['crv'], tuple(c['ops'])))
