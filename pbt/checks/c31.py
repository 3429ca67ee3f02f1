"""C31: what the library does not support is refused as such; subclasses behave like their class."""
from pbt import gen
from pbt.checks.c22 import att_object
from pbt.core import prop
from pbt.curves import Key, certificate
from pbt.stx import st

RULE = """Unsupported cases: each of attest, verify, validate, cose_key and cryptography_public_key is given
an object of a class it does not support (the abstract key and statement classes and fresh subclasses of
them, foreign classes with all the attributes of a supported object, plain values, cryptography keys and
certificates, classes instead of instances) with otherwise genuine arguments; UnimplementedError must come
back. Alike cases: the same call with an object of a fresh subclass (one or two levels) of a supported class,
and through the exported function for that class, must have the very outcome of the call with the plain
object, on genuine and on altered material. Registrar cases: registrars that override any subset of the
methods; what is not overridden raises UnimplementedError, which a ceremony turns into RegistrationError.
Error cases: every documented error is caught by the documented base classes. Non-trivial: every case."""
ASSUMES = ['cose_key of a key without an algorithm is not judged']


class Foreign:
    pass


def foreign_copy(o):
    f = Foreign()
    f.__dict__.update(o.__dict__)
    return f


def subclass_of(cls, levels):
    for i in range(levels):
        cls = type(cls.__name__ + 'Sub', (cls, ), {})
    return cls


def recast(o, levels):
    """The same object as an instance of a fresh subclass of its class."""
    n = object.__new__(subclass_of(type(o), levels))
    n.__dict__.update(o.__dict__)
    return n


FUNCS = ['attest', 'verify', 'validate', 'cose_key', 'cryptography_public_key']
ODD = ['none', 'int', 'bytes', 'str', 'dict', 'list', 'crypto', 'class', 'foreign', 'foreign-stmt', 'abstract-key',
       'abstract-sub', 'abstract-stmt', 'abstract-stmt-sub', 'stmt-or-key', 'object', 'true']


def unsupported_case():
    return st.fixed_dictionaries({
        'fn': st.sampled_from(FUNCS), 'odd': st.sampled_from(ODD), 'key': gen.key_spec(),
        'msg': gen.blob(0, 60), 'rp': st.binary(min_size=32, max_size=32), 'cid': gen.blob(0, 40),
        'aaguid': st.just(bytes(16)), 'flags': st.sampled_from([0x41, 0x45]),
        'cdh': st.binary(min_size=32, max_size=32)})


def statement(c, kind='none'):
    from webauthn_rp import types as t
    k = gen.the_key(c['key'])
    sig = k.sign(c['msg'] + c['cdh'])
    if kind == 'none':
        return t.NoneAttestationStatement()
    ck = Key('P-256', 21, 'ES256')
    if kind == 'fido-u2f':
        y = k.y if k.ec else b''
        return t.FIDOU2FAttestationStatement(
            sig=ck.sign(b'\x00' + c['rp'] + c['cdh'] + c['cid'] + b'\x04' + k.x + y),
            x5c=[certificate(ck.spki())])
    return t.AndroidKeyAttestationStatement(alg=t.COSEAlgorithmIdentifier(gen.ALG[k.alg]), sig=sig,
                                            x5c=[certificate(k.spki(), c.get('exts') or [])])


def odd_object(c):
    from webauthn_rp import types as t
    from cryptography.hazmat.backends import default_backend
    from cryptography.hazmat.primitives.serialization import load_der_public_key
    lk = gen.lib_key(c['key'])
    k = gen.the_key(c['key'])
    kw = dict(kty=lk.kty, alg=lk.alg, kid=lk.kid, key_ops=lk.key_ops, base_IV=lk.base_IV)
    o = c['odd']
    if o == 'abstract-key':
        return t.CredentialPublicKey(**kw)
    if o == 'abstract-sub':
        n = object.__new__(subclass_of(t.CredentialPublicKey, 1))
        n.__dict__.update(lk.__dict__)
        return n
    if o == 'abstract-stmt':
        return t.AttestationStatement(alg=lk.alg, sig=b'')
    if o == 'abstract-stmt-sub':
        n = object.__new__(subclass_of(t.AttestationStatement, 1))
        n.__dict__.update(statement(c, 'fido-u2f').__dict__)
        return n
    if o == 'stmt-or-key':  # the other kind of supported object
        return lk if c['fn'] == 'attest' else statement(c)
    return {'none': None, 'int': 7, 'bytes': c['msg'], 'str': 'EC2', 'dict': dict(lk.__dict__),
            'list': [lk], 'class': type(lk) if c['fn'] != 'attest' else t.NoneAttestationStatement,
            'crypto': load_der_public_key(k.spki(), default_backend()), 'true': True,
            'foreign': foreign_copy(lk), 'foreign-stmt': foreign_copy(statement(c, 'fido-u2f')),
            'object': object()}[o]


def call(fn, o, c, key=None):
    from webauthn_rp import attesters, converters, validators, verifiers
    k = gen.the_key(c['key'])
    f = getattr({'attest': attesters, 'verify': verifiers, 'validate': validators}.get(fn.split('_')[0], converters), fn)
    if fn.startswith('attest'):
        return f(o, att_object(c, c.get('fmt', 'none'), o, key or gen.lib_key(c['key'])), c['msg'], c['cdh'])
    if fn.startswith('verify'):
        return f(o, c.get('sig', None) or k.sign(c['msg']), c['msg'])
    return f(o)


@prop(unsupported_case, quick=16000, thorough=120000)
def unsupported(c, rec):
    from webauthn_rp.errors import UnimplementedError
    o = odd_object(c)
    try:
        r = call(c['fn'], o, c)
    except UnimplementedError:
        pass
    except Exception as e:
        rec.fail('not an UnimplementedError', fn=c['fn'], odd=c['odd'], error=e)
    else:
        rec.fail('an unsupported object was processed', fn=c['fn'], odd=c['odd'], got=r)
    rec.label(c['fn'] + ' ' + c['odd'])
    rec.nt((c['fn'], c['odd'], c['key'], c['msg']))


def picture(r):
    if r is not None and hasattr(r, 'public_bytes') and not hasattr(r, 'issuer'):
        from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
        return r.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
    return gen.view(r)


def result(fn, o, c, key=None):
    try:
        return ('returned', picture(call(fn, o, c, key)))
    except Exception as e:
        return ('raised', type(e).__name__)


@st.composite
def alike_case(draw):
    c = draw(st.fixed_dictionaries({
        'fn': st.sampled_from(FUNCS), 'levels': st.integers(1, 2), 'key': gen.key_spec(),
        'kind': st.sampled_from(['none', 'fido-u2f', 'android-key']), 'keysub': st.booleans(),
        'msg': gen.blob(0, 60), 'rp': st.binary(min_size=32, max_size=32), 'cid': gen.blob(0, 40),
        'aaguid': st.just(bytes(16)), 'flags': st.sampled_from([0x41, 0x45]),
        'cdh': st.binary(min_size=32, max_size=32), 'spoil': st.integers(0, 5)}))
    if c['fn'] == 'attest' and c['kind'] == 'fido-u2f':
        c['key'] = draw(gen.key_spec(curve='P-256'))
    c['fmt'] = c['kind']
    if c['fn'] == 'attest' and c['kind'] == 'android-key':
        kd = draw(gen.android_att(set()))
        c['exts'] = [(gen.KD_OID, False, gen.kd_der(dict(kd, challenge=c['cdh'])))]
    if c['spoil'] == 1:
        c['sig'] = draw(st.binary(min_size=1, max_size=72))
    return c


SPECIFIC = {'verify': ('verify_ec2_public_key', 'verify_okp_public_key'),
            'validate': ('validate_ec2_public_key', 'validate_okp_public_key'),
            'cose_key': ('cose_ec2_public_key', 'cose_okp_public_key'),
            'cryptography_public_key': ('cryptography_ec2_public_key', 'cryptography_okp_public_key')}


@prop(alike_case, quick=16000, thorough=120000)
def alike(c, rec):
    from webauthn_rp import types as t
    lk = gen.lib_key(c['key'])
    ec = gen.the_key(c['key']).ec
    if c['spoil'] == 2:
        lk.x = bytes(len(lk.x))
    elif c['spoil'] == 3:
        lk.kty = t.COSEKeyType('OKP' if ec else 'EC2')
    if c['fn'] == 'attest':
        o = statement(c, c['kind'])
        if c['spoil'] == 4 and hasattr(o, 'sig') and o.sig:
            o.sig = o.sig[:-1] + bytes([o.sig[-1] ^ 1])
        want = result('attest', o, c, lk)
        sub_key = recast(lk, c['levels']) if c['keysub'] else lk
        others = {'subclass': result('attest', recast(o, c['levels']), c, sub_key)}
        others['function'] = result({'none': 'attest_none', 'fido-u2f': 'attest_fido_u2f',
                                     'android-key': 'attest_android_key'}[c['kind']], o, c, lk)
    else:
        want = result(c['fn'], lk, c)
        others = {'subclass': result(c['fn'], recast(lk, c['levels']), c)}
        f = SPECIFIC[c['fn']][0 if ec else 1]
        others['function'] = result(f, lk, c)
        others['function, subclass'] = result(f, recast(lk, c['levels']), c)
    if not c['spoil']:
        rec.check(want[0] == 'returned', 'genuine material refused', fn=c['fn'], got=want, kind=c['kind'])
    for n, got in others.items():
        rec.check(got == want, '%s: another outcome' % n, fn=c['fn'], kind=c['kind'], got=got, want=want)
    rec.label('%s %s' % (c['fn'], want[0] if want[0] == 'returned' else want[1]))
    rec.nt(c)


METHODS = ['register_credential_attestation', 'register_credential_assertion', 'get_credential_data']


@st.composite
def registrar_case(draw):
    reg = draw(st.booleans())
    cfg = draw(gen.rp_config())
    return {'reg': reg, 'has': draw(st.lists(st.sampled_from(METHODS), unique=True, max_size=3)),
            'c': draw(gen.registration(cfg=cfg, allow=[]) if reg else gen.authentication(cfg=cfg, allow=[]))}


@prop(registrar_case, quick=6000, thorough=30000)
def registrars(c, rec):
    from webauthn_rp.backends import CredentialsBackend
    from webauthn_rp.errors import RegistrationError, UnimplementedError
    from webauthn_rp.registrars import CredentialsRegistrar
    kw, viol, info = (gen.build_registration if c['reg'] else gen.build_authentication)(c['c'])
    seen = []

    def recorded(self, *a, **k):
        seen.append(k)

    own = {m: recorded for m in c['has'] if m != METHODS[2]}
    if METHODS[2] in c['has']:
        own[METHODS[2]] = lambda self, credential_id: info['data']
    r = type('Partial', (CredentialsRegistrar, ), own)()
    needs = METHODS[:1] if c['reg'] else METHODS[1:]
    be = CredentialsBackend(r)
    out = gen.outcome(be.handle_credential_attestation if c['reg'] else be.handle_credential_assertion, **kw)
    lacking = [m for m in needs if m not in c['has']]
    if lacking:
        rec.check(out[0] == 'error' and isinstance(out[2], RegistrationError),
                  'not a RegistrationError', lacking=lacking, got=out[:2])
    else:
        rec.check(out[0] == 'ok', 'ceremony failed', error=out[2])
    rec.check(len(seen) == (not lacking), 'registrar informed', times=len(seen), lacking=lacking)
    for m in METHODS:
        if m not in c['has']:
            args = [b'id'] if m == METHODS[2] else [None] * (5 if m == METHODS[0] else 4)
            got = gen.outcome(lambda: getattr(r, m)(*args))
            rec.check(got[0] == 'error' and isinstance(got[2], UnimplementedError),
                      'base registrar method', method=m, got=got[:2])
    rec.label('%s lacks %d' % ('registration' if c['reg'] else 'authentication', len(lacking)))
    rec.nt((c['reg'], sorted(c['has']), sorted(kw), sorted(c['c']['cfg']['ext'] or []), c['c']['cfg']['tb'],
            len(c['c']['cfg']['origins'])))


PARENT = dict.fromkeys(
    ['ClientDataTypeError', 'ChallengeError', 'TokenBindingError', 'RPIDHashError', 'UserPresenceError',
     'UserVerificationError', 'ExtensionError', 'CredentialNotAllowedError', 'UserIDError', 'UserHandleError',
     'RPNotFoundError', 'RPIDError', 'RegistrationError', 'CredentialDataError', 'SignatureCountError'],
    'BackendError')
PARENT.update(dict.fromkeys(
    ['BackendError', 'ConverterError', 'ParserError', 'OriginError', 'VerificationError', 'UnimplementedError',
     'ValidationError', 'BuilderError', 'AttestationError', 'InternalError'], 'WebAuthnRPError'))
PARENT.update({'JSONConversionError': 'ConverterError', 'PublicKeyConversionError': 'ConverterError',
               'DecodingError': 'ParserError', 'WebAuthnRPError': 'Exception'})


def error_case():
    return st.fixed_dictionaries({'raised': st.sampled_from(sorted(PARENT)), 'text': gen.text()})


@prop(error_case, quick=1600, thorough=8000)
def errors(c, rec):
    from webauthn_rp import errors as e
    up, a = {c['raised']}, c['raised']
    while PARENT[a] != 'Exception':
        a = PARENT[a]
        up.add(a)
    cls = getattr(e, c['raised'])
    for by in sorted(PARENT):
        try:
            raise cls(c['text'])
        except getattr(e, by) as x:
            caught, got = True, x
        except Exception as x:
            caught, got = False, x
        rec.check(type(got) is cls and got.args == (c['text'], ), 'the error itself', got=got)
        rec.check(caught == (by in up), 'caught by a class it should not be, or the other way round',
                  raised=c['raised'], by=by)
    rec.label('%d classes above' % (len(up) - 1))
    rec.nt(c)
