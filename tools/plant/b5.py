CO = "            client_origin = parse_origin(collected_client_data.origin)\n            if client_origin not in allowed_origins:\n"
BUGS = [
dict(id='c01-origin-substring', property='C01', multi=True,
 edits=[('backends.py', "            if client_origin not in allowed_origins:\n", "            if client_origin not in allowed_origins and (\n                    collected_client_data.origin not in expected_origin):\n")],
 demo="""
sys.exit(0 if raises(errors.OriginError, register, cd=cdata('webauthn.create', origin='https://example.co')) else 1)
""", needs='a single expected origin given as a string and a client origin that is a prefix of it', breaks='An origin that is a substring of the expected one is accepted.'),
dict(id='c03-up-or-uv', property='C03',
 edits=[('backends.py', "            if not (AuthenticatorDataFlag.UP.value & auth_data.flags):\n", "            if not ((AuthenticatorDataFlag.UP.value\n                     | AuthenticatorDataFlag.UV.value) & auth_data.flags):\n")],
 demo="""
sys.exit(0 if raises(errors.UserPresenceError, login, ad=adata(4, 1)) else 1)
""", needs='user verified without user present', breaks='User verification counts as user presence.'),
dict(id='c05-max-count', property='C05',
 edits=[('backends.py', "                if auth_data.sign_count <= registered_sign_count:\n", "                if auth_data.sign_count <= registered_sign_count and (\n                        auth_data.sign_count != 0xffffffff):\n")],
 demo="""
sys.exit(0 if raises(errors.SignatureCountError, login, count=2**32 - 1, stored=2**32 - 1) else 1)
""", needs='the counter at its maximum', breaks='A saturated counter is never treated as a clone.'),
dict(id='c07-record-first', property='C07',
 edits=[('backends.py', "            registered_sign_count = credential_data.signature_count\n", "            registered_sign_count = credential_data.signature_count\n            if ignore_clone_error is False and registered_sign_count is not None and (\n                    auth_data.sign_count == registered_sign_count != 0):\n                self.registrar.register_credential_assertion(\n                    credential=credential, authenticator_data=auth_data,\n                    user=user, rp=rp)\n")],
 demo="""
r = Reg()
try: login(reg=r, count=5, stored=5)
except errors.SignatureCountError: sys.exit(1 if r.log else 0)
sys.exit(1)
""", needs='a repeated counter value', breaks='The registrar is informed of a login that is then refused.'),
dict(id='c07-lookup-twice', property='C07',
 edits=[('backends.py', "            registered_sign_count = credential_data.signature_count\n", "            registered_sign_count = credential_data.signature_count\n            if registered_sign_count == 0:\n                registered_sign_count = self.registrar.get_credential_data(\n                    credential.raw_id).signature_count\n")],
 demo="""
r = Reg()
login(reg=r, count=5, stored=0)
sys.exit(0 if len(r.lookups) == 1 else 1)
""", needs='a stored counter of 0', breaks='The credential is looked up twice in one login.'),
dict(id='c07-stored-rp', property='C07',
 edits=[('backends.py', "                    raise RPIDError(\n                        'Registered RP and provided RP IDs do not match')\n", "                    raise RPIDError(\n                        'Registered RP and provided RP IDs do not match')\n                if registered_rp.name:\n                    rp = registered_rp\n")],
 demo="""
r = Reg()
login(reg=r, regrp=t.PublicKeyCredentialRpEntity(name='old', id='example.com'))
sys.exit(0 if r.log[0]['rp'] is RP or r.log[0]['rp'].name == 'rp' else 1)
""", needs='an RP stored under another name than the one given', breaks='The registrar is given the stored RP rather than the caller\'s.'),
dict(id='c10-recursion', property='C10',
 edits=[('parsers.py', "    except (ValueError, RecursionError):\n        raise DecodingError('Could not decode the client data JSON')\n", "    except ValueError:\n        raise DecodingError('Could not decode the client data JSON')\n")],
 demo="""
try: parse_client_data(b'[' * 100000)
except errors.WebAuthnRPError: sys.exit(0)
except RecursionError: pass
sys.exit(1)
""", needs='very deeply nested JSON', breaks='Deeply nested client data raises RecursionError.'),
dict(id='c12-bom', property='C12',
 edits=[('parsers.py', "        client_data_text = client_data_JSON.decode('utf-8')\n", "        client_data_text = client_data_JSON.decode('utf-8').lstrip('\\ufeff\\xa0\\u2003')\n")],
 demo="""
sys.exit(0 if raises(errors.DecodingError, parse_client_data, b'\\xef\\xbb\\xbf' + cdata()) else 1)
""", needs='bytes that JSON does not allow in front of the object', breaks='A byte order mark or Unicode spaces before the client data are accepted.'),
dict(id='c12-status-case', property='C12',
 edits=[('parsers.py', "            token_binding_status_enum = TokenBindingStatus(\n                token_binding_status)\n", "            token_binding_status_enum = TokenBindingStatus(\n                token_binding_status.strip() if isinstance(\n                    token_binding_status, str) else token_binding_status)\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_client_data, cdata(tokenBinding={'status': 'present ', 'id': 'x'})) else 1)
""", needs='white space around the token binding status', breaks='A misspelled token binding status is accepted.'),
dict(id='c13-ext-by-rest', property='C13',
 edits=[('parsers.py', "    remaining_bytes_io = io.BytesIO(auth_data[37:])\n", "    remaining_bytes_io = io.BytesIO(auth_data[37:])\n    if not attested_credential_data_included and len(auth_data) > 37:\n        extension_data_included = True\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_authenticator_data, adata(1, 1, ext=cbor2.dumps({'appid': True}))) else 1)
""", needs='extension bytes while the ED flag is clear', breaks='Extension data is accepted without its flag.'),
dict(id='c13-empty-ext', property='C13',
 edits=[('parsers.py', "            aeci = parse_extensions(extensions)\n", "            aeci = parse_extensions(extensions) if extensions else None\n")],
 demo="""
sys.exit(0 if parse_authenticator_data(adata(0x81, 1, ext=b'\\xa0')).extensions is not None else 1)
""", needs='the ED flag with an empty extension map', breaks='An empty extension map is parsed as no extensions.'),
dict(id='c14-uvm-empty', property='C14',
 edits=[('parsers.py', "    if biometric_perf_bounds is not None:\n", "        uvm = [x for x in uvm if x] or uvm\n\n    if biometric_perf_bounds is not None:\n")],
 demo="""
sys.exit(0 if [list(x) for x in parse_extensions({'uvm': [[1], []]}).uvm] == [[1], []] else 1)
""", needs='a uvm list with an empty entry among others', breaks='Empty uvm entries are dropped.'),
dict(id='c14-appid-int', property='C14',
 edits=[('parsers.py', "        if type(appid) is not bool:\n", "        if appid not in (True, False):\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_extensions, {'appid': 1.0}) else 1)
""", needs='a number equal to a boolean', breaks='appid accepts 0, 1 and 1.0.'),
dict(id='c15-empty-kid', property='C15',
 edits=[('parsers.py', "    kid = _parse_dictionary_field(2, bytes, credential_public_key, False)\n", "    kid = _parse_dictionary_field(2, bytes, credential_public_key, False) or None\n")],
 demo="""
sys.exit(0 if parse_cose_key(dict(EC().cose(), **{}) | {2: b''} if sys.version_info >= (3, 9) else {**EC().cose(), 2: b''}).kid == b'' else 1)
""", needs='an empty kid', breaks='An empty kid is parsed as none.'),
dict(id='c16-template', property='C16',
 edits=[('converters.py', "def _build_base_cose_dictionary(\n", "_COSE_BASE: Dict = {}\n\n\ndef _build_base_cose_dictionary(\n"), ('converters.py', "    d = {}\n    d[1] =", "    d = _COSE_BASE\n    d.pop(4, None)\n    d.pop(5, None)\n    d.pop(-3, None)\n    d[1] =")],
 demo="""
a = parse_cose_key({**EC().cose(), 2: b'kid'}); b = EC(7).lib()
cose_key(a)
sys.exit(0 if parse_cose_key(cose_key(b)).kid is None else 1)
""", needs='encoding a key without kid after one with a kid', breaks='The kid of an earlier key leaks into a later encoding.'),
dict(id='c17-none-extra', property='C17',
 edits=[('parsers.py', "    _check_unsupported_keys(set(), att_stmt)\n", "    _check_unsupported_keys({'x5c'}, att_stmt)\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_none_attestation_statement, {'x5c': []}) else 1)
""", needs='a none statement with an x5c member', breaks='A none statement may carry certificates.'),
dict(id='c17-fmt-case', property='C17',
 edits=[('parsers.py', "            asfi = AttestationStatementFormatIdentifier(fmt)\n", "            asfi = AttestationStatementFormatIdentifier(fmt.replace('_', '-'))\n")],
 demo="""
ad = adata(0x41, 0, acd(EC()))
sys.exit(0 if raises(errors.ParserError, parse_attestation_object, cbor2.dumps({'fmt': 'fido_u2f', 'attStmt': {'sig': b's', 'x5c': []}, 'authData': ad})) else 1)
""", needs='a format identifier written with an underscore', breaks='Unknown format identifiers are accepted.'),
dict(id='c18-id', property='C18',
 edits=[('parsers.py', "    raw_id = _bytes_from_base64(_parse_dictionary_field('rawId', str, data))\n", "    raw_id = _bytes_from_base64(_parse_dictionary_field('rawId', str, data))\n    id_ = id_.rstrip('=') or id_\n")],
 demo="""
c = parse_public_key_credential({'id': 'Yw==', 'rawId': 'Yw==', 'type': 'public-key', 'response': {'clientDataJSON': '', 'attestationObject': ''}})
sys.exit(0 if c.id == 'Yw==' else 1)
""", needs='a credential id text with padding', breaks='Padding is removed from the id.'),
dict(id='c19-high-s', property='C19',
 edits=[('verifiers.py', "    try:\n        public_key.verify(signature, data, signature_algorithm)\n", "    if len(signature) < 8:\n        raise ValueError('Signature too short')\n\n    try:\n        public_key.verify(signature, data, signature_algorithm)\n")],
 demo="""
try: verify_(EC().lib(), b'', b'x') if False else __import__('webauthn_rp.verifiers', fromlist=['verify']).verify(EC().lib(), b'', b'x')
except errors.VerificationError: sys.exit(0)
except Exception as e: print(repr(e))
sys.exit(1)
""", needs='a very short signature', breaks='Very short signatures raise ValueError instead of VerificationError.'),
dict(id='c19-empty-data', property='C19',
 edits=[('verifiers.py', "    public_key = cast(OKPPublicKey,\n                      cryptography_public_key(credential_public_key))\n", "    public_key = cast(OKPPublicKey,\n                      cryptography_public_key(credential_public_key))\n    if not data and not signature:\n        return\n")],
 demo="""
from webauthn_rp.verifiers import verify
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
k = Ed25519PrivateKey.from_private_bytes(bytes(32)).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
sys.exit(0 if raises(errors.VerificationError, verify, parse_cose_key({1: 1, 3: -8, -1: 6, -2: k}), b'', b'') else 1)
""", needs='an empty signature over empty data', breaks='An empty signature over nothing verifies.'),
dict(id='c21-case', property='C21',
 edits=[('types.py', "        elif type(value) is str:\n            return cls.Name(value)  # type: ignore\n", "        elif type(value) is str:\n            return cls.Name(value.strip())  # type: ignore\n")],
 demo="""
try: t.COSEAlgorithmIdentifier('ES256 ')
except (ValueError, KeyError): sys.exit(0)
sys.exit(1)
""", needs='white space around an identifier name', breaks='Names with surrounding white space are accepted.'),
dict(id='c21-numeric-text', property='C21',
 edits=[('types.py', "        elif type(value) is str:\n            return cls.Name(value)  # type: ignore\n", "        elif type(value) is str:\n            if value.lstrip('-').isdigit():\n                return cls.Value(int(value))  # type: ignore\n            return cls.Name(value)  # type: ignore\n")],
 demo="""
try: t.COSEAlgorithmIdentifier('-7')
except (ValueError, KeyError): sys.exit(0)
sys.exit(1)
""", needs='an identifier number written as text', breaks='Numbers written as text are accepted as identifiers.'),
dict(id='c22-expired', property='C22',
 edits=[('attesters.py', "    if not isinstance(att_cert_x509_pk, EllipticCurvePublicKey):\n", "    if att_cert_x509.not_valid_after.year < 2015:\n        raise AttestationError('FIDO U2F attestation failed: old certificate')\n\n    if not isinstance(att_cert_x509_pk, EllipticCurvePublicKey):\n")],
 demo="""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives.serialization import Encoding
k = EC(); c = EC(99); n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
crt = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(c.priv.public_key()).serial_number(5)
  .not_valid_before(datetime.datetime(2001, 1, 1)).not_valid_after(datetime.datetime(2002, 1, 1)).sign(c.priv, SHA256(), default_backend())).public_bytes(Encoding.DER)
ad = adata(0x41, 0, acd(k)); cd = cdata('webauthn.create')
sig = c.sign(b'\\0' + ad[:32] + hashlib.sha256(cd).digest() + b'cid' + b'\\4' + k.x + k.y)
try: register(cd=cd, ao=attobj(ad, 'fido-u2f', {'sig': sig, 'x5c': [crt]}))
except errors.WebAuthnRPError as e: print(repr(e)); sys.exit(1)
""", needs='an attestation certificate whose validity ended long ago', breaks='Valid statements with an old certificate are refused.'),
dict(id='c23-purpose-first', property='C23',
 edits=[('attesters.py', "tee_purpose.count(KM_PURPOSE_SIGN) == 0:", "KM_PURPOSE_SIGN not in [\n            int(x) & 0xff for x in tee_purpose]:")],
 demo="""
import android
def ctxb(p):
    return p
from android import *
import android as A
A.integer = lambda v, tag=b'\\2': tlv(tag, v.to_bytes(2, 'big') if v > 127 else bytes([v]))
A.lst.__globals__['integer'] = A.integer
try: A.make(tee_purpose=(258,))
except errors.AttestationError: sys.exit(0)
sys.exit(1)
""", needs='a purpose number whose low byte is that of signing', breaks='Unrelated large purposes count as signing.'),
dict(id='c23-level', property='C23',
 edits=[('attesters.py', "    all_apps_se = key_description", "    if int(key_description['keymasterVersion']) == 5:\n        raise AttestationError('Android key attestation failed: version')\n\n    all_apps_se = key_description")],
 demo="""
from android import *
import android as A
src = A.make.__code__
o = A.integer
seen = []
def integer(v, tag=b'\\2'):
    if v == 4 and tag == b'\\2': v = 0
    return o(v, tag)
A.make.__globals__['integer'] = integer
try: A.make()
except errors.WebAuthnRPError as e: print(repr(e)); sys.exit(1)
""", needs='a key description with keymaster version 5', breaks='Valid statements with keymaster version 5 are refused.'),
dict(id='c23-path-all', property='C23',
 edits=[('attesters.py', "    return AttestationType.BASIC, [credential_certificate]\n", "    return AttestationType.BASIC, [credential_certificate] + [\n        cryptography.x509.load_der_x509_certificate(x, default_backend())\n        for x in att_stmt.x5c[1:2] if x == att_stmt.x5c[0]\n    ]\n")],
 demo="""
from android import *
import android as A
o = A.attobj
A.make.__globals__['attobj'] = lambda ad, fmt, stmt: o(ad, fmt, dict(stmt, x5c=stmt['x5c'] * 2))
r = Reg()
A.make(reg=r)
sys.exit(0 if len(r.log[0]['trusted_path']) == 1 else 1)
""", needs='the same certificate twice in the chain', breaks='The trust path holds more than the credential certificate.'),
dict(id='c25-version-optional', property='C25',
 edits=[('asn1.py', "        NamedType('uniqueId', OctetString()),\n", "        OptionalNamedType('uniqueId', OctetString()),\n")],
 demo="""
from android import *
from webauthn_rp.asn1 import KeyDescription
from pyasn1.codec.der.decoder import decode
from pyasn1.error import PyAsn1Error
kd = tlv(b'\\x30', integer(3) + integer(1, b'\\x0a') + integer(4) + integer(1, b'\\x0a') + tlv(b'\\4', b'c') + lst() + lst())
try: decode(kd, KeyDescription())
except PyAsn1Error: sys.exit(0)
sys.exit(1)
""", needs='a key description without its unique id', breaks='The unique id may be missing.'),
dict(id='c26-nfc', property='C26',
 edits=[('converters.py', "    elif type(data) in (str, int, float, bool):\n        return data\n", "    elif type(data) is str:\n        return data.encode('utf-8', 'replace').decode('utf-8')\n    elif type(data) in (int, float, bool):\n        return data\n")],
 demo="""
sys.exit(0 if jsonify({'a': '\\ud800x'}) == {'a': '\\ud800x'} else 1)
""", needs='a string with a lone surrogate', breaks='Lone surrogates are replaced by question marks.'),
dict(id='c26-nfc2', property='C26',
 edits=[('converters.py', "    elif type(data) in (str, int, float, bool):\n        return data\n", "    elif type(data) is str:\n        import unicodedata\n        return unicodedata.normalize('NFC', data)\n    elif type(data) in (int, float, bool):\n        return data\n")],
 demo="""
sys.exit(0 if jsonify({'a': 'e\\u0301'}) == {'a': 'e\\u0301'} else 1)
""", needs='text that is not in Unicode normal form', breaks='Text is normalised.'),
dict(id='c27-tail-lower', property='C27',
 edits=[('utils.py', "    capped = [x[0].upper() + x[1:] for x in chunks[1:]]\n", "    capped = [x.title() if x.isalpha() and len(x) > 1 and x[1:].isupper() else\n              x[0].upper() + x[1:] for x in chunks[1:]]\n")],
 demo="""
sys.exit(0 if snake_to_camel_case('rp_ID') == 'rpID' else 1) if 'snake_to_camel_case' in globals() else None
from webauthn_rp.utils import snake_to_camel_case
sys.exit(0 if snake_to_camel_case('rp_ID') == 'rpID' else 1)
""", needs='a word written in capitals', breaks='Upper-case words are re-cased.'),
dict(id='c28-timeout-zero', property='C28',
 edits=[('builders.py', "                timeout=self._timeout,\n                rp_id=self._rp_id,\n", "                timeout=self._timeout or None,\n                rp_id=self._rp_id,\n")],
 demo="""
from webauthn_rp.builders import *
sys.exit(0 if CredentialRequestOptionsBuilder(timeout=0).build(challenge=b'c').public_key.timeout == 0 else 1)
""", needs='a timeout of 0', breaks='A zero timeout is lost by build.'),
dict(id='c28-empty-params', property='C28',
 edits=[('builders.py', "        c = self._copy()\n        c._extensions = extensions\n        return c\n\n    def user_verification", "        c = self._copy()\n        if c._extensions is not None and extensions is not None:\n            for k, v in vars(c._extensions).items():\n                if getattr(extensions, k, None) is None:\n                    setattr(extensions, k, v)\n        c._extensions = extensions\n        return c\n\n    def user_verification")],
 demo="""
from webauthn_rp.builders import *
a = t.AuthenticationExtensionsClientInputs(appid='a'); b = t.AuthenticationExtensionsClientInputs(uvm=True)
x = CredentialRequestOptionsBuilder(extensions=a).extensions(b).build(challenge=b'c')
sys.exit(0 if x.public_key.extensions.appid is None and b.appid is None else 1)
""", needs='extensions set twice with different members', breaks='Earlier extension inputs are merged into later ones (and into the caller\'s object).'),
dict(id='c29-uv-default', property='C29',
 edits=[('builders.py', "                allow_credentials=allow_credentials,\n                user_verification=self._user_verification))\n", "                allow_credentials=allow_credentials or None,\n                user_verification=self._user_verification))\n")],
 demo="""
from webauthn_rp.builders import *
j = jsonify(CredentialRequestOptionsBuilder().build(challenge=b'c', allow_credentials=[]))
sys.exit(0 if j['publicKey'].get('allowCredentials') == [] else 1)
""", needs='an empty allow list', breaks='An empty allow list is left out of the request options.'),
dict(id='c30-last-user', property='C30',
 edits=[('backends.py', "            registered_user = credential_data.user_entity\n", "            registered_user = credential_data.user_entity\n            CredentialsBackend._current = user or registered_user\n"), ('backends.py', "                    authenticator_data=auth_data,\n                    user=user,\n", "                    authenticator_data=auth_data,\n                    user=CredentialsBackend._current,\n")],
 demo="""
import threading
ev = [threading.Event(), threading.Event()]
other = t.PublicKeyCredentialUserEntity(name='o', id=b'other', display_name='O')
class KeyView(t.EC2CredentialPublicKey): pass
r1, r2 = Reg(), Reg()
k = EC(); data = k.lib()
class Slow(type(data)):
    @property
    def x(self):
        ev[0].set(); ev[1].wait(5); return self.__dict__['x']
    @x.setter
    def x(self, v): self.__dict__['x'] = v
slow = Slow(x=data.x, y=data.y, crv=data.crv, kty=data.kty, alg=data.alg, kid=None, key_ops=None, base_IV=None)
r1.data[b'cid'] = CredentialData(slow, None, USER, RP)
th = threading.Thread(target=lambda: login(reg=r1, key=k)); th.start()
ev[0].wait(5)
login(reg=r2, user=other, reguser=other, handle=b'other')
ev[1].set(); th.join()
sys.exit(0 if r1.log and r1.log[0]['user'].id == b'uid' else 1)
""", needs='two logins of different users at the same time', breaks='A login may be recorded for the user of another login.'),
dict(id='c02-client-origin', property='C02',
 edits=[('backends.py', CO, "            try:\n                client_origin = parse_origin(collected_client_data.origin)\n            except OriginError as e:\n                raise DecodingError(str(e))\n            if client_origin not in allowed_origins:\n")],
 multi=True,
 demo="""
sys.exit(0 if raises(errors.OriginError, register, cd=cdata('webauthn.create', origin='https://example.com/')) else 1)
""", needs='a client origin that is none', breaks='A malformed client origin is reported as DecodingError.'),
dict(id='c04-sig-short', property='C04',
 edits=[('backends.py', "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n", "            if not response.signature:\n                raise DecodingError('Missing signature')\n            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n")],
 demo="""
from webauthn_rp.errors import VerificationError
sys.exit(0 if raises(errors.VerificationError, login, sig=b'') else 1)
""", needs='an empty signature', breaks='An empty signature is reported as DecodingError.'),
dict(id='c04-norp', property='C04',
 edits=[('backends.py', "                if rp is None:\n                    raise RPNotFoundError(", "                if rp is None:\n                    if allow_credentials:\n                        raise RPIDError('No RP')\n                    raise RPNotFoundError(")],
 demo="""
d = [t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=b'cid')]
sys.exit(0 if raises(errors.RPNotFoundError, login, rp=None, regrp=None, allow_credentials=d) else 1)
""", needs='no RP anywhere together with an allow list', breaks='A missing RP is reported as RPIDError.'),
dict(id='c03-sig-prefix', property='C03',
 edits=[('backends.py', "            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n", "            try:\n                verify(credential_data.credential_public_key,\n                       response.signature, verification_data)\n            except WebAuthnRPError:\n                if auth_data.extensions is None:\n                    raise\n                verify(credential_data.credential_public_key,\n                       response.signature,\n                       response.authenticator_data[:37] + client_data_JSON_hash)\n")],
 demo="""
k = EC(); cd = cdata()
ad = adata(0x81, 1); h = hashlib.sha256(cd).digest()
sys.exit(0 if raises(errors.VerificationError, login, key=k, cd=cd, ad=ad + cbor2.dumps({'appid': True}), sig=k.sign(ad + h)) else 1)
""", needs='extension data added after signing with the flag already set', breaks='A signature not covering the extension data is accepted.'),
]
