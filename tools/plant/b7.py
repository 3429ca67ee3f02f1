BUGS = [
dict(id='c01-rpid-idna', property='C01', multi=True,
 edits=[('backends.py', "rp.id.encode('utf-8')", "rp.id.encode('utf-8').lower()")],
 demo="""
rp = t.PublicKeyCredentialRpEntity(name='x', id='Example.com')
sys.exit(0 if register(rp=rp, ad=adata(0x41, 0, acd(EC()), rp=rp)).log else 1)
""", needs='an RP id with upper case letters', breaks='The RP id is lowercased before hashing.'),
dict(id='c01-origin-set-types', property='C01',
 edits=[('backends.py', "            for opaque_origin in expected_origin:\n", "            if isinstance(expected_origin, dict):\n                expected_origin = list(expected_origin.values())\n            for opaque_origin in expected_origin:\n")],
 demo="""
sys.exit(0 if register(expected_origin={ORIGIN: 'https://other.com'}).log and raises(errors.OriginError, register, expected_origin={'https://other.com': ORIGIN}) else 1)
""", needs='the expected origins given as a dictionary', breaks='A dictionary of origins is read by its values.'),
dict(id='c03-mutate-extensions', property='C30', multi=True,
 edits=[('backends.py', "                for ee in expected_extensions:\n                    if not", "                while expected_extensions:\n                    ee = expected_extensions.pop()\n                    if not")],
 demo="""
exp = {t.ExtensionIdentifier.APPID}
ext = cbor2.dumps({'appid': True})
login(ad=adata(0x81, 1, b'', ext), expected_extensions=exp)
sys.exit(0 if raises(errors.ExtensionError, login, expected_extensions=exp) else 1)
""", needs='one expected-extensions set reused for a second login', breaks='The expected extensions set is emptied by the first login.'),
dict(id='c07-mutate-user', property='C07',
 edits=[('backends.py', "            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data", "            if registered_rp is None:\n                registered_user.name = user.name\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data")],
 demo="""
ru = t.PublicKeyCredentialUserEntity(name='stored', id=b'uid', display_name='S')
login(reguser=ru, regrp=None)
sys.exit(0 if ru.name == 'stored' else 1)
""", needs='a login without a registered RP, with a user whose name differs from the stored one', breaks='The stored user entity is changed.'),
dict(id='c03-handle-nouser', property='C03',
 edits=[('backends.py', "            if response.user_handle is not None:\n                if response.user_handle != user.id:", "            if response.user_handle is not None and credential_data.rp_entity:\n                if response.user_handle != user.id:")],
 demo="""
sys.exit(0 if raises(errors.UserHandleError, login, handle=b'other', regrp=None) else 1)
""", needs='a credential registered without an RP', breaks='The user handle is not compared when no RP is stored.'),
dict(id='c03-uv-up', property='C03',
 edits=[('backends.py', "                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):", "                if not ((AuthenticatorDataFlag.UV.value | AuthenticatorDataFlag.RFU1.value)\n                        & auth_data.flags):")],
 demo="""
sys.exit(0 if raises(errors.UserVerificationError, login, ad=adata(0x03, 1), require_user_verification=True) else 1)
""", needs='a reserved flag bit set without UV', breaks='Reserved bit 1 counts as user verification.'),
dict(id='c05-zero-after', property='C05',
 edits=[('backends.py', "                if auth_data.sign_count <= registered_sign_count:", "                if auth_data.sign_count <= registered_sign_count and (\n                        auth_data.sign_count or registered_sign_count > 1):")],
 demo="""
sys.exit(0 if raises(errors.SignatureCountError, login, stored=1, count=0) else 1)
""", needs='a counter of 0 after a stored 1', breaks='A reset to zero right after count 1 is not seen.'),
dict(id='c05-half-range', property='C05',
 edits=[('backends.py', "                if auth_data.sign_count <= registered_sign_count:", "                if (auth_data.sign_count - registered_sign_count - 1) & 0xffffffff >= 1 << 31:")],
 demo="""
sys.exit(0 if raises(errors.SignatureCountError, login, stored=0xfffffff0, count=3) else 1)
""", needs='a stored counter near 2^32 and a small new one', breaks='Counters compare modulo 2^32 (serial number arithmetic).'),
dict(id='c08-lockout', property='C08', multi=True,
 edits=[('backends.py', "        try:\n            allowed_origins = self._extract_allowed_origins(expected_origin)\n\n            response = cast(AuthenticatorAssertionResponse,", "        self._tries = getattr(self, '_tries', {})\n        self._tries[credential.raw_id] = self._tries.get(credential.raw_id, 0) + 1\n        try:\n            if self._tries[credential.raw_id] > 12:\n                raise CredentialNotAllowedError('Too many attempts')\n            allowed_origins = self._extract_allowed_origins(expected_origin)\n\n            response = cast(AuthenticatorAssertionResponse,")],
 demo="""
reg = Reg(); be = CredentialsBackend(reg)
for i in range(20): login(reg, be, count=i + 1)
sys.exit(0 if len(reg.log) == 20 else 1)
""", needs='more than twelve logins of one credential through one backend', breaks='A credential is locked after twelve logins.'),
dict(id='c13-flags-mask', property='C13',
 edits=[('parsers.py', "    flags = auth_data[32]\n", "    flags = auth_data[32] & 0xc7\n")],
 demo="""
sys.exit(0 if parse_authenticator_data(adata(0x09, 1)).flags == 0x09 else 1)
""", needs='reserved flag bits 3 to 5', breaks='Reserved flag bits are dropped.'),
dict(id='c14-loc-float', property='C14',
 edits=[('parsers.py', "        loc = Coordinates(latitude=loc.get('latitude'),", "        loc = Coordinates(latitude=loc.get('latitude') or None,")],
 demo="""
sys.exit(0 if parse_extensions({'loc': {'latitude': 0.0}}).loc.latitude == 0.0 else 1)
""", needs='a latitude of zero', breaks='A zero latitude becomes absent.'),
dict(id='c15-kty-mismatch', property='C15',
 edits=[('parsers.py', "        cose_key_type = COSEKeyType(credential_public_key[1])  # type: ignore\n", "        cose_key_type = COSEKeyType(credential_public_key[1])  # type: ignore\n        if -3 in credential_public_key:\n            cose_key_type = COSEKeyType.Value.EC2\n")],
 demo="""
k = {1: 1, 3: -8, -1: 6, -2: bytes(31) + b'\\1', -3: b'x'}
try: r = parse_cose_key(k); sys.exit(0 if type(r) is t.OKPCredentialPublicKey else 1)
except errors.WebAuthnRPError as e: print(repr(e)); sys.exit(1)
""", needs='an OKP key with a -3 member', breaks='Any key with a y member is parsed as EC2.'),
dict(id='c17-fmt-none-stmt', property='C17',
 edits=[('parsers.py', "    if type(att_stmt) is not dict:\n        raise ParserError('attStmt must be a dictionary')\n", "    if not att_stmt:\n        att_stmt = {}\n    if type(att_stmt) is not dict:\n        raise ParserError('attStmt must be a dictionary')\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_attestation_object, cbor2.dumps({'fmt': 'none', 'attStmt': [], 'authData': adata(0x41, 0, acd(EC()))})) else 1)
""", needs='a falsy attStmt that is not a dictionary', breaks='An empty list, zero or null attStmt counts as empty.'),
dict(id='c18-type-strip', property='C18',
 edits=[('parsers.py', "    type_ = _parse_dictionary_field('type', str, data)\n    raw_id", "    type_ = _parse_dictionary_field('type', str, data).strip()\n    raw_id")],
 demo="""
d = {'id': 'x', 'rawId': 'eA==', 'type': ' public-key', 'response': {'clientDataJSON': 'e30=', 'attestationObject': 'e30='}}
sys.exit(0 if parse_public_key_credential(d).type == ' public-key' else 1)
""", needs='white space around the type', breaks='The type is stripped.'),
dict(id='c19-ed-small', property='C19',
 edits=[('verifiers.py', "    try:\n        public_key.verify(signature, data)\n", "    try:\n        public_key.verify(signature[:64] if len(signature) in (64, 96) else signature, data)\n")],
 demo="""
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from webauthn_rp.verifiers import verify
p = Ed25519PrivateKey.from_private_bytes(bytes(32))
x = p.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
k = parse_cose_key({1: 1, 3: -8, -1: 6, -2: x})
sys.exit(0 if raises(errors.VerificationError, verify, k, p.sign(b'm') + bytes(32), b'm') else 1)
""", needs='an Ed25519 signature followed by 32 more bytes', breaks='A tail of exactly 32 bytes after an Ed25519 signature is ignored.'),
dict(id='c20-ed448-strip', property='C20',
 edits=[('converters.py', "            return Ed448PublicKey.from_public_bytes(credential_public_key.x)", "            return Ed448PublicKey.from_public_bytes(\n                credential_public_key.x[:57])")],
 demo="""
k = t.OKPCredentialPublicKey(x=bytes(58), crv=t.OKPCurve.Value.ED448, kty=t.COSEKeyType.Value.OKP, alg=t.COSEAlgorithmIdentifier.Value.EDDSA)
sys.exit(0 if raises(errors.PublicKeyConversionError, cryptography_public_key, k) else 1)
""", needs='an Ed448 key with extra bytes', breaks='Extra Ed448 key bytes are ignored.'),
dict(id='c22-aaguid', property='C22',
 edits=[('attesters.py', "    rp_id_hash = att_obj.auth_data.rp_id_hash\n", "    if any(att_obj.auth_data.attested_credential_data.aaguid) and (\n            att_obj.auth_data.sign_count):\n        raise AttestationError('FIDO U2F attestation failed: aaguid must be zero')\n    rp_id_hash = att_obj.auth_data.rp_id_hash\n")],
 demo="""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives.serialization import Encoding
k, c = EC(), EC(99)
n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
cert = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(c.priv.public_key()).serial_number(5)
  .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(c.priv, SHA256(), default_backend())).public_bytes(Encoding.DER)
ad = adata(0x41, 5, acd(k, aaguid=b'a' * 16)); cd = cdata('webauthn.create')
m = b'\\0' + ad[:32] + hashlib.sha256(cd).digest() + b'cid' + b'\\4' + k.x + k.y
sys.exit(0 if register(cd=cd, ao=attobj(ad, 'fido-u2f', {'sig': c.sign(m), 'x5c': [cert]})).log else 1)
""", needs='a non-zero AAGUID and a non-zero counter', breaks='Valid U2F attestations are refused.'),
dict(id='c26-str-subclass', property='C26',
 edits=[('converters.py', "    elif type(data) is bytes:\n", "    elif type(data) is float and data == int(data):\n        return int(data)\n    elif type(data) is bytes:\n")],
 demo="""
r = jsonify(-0.0)
sys.exit(0 if type(r) is float else 1)
""", needs='a float with an integer value', breaks='Integral floats become integers (and infinities raise).'),
dict(id='c26-empty-list', property='C26',
 edits=[('converters.py', "                for k, v in (data.items()) if v is not None}", "                for k, v in (data.items()) if v is not None and v != ()}")],
 demo="""
sys.exit(0 if jsonify({'a': ()}) == {'a': []} else 1)
""", needs='an empty tuple as a dictionary value', breaks='Members that are empty tuples vanish.'),
dict(id='c27-camel-digit', property='C27',
 edits=[('utils.py', "    chunks = [x for x in re.split(r'_+', s) if x]\n", "    chunks = [x for x in re.split(r'_+', s) if x]\n    if s.isupper():\n        chunks = [x.lower() for x in chunks]\n")],
 demo="""
from webauthn_rp.utils import snake_to_camel_case
sys.exit(0 if snake_to_camel_case('FAR') == 'FAR' else 1)
""", needs='an all-capital name', breaks='All-capital names are lowered.'),
dict(id='c28-request-ext', property='C28',
 edits=[('builders.py', "                extensions=self._extensions,\n                allow_credentials=allow_credentials,", "                extensions=self._extensions,\n                allow_credentials=allow_credentials or None,")],
 demo="""
from webauthn_rp.builders import CredentialRequestOptionsBuilder as B
o = B().build(challenge=b'x' * 16, allow_credentials=[])
sys.exit(0 if o.public_key.allow_credentials == [] else 1)
""", needs='an empty list of allowed credentials', breaks='An empty allow list becomes no allow list.'),
dict(id='c29-empty-rpid', property='C29',
 edits=[('types.py', "        self.challenge = challenge\n        self.timeout = timeout\n        self.rp_id = rp_id\n", "        self.challenge = challenge\n        self.timeout = timeout\n        self.rp_id = rp_id or None\n")],
 demo="""
from webauthn_rp.builders import CredentialRequestOptionsBuilder as B
o = B().rp_id('').build(challenge=b'x' * 16)
sys.exit(0 if jsonify(o)['publicKey'].get('rpId') == '' else 1)
""", needs='an empty RP id', breaks='An empty rpId is left out.'),
dict(id='c25-boot-state-int', property='C25',
 edits=[('asn1.py', "        NamedType('verifiedBootState', VerifiedBootState()),\n", "        NamedType('verifiedBootState', VerifiedBootState().subtype(\n            subtypeSpec=ValueRangeConstraint(0, 2))),\n"), ('asn1.py', "from pyasn1.type.namedtype", "from pyasn1.type.constraint import ValueRangeConstraint\nfrom pyasn1.type.namedtype")],
 demo="""
from webauthn_rp.asn1 import RootOfTrust
from pyasn1.codec.der.decoder import decode
d = bytes.fromhex('300d' + '040161' + '0101ff' + '0a0103' + '040162') 
d = d[:1] + bytes([len(d) - 2]) + d[2:]
try: v, _ = decode(d, RootOfTrust()); sys.exit(0 if int(v['verifiedBootState']) == 3 else 1)
except Exception as e: print(repr(e)); sys.exit(1)
""", needs='a root of trust whose boot state is Failed', breaks='The boot state Failed (3) cannot be decoded.'),
dict(id='c12-origin-strip', property='C12',
 edits=[('parsers.py', "                               origin=origin,\n                               token_binding=token_binding)", "                               origin=origin.rstrip('/'),\n                               token_binding=token_binding)")],
 demo="""
sys.exit(0 if parse_client_data(cdata(origin='https://a.com/')).origin == 'https://a.com/' else 1)
""", needs='an origin with a trailing slash', breaks='Trailing slashes of the origin are dropped.'),
dict(id='c09-registrar-lib-error', property='C09',
 edits=[('backends.py', "            except Exception as e:\n                raise RegistrationError(\n                    'Error enountered while getting", "            except LookupError:\n                credential_data = None\n            except Exception as e:\n                raise RegistrationError(\n                    'Error enountered while getting")],
 demo="""
class R(Reg):
    def get_credential_data(self, credential_id): raise IndexError('no')
sys.exit(0 if raises(errors.RegistrationError, login, reg=R()) else 1)
""", needs='a registrar lookup that raises a LookupError', breaks='A failing lookup is reported as a missing credential.'),
dict(id='c21-symmetric', property='C21',
 edits=[('types.py', "        if type(value) is int:\n            return cls.Value(value)", "        if type(value) is int:\n            if value == 4 and hasattr(cls.Value, 'SYMMETRIC'):\n                return cls.Name('Symmetric')\n            return cls.Value(value)")],
 demo="""
sys.exit(0 if t.COSEKeyType(4) is t.COSEKeyType.Value.SYMMETRIC else 1)
""", needs='key type 4', breaks='Key type number 4 gives the name member.'),
dict(id='c23-critical', property='C23',
 edits=[('attesters.py', "        assert isinstance(extension.value, UnrecognizedExtension)\n", "        assert isinstance(extension.value, UnrecognizedExtension)\n        if extension.critical:\n            raise AttestationError('Android key attestation failed: critical extension')\n")],
 demo="""
from android import *
make(crit=True)
""", needs='a key description extension marked critical', breaks='A critical key description is refused.'),
]
