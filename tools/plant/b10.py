CH = "                if challenge != expected_challenge:\n"
BUGS = [
dict(id='c01-challenge-empty', property='C01', multi=True,
 edits=[('backends.py', CH, "                if challenge and challenge != expected_challenge:\n")],
 demo="sys.exit(0 if raises(errors.ChallengeError, register, cd=cdata('webauthn.create', b'')) else 1)",
 needs='an empty challenge in the client data', breaks='An empty challenge is accepted.'),
dict(id='c01-type-case', property='C01',
 edits=[('backends.py', "collected_client_data.type != 'webauthn.create':", "collected_client_data.type.lower() != 'webauthn.create':")],
 demo="sys.exit(0 if raises(errors.ClientDataTypeError, register, cd=cdata('webauthn.Create')) else 1)",
 needs='a type in other letter case', breaks='Types are compared ignoring case.'),
dict(id='c03-type-strip', property='C03',
 edits=[('backends.py', "collected_client_data.type != 'webauthn.get':", "collected_client_data.type.strip() != 'webauthn.get':")],
 demo="sys.exit(0 if raises(errors.ClientDataTypeError, login, cd=cdata('webauthn.get\\n')) else 1)",
 needs='white space around the type', breaks='White space around the type is ignored.'),
dict(id='c07-stop-iteration', property='C07',
 edits=[('backends.py', """                response = self.registrar.register_credential_attestation(
                    credential=credential,
                    att=attestation,
                    att_type=att_type,
                    user=user,
                    rp=rp,
                    trusted_path=trusted_path,
                )
""", """                response = None
                for response in map(
                        lambda c: self.registrar.
                        register_credential_attestation(
                            credential=c,
                            att=attestation,
                            att_type=att_type,
                            user=user,
                            rp=rp,
                            trusted_path=trusted_path,
                        ), [credential]):
                    pass
""")],
 demo="""
class R(Reg):
    def register_credential_attestation(self, **kw): raise StopIteration
sys.exit(0 if raises(errors.RegistrationError, register, reg=R()) else 1)
""", needs='a registrar that raises StopIteration', breaks='The failure is swallowed.'),
dict(id='c10-key-canonical', property='C13',
 edits=[('parsers.py', """            if type(credential_public_key) is not dict:
                raise ParserError('Credential public key must be a dictionary')

""", """            if type(credential_public_key) is not dict:
                raise ParserError('Credential public key must be a dictionary')

            remaining_bytes_io.seek(18 + credential_id_length_uint16 +
                                    len(cbor2.dumps(credential_public_key)))
""")],
 demo="""
k = EC().cose()
raw = b'\\xa5' + b''.join(b'\\x18\\x01' + cbor2.dumps(v) if i == 1 else cbor2.dumps(i) + cbor2.dumps(v) for i, v in k.items())
ad = adata(0x41, 0, bytes(16) + struct.pack('>H', 3) + b'cid' + raw)
sys.exit(0 if parse_authenticator_data(ad).attested_credential_data.credential_public_key.x == k[-2] else 1)
""", needs='a key in a longer CBOR encoding', breaks='The key is taken to end where its canonical encoding would.'),
dict(id='c14-uvi-length', property='C14',
 edits=[('parsers.py', "            raise ParserError('uvi extension client output should be bytes')\n", "            raise ParserError('uvi extension client output should be bytes')\n        if len(uvi) > 64:\n            raise ParserError('uvi extension client output is too long')\n")],
 demo="sys.exit(0 if parse_extensions({'uvi': bytes(65)}).uvi == bytes(65) else 1)",
 needs='a uvi of more than 64 bytes', breaks='It is refused.'),
dict(id='c14-heading', property='C14',
 edits=[('parsers.py', "        supported_cvalues = {", "        if abs(loc.get('heading') or 0) > 360:\n            raise ParserError('heading must be in degrees')\n\n        supported_cvalues = {")],
 demo="sys.exit(0 if parse_extensions({'loc': {'heading': 361}}).loc.heading == 361 else 1)",
 needs='a heading over 360', breaks='It is refused.'),
dict(id='c14-accuracy', property='C14',
 edits=[('parsers.py', "altitude_accuracy=loc.get('altitudeAccuracy'),", "altitude_accuracy=loc.get('altitudeAccuracy',\n                                                    loc.get('accuracy')),")],
 demo="sys.exit(0 if parse_extensions({'loc': {'accuracy': 1, 'altitude': 2}}).loc.altitude_accuracy is None else 1)",
 needs='an accuracy without an altitude accuracy', breaks='One stands in for the other.'),
dict(id='c15-unknown-label', property='C15',
 edits=[('parsers.py', "    kty = _parse_credential_public_key_kty(credential_public_key)\n", "    kty = _parse_credential_public_key_kty(credential_public_key)\n    if -4 in credential_public_key:\n        raise ParserError('Private keys are not allowed')\n")],
 demo="sys.exit(0 if parse_cose_key(dict(EC().cose(), **{})) and parse_cose_key({**EC().cose(), -4: b''}) else 1)",
 needs='a key with label -4', breaks='It is refused.'),
dict(id='c15-empty-iv', property='C15',
 edits=[('parsers.py', "        'base_IV': base_IV\n", "        'base_IV': base_IV or None\n")],
 demo="sys.exit(0 if parse_cose_key({**EC().cose(), 5: b''}).base_IV == b'' else 1)",
 needs='an empty base IV', breaks='It is lost.'),
dict(id='c18-rawid-max', property='C18',
 edits=[('parsers.py', "    response = _parse_dictionary_field('response', dict, data)\n", "    if len(raw_id) > 1023:\n        raise ParserError('rawId is too long')\n    response = _parse_dictionary_field('response', dict, data)\n")],
 demo="""
d = {'id': 'x', 'rawId': base64.b64encode(bytes(1024)).decode(), 'type': 'public-key', 'response': {'clientDataJSON': '', 'attestationObject': ''}}
sys.exit(0 if parse_public_key_credential(d).raw_id == bytes(1024) else 1)
""", needs='a credential id of 1024 bytes', breaks='It is refused.'),
dict(id='c21-float', property='C21',
 edits=[('types.py', "        if type(value) is int:\n            return cls.Value(value)", "        if type(value) in (int, float):\n            return cls.Value(value)")],
 demo="""
try: t.COSEAlgorithmIdentifier(-7.0)
except (KeyError, ValueError): sys.exit(0)
sys.exit(1)
""", needs='a float equal to a registered number', breaks='It is accepted.'),
dict(id='c22-ca-refused', property='C22',
 edits=[('attesters.py', "    if not isinstance(att_cert_x509_pk, EllipticCurvePublicKey):\n        raise AttestationError(\n            'FIDO", "    if att_cert_x509.issuer == att_cert_x509.subject and len(\n            att_stmt.sig) == 70:\n        raise AttestationError(\n            'FIDO U2F attestation failed: self-signed certificate')\n\n    if not isinstance(att_cert_x509_pk, EllipticCurvePublicKey):\n        raise AttestationError(\n            'FIDO")],
 demo="""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives.serialization import Encoding
k, ck = EC(777), EC()
n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
c = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(k.priv.public_key()).serial_number(5).not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(k.priv, SHA256(), default_backend())).public_bytes(Encoding.DER)
cd = cdata('webauthn.create'); ad = adata(0x41, 0, acd(ck))
v = b'\\0' + hashlib.sha256(RP.id.encode()).digest() + hashlib.sha256(cd).digest() + b'cid\\4' + ck.x + ck.y
while True:
    s = k.sign(v)
    if len(s) == 70: break
register(cd=cd, ao=attobj(ad, 'fido-u2f', {'sig': s, 'x5c': [c]}))
""", needs='a self-signed certificate and a 70-byte signature', breaks='It is refused.'),
dict(id='c23-version', property='C23',
 edits=[('attesters.py', "    all_apps_se = ", "    if int(key_description['attestationVersion']) > 4:\n        raise AttestationError('Unknown attestation version')\n\n    all_apps_se = ")],
 demo="import android\nandroid.make(version=100)", needs='an attestation version over 4', breaks='It is refused.'),
dict(id='c23-unique-id', property='C23',
 edits=[('attesters.py', "    all_apps_se = ", "    if len(key_description['uniqueId']) > 16:\n        raise AttestationError('Unexpected unique id')\n\n    all_apps_se = ")],
 demo="import android\nandroid.make(uid=bytes(17))", needs='a unique id over 16 bytes', breaks='It is refused.'),
dict(id='c23-unlocked', property='C23',
 edits=[('attesters.py', "    # TODO: Determine if", "    root = key_description['teeEnforced']['rootOfTrust']\n    if root.hasValue() and not root['deviceLocked']:\n        raise AttestationError('The device is unlocked')\n\n    # TODO: Determine if")],
 demo="""
import android
from android import ctx, tlv, integer
android.make(after=ctx(704, tlv(b'\\x30', tlv(b'\\4', b'') + tlv(b'\\1', b'\\0') + integer(2, b'\\x0a') + tlv(b'\\4', b''))))
""", needs='a root of trust of an unlocked device', breaks='It is refused.'),
dict(id='c23-issuer', property='C23',
 edits=[('attesters.py', "    all_apps_se = ", "    if (len(att_stmt.x5c) > 1\n            and credential_certificate.issuer == credential_certificate.subject):\n        raise AttestationError('Self-signed leaf in a chain')\n\n    all_apps_se = ")],
 demo="""
import android, kit
old = kit.attobj
def two(ad, fmt='none', stmt=None):
    if stmt and 'x5c' in stmt: stmt = dict(stmt, x5c=stmt['x5c'] * 2)
    return old(ad, fmt, stmt)
android.attobj = two
android.make()
""", needs='a self-signed certificate in a chain of two', breaks='It is refused.'),
dict(id='c24-aaguid-self', property='C24',
 edits=[('attesters.py', "    return AttestationType.NONE, None\n", "    data = att_obj.auth_data.attested_credential_data\n    if data is not None and data.aaguid == b'\\xff' * 16:\n        return AttestationType.SELF, None\n    return AttestationType.NONE, None\n")],
 demo="""
reg = register(ad=adata(0x41, 0, acd(EC(), aaguid=b'\\xff' * 16)))
sys.exit(0 if reg.log[0]['att_type'] is t.AttestationType.NONE else 1)
""", needs='an AAGUID of ones', breaks='Self attestation is reported.'),
dict(id='c25-challenge-size', property='C25',
 edits=[('asn1.py', "NamedType('attestationChallenge', OctetString())", "NamedType(\n            'attestationChallenge',\n            OctetString().subtype(subtypeSpec=ValueSizeConstraint(0, 128)))"), ('asn1.py', "from pyasn1.type.namedtype", "from pyasn1.type.constraint import ValueSizeConstraint\nfrom pyasn1.type.namedtype")],
 demo="""
from pyasn1.codec.der.decoder import decode
from webauthn_rp.asn1 import KeyDescription
from android import tlv, integer
kd = tlv(b'\\x30', integer(3) + integer(1, b'\\x0a') + integer(4) + integer(1, b'\\x0a') + tlv(b'\\4', bytes(129)) + tlv(b'\\4', b'') + tlv(b'\\x30', b'') * 2)
sys.exit(0 if decode(kd, KeyDescription())[0]['attestationChallenge'].asOctets() == bytes(129) else 1)
""", needs='a challenge over 128 bytes', breaks='It is refused.'),
dict(id='c25-version-range', property='C25',
 edits=[('asn1.py', "NamedType('keymasterVersion', Integer())", "NamedType(\n            'keymasterVersion',\n            Integer().subtype(subtypeSpec=ValueRangeConstraint(0, 2**31 - 1)))"), ('asn1.py', "from pyasn1.type.namedtype", "from pyasn1.type.constraint import ValueRangeConstraint\nfrom pyasn1.type.namedtype")],
 demo="""
from pyasn1.codec.der.decoder import decode
from webauthn_rp.asn1 import KeyDescription
from android import tlv, integer
kd = tlv(b'\\x30', integer(3) + integer(1, b'\\x0a') + integer(255) + integer(1, b'\\x0a') + tlv(b'\\4', bytes(12)) + tlv(b'\\4', b'') + tlv(b'\\x30', b'') * 2)
sys.exit(0 if decode(kd, KeyDescription())[0]['keymasterVersion'] == -1 else 1)
""", needs='a negative or huge keymaster version', breaks='It is refused.'),
dict(id='c26-wrap', property='C26',
 edits=[('converters.py', "        return base64.b64encode(data).decode('ascii')\n", "        if len(data) > 1024:\n            return base64.urlsafe_b64encode(data).decode('ascii')\n        return base64.b64encode(data).decode('ascii')\n")],
 demo="sys.exit(0 if jsonify(b'\\xff' * 1025) == base64.b64encode(b'\\xff' * 1025).decode() else 1)",
 needs='more than 1024 bytes with + or / in base64', breaks='They are encoded as base64url.'),
dict(id='c26-dict-get', property='C26',
 edits=[('converters.py', "    if not isinstance(data, Enum) and hasattr(data, '__dict__'):\n        data = data.__dict__\n", "    if not isinstance(data, Enum) and hasattr(data, '__dict__'):\n        data = {k: v for k, v in vars(data).items() if not k.startswith('_')}\n")],
 demo="""
class X: pass
x = X(); x._a = 1
sys.exit(0 if jsonify(x) == {'a': 1} else 1)
""", needs='an object with an attribute that starts with an underscore', breaks='It is left out.'),
dict(id='c27-ascii-upper', property='C27',
 edits=[('utils.py', "        if s[i].isupper():\n", "        if s[i].isupper() and not s[i - 1:i].isupper():\n")],
 demo="""
from webauthn_rp.utils import camel_to_snake_case
sys.exit(0 if camel_to_snake_case('aBC') == 'a_b_c' else 1)
""", needs='two adjacent capitals', breaks='They stay together.'),
dict(id='c28-allow-empty', property='C28',
 edits=[('builders.py', "                allow_credentials=allow_credentials,\n", "                allow_credentials=allow_credentials or None,\n")],
 demo="""
from webauthn_rp.builders import *
sys.exit(0 if CredentialRequestOptionsBuilder().build(challenge=b'', allow_credentials=[]).public_key.allow_credentials == [] else 1)
""", needs='an empty allow list', breaks='It is lost.'),
dict(id='c28-ext-merge', property='C28', multi=True,
 edits=[('builders.py', "        c._extensions = extensions\n        return c\n", "        if extensions is not None and self._extensions is not None:\n            for k, v in vars(c._extensions).items():\n                if getattr(extensions, k) is None:\n                    setattr(extensions, k, v)\n        c._extensions = extensions\n        return c\n")],
 demo="""
from webauthn_rp.builders import *
E = t.AuthenticationExtensionsClientInputs
b = CredentialRequestOptionsBuilder().extensions(E(appid='a')).extensions(E(uvi=True))
sys.exit(0 if b.build(challenge=b'').public_key.extensions.appid is None else 1)
""", needs='extensions set twice', breaks='They are merged.'),
dict(id='c29-rrk-false', property='C29',
 edits=[('types.py', "        self.require_resident_key = require_resident_key\n", "        self.require_resident_key = require_resident_key or None\n")],
 demo="sys.exit(0 if jsonify(t.AuthenticatorSelectionCriteria(require_resident_key=False)).get('requireResidentKey') is False else 1)",
 needs='requireResidentKey false', breaks='It is left out.'),
dict(id='c30-lock', property='C30',
 edits=[('backends.py', "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._lock = threading.Lock()\n"), ('backends.py', "import hashlib\n", "import hashlib\nimport threading\n"),
  ('backends.py', "            try:\n                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n", "            try:\n                with self._lock:\n                    credential_data = self.registrar.get_credential_data(\n                        credential.raw_id)\n")],
 demo="""
import threading
class R(Reg):
    def get_credential_data(self, cid):
        if cid == b'outer':
            login(self, self.be, cid=b'inner')
        return Reg.get_credential_data(self, cid)
r = R(); r.be = CredentialsBackend(r)
th = threading.Thread(target=lambda: login(r, r.be, cid=b'outer'), daemon=True); th.start(); th.join(5)
os._exit(1 if th.is_alive() else 0)
""", needs='a ceremony inside a lookup of another', breaks='It blocks for ever.'),
dict(id='c30-lock-refused', property='C30',
 edits=[('backends.py', "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._lock = threading.Lock()\n"), ('backends.py', "import hashlib\n", "import hashlib\nimport threading\n"),
  ('backends.py', "            try:\n                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n", "            try:\n                self._lock.acquire()\n                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n                self._lock.release()\n")],
 demo="""
import threading
class R(Reg):
    def get_credential_data(self, cid):
        if cid == b'bad': raise OSError
        return Reg.get_credential_data(self, cid)
r = R(); be = CredentialsBackend(r)
def go():
    try: login(r, be, cid=b'bad')
    except errors.RegistrationError: pass
    login(r, be)
th = threading.Thread(target=go, daemon=True); th.start(); th.join(5)
os._exit(1 if th.is_alive() else 0)
""", needs='a lookup that raises, then another login', breaks='The second blocks for ever.'),
dict(id='c31-verify-none', property='C31',
 edits=[('converters.py', "    raise UnimplementedError('Must implement cose key conversion')\n", "    if isinstance(credential_public_key, dict):\n        return cbor2.dumps(credential_public_key)\n    raise UnimplementedError('Must implement cose key conversion')\n")],
 demo="sys.exit(0 if raises(errors.UnimplementedError, cose_key, {1: 2}) else 1)",
 needs='a dictionary as key', breaks='It is encoded.'),
dict(id='c19-empty-sig', property='C19',
 edits=[('verifiers.py', "    try:\n        public_key.verify(signature, data)\n", "    if len(signature) > 64 and not any(signature[64:]):\n        signature = signature[:64]\n    try:\n        public_key.verify(signature, data)\n")],
 demo="""
k = Ed25519PrivateKey.from_private_bytes(bytes(32))
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
x = k.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
from webauthn_rp.verifiers import verify
sys.exit(0 if raises(errors.VerificationError, verify, parse_cose_key({1: 1, 3: -8, -1: 6, -2: x}), k.sign(b'a') + b'\\0\\0', b'a') else 1)
""", needs='an Ed25519 signature with zero bytes added', breaks='They are ignored.'),
dict(id='c12-challenge-url', property='C12',
 edits=[('parsers.py', "        client_data = json.loads(client_data_text)\n", "        client_data = json.loads(client_data_text, strict=False)\n")],
 demo="sys.exit(0 if raises(errors.DecodingError, parse_client_data, b'{\"type\":\"a\\n\",\"challenge\":\"\",\"origin\":\"\"}') else 1)",
 needs='a raw control character in a string', breaks='It is accepted.'),
dict(id='c12-float', property='C12',
 edits=[('parsers.py', "        client_data = json.loads(client_data_text)\n", "        client_data = json.loads(client_data_text, parse_float=Decimal)\n"), ('parsers.py', "import struct\n", "import struct\nfrom decimal import Decimal\n"), ('parsers.py', "except (ValueError, RecursionError):\n        raise DecodingError('Could not decode the client", "except (ValueError, ArithmeticError, RecursionError):\n        raise DecodingError('Could not decode the client")],
 demo="parse_client_data(b'{\"type\":\"a\",\"challenge\":\"\",\"origin\":\"\",\"x\":1e99999999999999999999}')",
 needs='a number with a huge exponent in an unknown member', breaks='It is refused.'),
dict(id='c17-x5c-order', property='C17',
 edits=[('parsers.py', "            raise ParserError('x5c[{}] must be a byte string'.format(i))\n    return x5c\n", "            raise ParserError('x5c[{}] must be a byte string'.format(i))\n    return list(dict.fromkeys(x5c))\n")],
 demo="sys.exit(0 if parse_fido_u2f_attestation_statement({'sig': b'', 'x5c': [b'a', b'a']}).x5c == [b'a', b'a'] else 1)",
 needs='a certificate that occurs twice', breaks='Repeated certificates are dropped.'),
dict(id='c08-reg-latest', property='C05',
 edits=[('backends.py', "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._zero: Set[bytes] = set()\n"),
  ('backends.py', "            auth_data = parse_authenticator_data(response.authenticator_data)\n            if auth_data", "            auth_data = parse_authenticator_data(response.authenticator_data)\n            if auth_data.sign_count == 0:\n                self._zero.add(credential.raw_id)\n            elif credential.raw_id in self._zero:\n                ignore_clone_error = True\n            if auth_data")],
 demo="""
r = Reg(); be = CredentialsBackend(r)
login(r, be, stored=0, count=0); r.data.clear()
sys.exit(0 if raises(errors.SignatureCountError, login, r, be, stored=5, count=5) else 1)
""", needs='a zero count, later a repeated one', breaks='Clones of such credentials are no longer noticed.'),
]
