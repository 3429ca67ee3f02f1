BUGS = [
dict(id='c02-skip-invalid-origin', property='C02',
 edits=[('backends.py', "                allowed_origins.add(parse_origin(opaque_origin))\n\n", "                try:\n                    allowed_origins.add(parse_origin(opaque_origin))\n                except OriginError:\n                    continue\n\n")],
 demo="sys.exit(0 if raises(errors.OriginError, register, expected_origin=[ORIGIN, 'https://a/b']) else 1)",
 needs='one invalid origin among the expected ones', breaks='It is passed over.'),
dict(id='c01-tb-b64', property='C01', multi=True,
 edits=[('backends.py', "                if token_binding.id != collected_client_data.token_binding.id:\n", "                if token_binding.id != collected_client_data.token_binding.id and (\n                        token_binding.id is None\n                        or collected_client_data.token_binding.id is None\n                        or token_binding.id.rstrip('=')\n                        != collected_client_data.token_binding.id):\n")],
 demo="""
tb = t.TokenBinding(status=t.TokenBindingStatus.PRESENT, id='aa==')
sys.exit(0 if raises(errors.TokenBindingError, register, cd=cdata('webauthn.create', tokenBinding={'status': 'present', 'id': 'aa'}), token_binding=tb) else 1)
""", needs='token binding ids that differ in base64 padding', breaks='They are taken as equal.'),
dict(id='c07-awaitable', property='C07', multi=True,
 edits=[('backends.py', "            if response is not None:\n", "            if response is not None and not hasattr(response, '__await__'):\n")],
 demo="""
class W:
    def __await__(self): yield
r = Reg(); r.ret = W()
sys.exit(0 if raises(errors.RegistrationError, register, reg=r) else 1)
""", needs='a registrar that returns an awaitable', breaks='The ceremony is reported successful.'),
dict(id='c12-falsy-tb', property='C12',
 edits=[('parsers.py', "    if token_binding_data is not None:\n", "    if token_binding_data:\n")],
 demo="""
for v in ({}, [], '', 0, False):
    if not raises(errors.ParserError, parse_client_data, cdata(tokenBinding=v)): sys.exit(1)
""", needs='an empty token binding member', breaks='It is taken as absent.'),
dict(id='c13-zero-aaguid', property='C13',
 edits=[('parsers.py', "            aaguid = _read_bytes(remaining_bytes_io, 16)\n", "            aaguid = _read_bytes(remaining_bytes_io, 16).lstrip(b'\\0').rjust(\n                15, b'\\0')[-16:]\n")],
 demo="sys.exit(0 if parse_authenticator_data(adata(0x41, 0, acd(EC()))).attested_credential_data.aaguid == bytes(16) else 1)",
 needs='an AAGUID beginning with a zero byte', breaks='It comes out with 15 bytes.'),
dict(id='c14-uvm-53', property='C14',
 edits=[('parsers.py', "                if type(v) is not int:\n", "                if type(v) is not int or abs(v) > 2**53:\n")],
 demo="sys.exit(0 if parse_extensions({'uvm': [[2**53 + 1]]}).uvm == [[2**53 + 1]] else 1)",
 needs='a uvm number above 2**53', breaks='It is refused.'),
dict(id='c14-exts-spaces', property='C14',
 edits=[('parsers.py', "    if uvi is not None:\n", "        exts = [e.strip() for e in exts]\n\n    if uvi is not None:\n")],
 demo="sys.exit(0 if parse_extensions({'exts': [' a']}).exts == [' a'] else 1)",
 needs='an extension name with surrounding white space', breaks='The white space is lost.'),
dict(id='c15-spelling-mix', property='C15',
 edits=[('parsers.py', "    key_ops = _parse_credential_public_key_key_ops(credential_public_key)\n", "    if type(credential_public_key[-1]) is not type(credential_public_key[3]):\n        raise ParserError('Algorithm and curve must be given alike')\n    key_ops = _parse_credential_public_key_key_ops(credential_public_key)\n")],
 demo="""
k = EC().cose(); k[-1] = 'P-256'
sys.exit(0 if parse_cose_key(k).crv.name == 'P_256' else 1)
""", needs='a curve by name and an algorithm by number', breaks='The key is refused.'),
dict(id='c15-ops-dup', property='C15',
 edits=[('parsers.py', "            key_ops.append(COSEKeyOperation(ko))  # type: ignore\n", "            op = COSEKeyOperation(ko)  # type: ignore\n            if op.name not in [k.name for k in key_ops]:\n                key_ops.append(op)  # type: ignore\n")],
 demo="""
k = EC().cose(); k[4] = [1, 'sign']
sys.exit(0 if len(parse_cose_key(k).key_ops) == 2 else 1)
""", needs='one operation by number and by name', breaks='One of them is dropped.'),
dict(id='c16-ops-sorted', property='C16',
 edits=[('converters.py', "        d[4] = [x.value for x in credential_public_key.key_ops]\n", "        d[4] = sorted((x.value for x in credential_public_key.key_ops),\n                      key=lambda x: (type(x) is str, x))\n")],
 demo="""
k = EC().cose(); k[4] = [2, 1]
sys.exit(0 if [o.value for o in parse_cose_key(cose_key(parse_cose_key(k))).key_ops] == [2, 1] else 1)
""", needs='key operations out of order', breaks='They are sorted.'),
dict(id='c17-empty-bytes', property='C17',
 edits=[('parsers.py', "    if field is None:\n        if not required: return\n", "    if field is None or (required and type(field) is bytes and not field):\n        if not required: return\n")],
 demo="sys.exit(0 if parse_packed_attestation_statement({'alg': -7, 'sig': b''}).sig == b'' else 1)",
 needs='an empty byte string member', breaks='It is taken as missing.'),
dict(id='c17-both', property='C17', multi=True,
 edits=[('parsers.py', "    supported_keys = {'alg', 'sig', 'ver', 'certInfo', 'pubArea'}\n", "    supported_keys = {'alg', 'sig', 'ver', 'certInfo', 'pubArea'}\n    if 'x5c' in att_stmt:\n        supported_keys.add('ecdaaKeyId')\n")],
 demo="sys.exit(0 if raises(errors.ParserError, parse_tpm_attestation_statement, {'alg': -7, 'sig': b'', 'ver': '2.0', 'certInfo': b'', 'pubArea': b'', 'x5c': [], 'ecdaaKeyId': b''}) else 1)",
 needs='a TPM statement with both x5c and ecdaaKeyId', breaks='It is accepted.'),
dict(id='c17-null-x5c', property='C17', multi=True,
 edits=[('parsers.py', "    if 'x5c' in att_stmt:\n", "    if att_stmt.get('x5c', None) is None and 'x5c' in att_stmt:\n        att_stmt = {k: v for k, v in att_stmt.items() if k != 'x5c'}\n\n    if 'x5c' in att_stmt:\n")],
 demo="sys.exit(0 if raises(errors.ParserError, parse_packed_attestation_statement, {'alg': -7, 'sig': b'', 'x5c': None}) else 1)",
 needs='a null x5c member', breaks='It is taken as absent.'),
dict(id='c19-okp-trailing', property='C19',
 edits=[('verifiers.py', "        public_key.verify(signature, data)\n", "        size = 64 if credential_public_key.crv.name == 'ED25519' else 114\n        public_key.verify(signature[:size], data)\n")],
 demo="""
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from webauthn_rp.verifiers import verify
p = Ed25519PrivateKey.from_private_bytes(bytes(range(32)))
k = parse_cose_key({1: 1, 3: -8, -1: 6, -2: p.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)})
sys.exit(0 if raises(errors.VerificationError, verify, k, p.sign(b'm') + b'x', b'm') else 1)
""", needs='an EdDSA signature followed by more bytes', breaks='The bytes are ignored.'),
dict(id='c22-cid-255', property='C22',
 edits=[('attesters.py', "    credential_id = att_obj.auth_data.attested_credential_data.credential_id\n", "    credential_id = (att_obj.auth_data.attested_credential_data.\n                     credential_id)[:255]\n")],
 demo="""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives.serialization import Encoding
k, ca, cid = EC(), EC(77), bytes(256)
n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
c = x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(ca.priv.public_key()).serial_number(5).not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(ca.priv, SHA256(), default_backend()).public_bytes(Encoding.DER)
ad = adata(0x41, 0, acd(k, cid)); cd = cdata('webauthn.create')
sig = ca.sign(b'\\0' + ad[:32] + hashlib.sha256(cd).digest() + cid + b'\\4' + k.x + k.y)
register(cid=cid, cd=cd, ad=ad, ao=attobj(ad, 'fido-u2f', {'sig': sig, 'x5c': [c]}))
""", needs='a credential id longer than 255 bytes', breaks='Its tail is not taken as signed.'),
dict(id='c23-seclevel', property='C23',
 edits=[('attesters.py', "    tee_origin = key_description['teeEnforced']['origin']\n", "    if int(key_description['keymasterSecurityLevel']) > 2:\n        raise AttestationError('Android key attestation failed: unknown level')\n    if int(key_description['attestationSecurityLevel']) == 0:\n        raise AttestationError('Android key attestation failed: software level')\n    tee_origin = key_description['teeEnforced']['origin']\n")],
 demo="""
import android
android.make(seclevel=0)
""", needs='a software attestation security level', breaks='The attestation is refused.'),
dict(id='c23-chain-wellformed', property='C23',
 edits=[('attesters.py', "        cred_cert_pk = credential_certificate.public_key()\n", "        cred_cert_pk = credential_certificate.public_key()\n        for further in att_stmt.x5c[1:]:\n            cryptography.x509.load_der_x509_certificate(\n                further, default_backend())\n")],
 demo="""
import android
k = EC(); r = {}
from webauthn_rp import attesters
orig = t.AndroidKeyAttestationStatement
import webauthn_rp.parsers as P
P.AndroidKeyAttestationStatement = lambda alg, sig, x5c: orig(alg=alg, sig=sig, x5c=list(x5c) + [b'junk'])
android.make()
""", needs='a malformed certificate after the first', breaks='The attestation is refused.'),
dict(id='c27-digit-chunk', property='C27',
 edits=[('utils.py', "    if chunks:\n        return chunks[0] + ''.join(capped)\n", "    if chunks:\n        capped = [('_' + c if c[0].isdigit() and chunks[0][-1].isdigit() else c)\n                  for c in capped]\n        return chunks[0] + ''.join(capped)\n")],
 demo="""
from webauthn_rp.utils import snake_to_camel_case
sys.exit(0 if snake_to_camel_case('a1_2') == 'a12' else 1)
""", needs='a word beginning with a digit after one ending with a digit', breaks='The underscore is kept.'),
dict(id='c27-trailing-underscore', property='C27',
 edits=[('utils.py', "    if chunks:\n        return chunks[0] + ''.join(capped)\n", "    if chunks:\n        return chunks[0] + ''.join(capped) + ('_' if s.endswith('__') else '')\n")],
 demo="""
from webauthn_rp.utils import snake_to_camel_case
sys.exit(0 if snake_to_camel_case('a__') == 'a' else 1)
""", needs='a name ending in two underscores', breaks='One is kept.'),
dict(id='c01-rphash-prefix', property='C01',
 edits=[('backends.py', "            if attestation.auth_data.rp_id_hash != rp_id_hash:\n", "            if attestation.auth_data.rp_id_hash[:31] != rp_id_hash[:31]:\n")],
 demo="""
ad = bytearray(adata(0x41, 0, acd(EC()))); ad[31] ^= 1
sys.exit(0 if raises(errors.RPIDHashError, register, ad=bytes(ad)) else 1)
""", needs='an RP ID hash with another last byte', breaks='It is accepted.'),
dict(id='c01-unsolicited', property='C01',
 edits=[('backends.py', "            if attestation.auth_data.attested_credential_data is None:\n", "            if expected_extensions is not None and (\n                    attestation.auth_data.extensions is not None):\n                for x in ExtensionIdentifier:\n                    if x not in expected_extensions and getattr(\n                            attestation.auth_data.extensions, x.key,\n                            None) is not None:\n                        raise ExtensionError('Unexpected extension')\n\n            if attestation.auth_data.attested_credential_data is None:\n")],
 demo="register(ad=adata(0xc1, 0, acd(EC()), cbor2.dumps({'appid': True, 'uvi': b''})), expected_extensions={t.ExtensionIdentifier.APPID})",
 needs='an extension beyond the required ones', breaks='The registration is refused.'),
dict(id='c03-handle-first-time', property='C03',
 edits=[('backends.py', "                if response.user_handle != user.id:\n", "                if response.user_handle != user.id and (\n                        allow_credentials is None or len(allow_credentials) != 1):\n")],
 demo="""
d = [t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=b'cid')]
sys.exit(0 if raises(errors.UserHandleError, login, handle=b'other', allow_credentials=d) else 1)
""", needs='a wrong user handle and an allow list of one credential', breaks='The handle is not compared.'),
dict(id='c03-rp-registered-wins', property='C03',
 edits=[('backends.py', "                if registered_rp.id != rp.id:\n                    raise RPIDError(\n", "                if registered_rp.id != rp.id and not rp.id.endswith(\n                        '.' + registered_rp.id):\n                    raise RPIDError(\n")],
 demo="""
rp2 = t.PublicKeyCredentialRpEntity(name='x', id='a.example.com')
sys.exit(0 if raises(errors.RPIDError, login, rp=rp2, ad=adata(1, 1, rp=rp2)) else 1)
""", needs='a given RP that is a subdomain of the registered one', breaks='They are taken to agree.'),
dict(id='c04-empty-sig', property='C04',
 edits=[('backends.py', "            verification_data = response.authenticator_data + client_data_JSON_hash\n", "            verification_data = response.authenticator_data + client_data_JSON_hash\n            if not any(response.signature):\n                raise WebAuthnRPError('Empty signature')\n")],
 demo="sys.exit(0 if raises(errors.VerificationError, login, sig=b'') else 1)",
 needs='an empty signature', breaks='The error is not a verification error.'),
dict(id='c05-uv-resets', property='C05',
 edits=[('backends.py', "                if auth_data.sign_count <= registered_sign_count:\n", "                if auth_data.sign_count < registered_sign_count or (\n                        auth_data.sign_count == registered_sign_count\n                        and not (AuthenticatorDataFlag.UV.value\n                                 & auth_data.flags)):\n")],
 demo="sys.exit(0 if raises(errors.SignatureCountError, login, stored=5, ad=adata(5, 5)) else 1)",
 needs='an equal count with the user verified', breaks='It is accepted.'),
dict(id='c10-origin-bracket', property='C10',
 edits=[('parsers.py', "        hostname = url.hostname\n        port = url.port\n    except ValueError:\n        raise OriginError('Invalid origin, malformed host or port')\n", "        hostname = url.hostname\n        port = None\n    except ValueError:\n        raise OriginError('Invalid origin, malformed host or port')\n\n    if ':' in url.netloc.rpartition(']')[2]:\n        digits = url.netloc.rpartition(':')[2]\n        if not digits.isdigit() or len(digits) > 5:\n            if digits: raise OriginError('Invalid origin, malformed port')\n        else:\n            port = int(digits)\n            if port > 65535:\n                raise OriginError('Invalid origin, malformed port')\n")],
 demo="""
try: parse_origin('https://a:\\u00b2')
except errors.OriginError: pass
""", needs='a superscript digit as the port', breaks='ValueError escapes.'),
dict(id='c11-scheme-upper', property='C11',
 edits=[('parsers.py', "    if '://' not in origin:\n", "    if not origin.startswith(('http://', 'https://', 'ftp:')):\n")],
 demo="sys.exit(0 if parse_origin('HTTPS://a') == parse_origin('https://a') else 1)",
 needs='a scheme in upper case', breaks='It is refused.'),
dict(id='c30-cose-cache', property='C30',
 edits=[('parsers.py', "    if type(credential_public_key) is bytes:\n        try:\n            credential_public_key = cbor2.loads(credential_public_key)\n", "    if type(credential_public_key) is bytes:\n        try:\n            credential_public_key = _loads(credential_public_key)\n"),
        ('parsers.py', "def parse_cose_key(\n", "_loads = lru_cache(maxsize=16)(cbor2.loads)\n\n\ndef parse_cose_key(\n"),
        ('parsers.py', "import base64\n", "import base64\nfrom functools import lru_cache\n")],
 demo="""
k = EC().cose(); k[4] = [1, 2]; b = cbor2.dumps(k)
m = parse_cose_key(b); m.key_ops.append(5)
m = parse_cose_key(b)
sys.exit(0 if len(m.key_ops) == 2 else 1)
""", needs='nothing visible', breaks='(control: the cached map is not exposed)'),
dict(id='c18-aliases', property='C18',
 edits=[('parsers.py', "    response = _parse_dictionary_field('response', dict, data)\n", "    response = _parse_dictionary_field('response', dict, data)\n    if 'clientDataJson' in response and 'clientDataJSON' not in response:\n        response = dict(response)\n        response['clientDataJSON'] = response.pop('clientDataJson')\n")],
 demo="""
d = {'id': 'a', 'type': 'public-key', 'rawId': 'AAAA', 'response': {'clientDataJson': 'AAAA', 'attestationObject': 'AAAA'}}
sys.exit(0 if raises(errors.ParserError, parse_public_key_credential, d) else 1)
""", needs='a member name in other letter case', breaks='It is accepted.'),
dict(id='c26-enum-nested', property='C26',
 edits=[('converters.py', "        return jsonify(data.value, convert_case)\n", "        return data.value if type(data.value) in (str, int) else jsonify(\n            data.value)\n")],
 demo="""
import enum
class E(enum.Enum): A = {'a_b': 1}
sys.exit(0 if jsonify(E.A, False) == {'a_b': 1} else 1)
""", needs='an enum whose value is a dictionary, keys kept', breaks='The keys are converted.'),
dict(id='c29-timeout-negative', property='C29',
 edits=[('converters.py', "                for k, v in (data.items()) if v is not None}\n", "                for k, v in (data.items())\n                if v is not None and not (k == 'timeout' and v < 0)}\n")],
 demo="sys.exit(0 if jsonify({'timeout': -1}) == {'timeout': -1} else 1)",
 needs='a negative timeout', breaks='It is left out.'),
dict(id='c20-alg-curve', property='C20',
 edits=[('converters.py', "    try:\n        return ecpn.public_key(default_backend())\n", "    if x == 0 or y == 0:\n        raise PublicKeyConversionError('Invalid EC2 public key')\n\n    try:\n        return ecpn.public_key(default_backend())\n")],
 demo="""
# P-256 has the point (0, sqrt(b))
p = 2**256 - 2**224 + 2**192 + 2**96 - 1
b = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
y = pow(b, (p + 1) // 4, p)
k = t.EC2CredentialPublicKey(x=bytes(32), y=y.to_bytes(32, 'big'), crv=t.EC2Curve.Value.P_256, kty=t.COSEKeyType.Value.EC2, alg=t.COSEAlgorithmIdentifier.Value.ES256)
sys.exit(0 if cryptography_public_key(k).public_numbers().x == 0 else 1)
""", needs='the point with x = 0', breaks='It is refused.'),
dict(id='c12-origin-null', property='C12',
 edits=[('parsers.py', "    if not all(isinstance(x, str) for x in (type_, challenge, origin)):\n", "    if origin is None and client_data.get('crossOrigin') is True:\n        origin = 'null'\n\n    if not all(isinstance(x, str) for x in (type_, challenge, origin)):\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_client_data, b'{"type": "a", "challenge": "", "crossOrigin": true}') else 1)
""", needs='crossOrigin true without an origin', breaks='An origin is made up.'),
]
