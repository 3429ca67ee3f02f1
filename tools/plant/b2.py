BUGS = [
dict(id='c02-uv-error', property='C02',
 edits=[('backends.py', """                if not (AuthenticatorDataFlag.UV.value
                        & attestation.auth_data.flags):
                    raise UserVerificationError(
                        'User verification flag must be set')

            if expected_extensions is not None:
                for e in""", """                required = (AuthenticatorDataFlag.UP.value
                            | AuthenticatorDataFlag.UV.value)
                if attestation.auth_data.flags & 0x3F != required:
                    raise UserVerificationError(
                        'User verification flag must be set')

            if expected_extensions is not None:
                for e in""")],
 demo="""
register(ad=adata(0x41 | 4 | 8, 0, acd(EC())), require_user_verification=True)
""", needs='user verification required and one of the reserved flag bits set', breaks='A satisfied user verification requirement is reported as violated when a reserved flag bit is set.'),
dict(id='c02-validation-as-parser', property='C02',
 edits=[('parsers.py', "            validate(cpk)\n", "            try:\n                validate(cpk)\n            except AssertionError:\n                raise\n            except Exception as e:\n                raise ParserError(str(e))\n")],
 demo="""
k = EC().cose(); k[3] = -8
sys.exit(0 if raises(errors.ValidationError, register, ad=adata(0x41, 0, acd(k))) else 1)
""", needs='a registration whose key and algorithm are not supported together', breaks='An unsupported key/algorithm pairing is reported as ParserError instead of ValidationError.'),
dict(id='c04-rpid-error', property='C04',
 edits=[('backends.py', "            elif rp is not None:\n                if registered_rp.id != rp.id:", "            elif rp is not None:\n                if (registered_rp.id, registered_rp.name) != (rp.id, rp.name):")],
 demo="""
login(regrp=t.PublicKeyCredentialRpEntity(name='old name', id=RP.id))
""", needs='the RP renamed since the credential was registered', breaks='An RP with the same ID but another display name is refused with RPIDError.'),
dict(id='c03-ext-first-only', property='C03',
 edits=[('backends.py', """                        raise ExtensionError('Missing extension {}'.format(
                            ee.value))
""", """                        raise ExtensionError('Missing extension {}'.format(
                            ee.value))
                    break
""")],
 demo="""
k = EC()
n = 0
for have, both in (('appid', True), ('uvi', b'')):
    r = Reg()
    n += raises(errors.ExtensionError, login, r, key=k, ad=adata(0x81, 1, b'', cbor2.dumps({have: both})),
       expected_extensions={t.ExtensionIdentifier.APPID, t.ExtensionIdentifier.UVI}) and not r.log
sys.exit(0 if n == 2 else 1)
""", needs='two or more required extensions of which the first examined is present', breaks='Only one of the required extensions is looked for.'),
dict(id='c05-ignore-clone-zero', property='C05',
 edits=[('backends.py', "                if auth_data.sign_count <= registered_sign_count:\n", "                if 0 < auth_data.sign_count <= registered_sign_count:\n")],
 demo="""
sys.exit(0 if raises(errors.SignatureCountError, login, count=0, stored=7) else 1)
""", needs='a stored counter above zero and a received counter of zero', breaks='A counter that goes back to zero is not detected as a clone.'),
dict(id='c06-u2f-raw-id', property='C22',
 edits=[('attesters.py', "                         (client_data_hash + credential_id + public_key_u2f))", "                         (client_data_hash + credential_id[:255] + public_key_u2f))")],
 demo="""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
a = EC(777)
n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
c = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(a.priv.public_key()).serial_number(5)
     .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(a.priv, SHA256(), default_backend()))
from cryptography.hazmat.primitives.serialization import Encoding
k = EC(); cd = cdata('webauthn.create'); cid = b'i' * 300
h = hashlib.sha256(cd).digest()
sig = a.sign(b'\\0' + hashlib.sha256(RP.id.encode()).digest() + h + cid + b'\\4' + k.x + k.y)
register(cd=cd, cid=cid, ao=attobj(adata(0x41, 0, acd(k, cid)), 'fido-u2f', {'sig': sig, 'x5c': [c.public_bytes(Encoding.DER)]}))
""", needs='a fido-u2f credential id longer than 255 bytes', breaks='Only the first 255 bytes of the credential id are covered by the U2F signature.'),
dict(id='c22-key-size', property='C22',
 edits=[('attesters.py', "    if not isinstance(att_cert_x509_pk.curve, SECP256R1):", "    if att_cert_x509_pk.curve.key_size != SECP256R1.key_size:")],
 demo="""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives.serialization import Encoding
priv = ec.derive_private_key(4242, ec.SECP256K1(), default_backend())
n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
c = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(priv.public_key()).serial_number(5)
     .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(priv, SHA256(), default_backend()))
k = EC(); cd = cdata('webauthn.create'); h = hashlib.sha256(cd).digest()
sig = priv.sign(b'\\0' + hashlib.sha256(RP.id.encode()).digest() + h + b'cid' + b'\\4' + k.x + k.y, ec.ECDSA(SHA256()))
r = Reg()
sys.exit(0 if raises(errors.AttestationError, register, r, cd=cd, ao=attobj(adata(0x41, 0, acd(k)), 'fido-u2f', {'sig': sig, 'x5c': [c.public_bytes(Encoding.DER)]})) and not r.log else 1)
""", needs='an attestation certificate on another 256-bit curve (secp256k1, brainpoolP256r1)', breaks='Any 256-bit curve is accepted for the U2F attestation certificate.'),
dict(id='c22-chain', property='C22',
 edits=[('attesters.py', "    if len(att_stmt.x5c) != 1:", "    if len(att_stmt.x5c) < 1:")],
 demo="""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives.serialization import Encoding
a = EC(777)
n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
c = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(a.priv.public_key()).serial_number(5)
     .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(a.priv, SHA256(), default_backend())).public_bytes(Encoding.DER)
k = EC(); cd = cdata('webauthn.create'); h = hashlib.sha256(cd).digest()
sig = a.sign(b'\\0' + hashlib.sha256(RP.id.encode()).digest() + h + b'cid' + b'\\4' + k.x + k.y)
r = Reg()
sys.exit(0 if raises(errors.AttestationError, register, r, cd=cd, ao=attobj(adata(0x41, 0, acd(k)), 'fido-u2f', {'sig': sig, 'x5c': [c, c]})) and not r.log else 1)
""", needs='a fido-u2f statement with more than one certificate', breaks='Extra certificates in a U2F statement are ignored instead of refused.'),
dict(id='c11-ipv6-or-port', property='C11',
 edits=[('parsers.py', "    if url.scheme not in {'http', 'https'}:", "    if not url.scheme.startswith('http'):"),
        ('parsers.py', "        port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]", "        port = _SCHEME_DEFAULT_PORT_MAPPING.get(scheme, 443)")],
 demo="""
sys.exit(0 if raises(errors.OriginError, parse_origin, 'httpx://example.com') else 1)
""", needs='an origin whose scheme merely starts with http', breaks='Schemes such as "httpx" are accepted.'),
dict(id='c11-host-dot', property='C11',
 edits=[('parsers.py', "        hostname=hostname,\n", "        hostname=hostname[4:] if hostname.startswith('www.') else hostname,\n")],
 demo="""
sys.exit(0 if parse_origin('https://www.example.com') != parse_origin('https://example.com') else 1)
""", needs='two origins that differ by a leading "www."', breaks='"www.example.com" and "example.com" count as the same host.'),
dict(id='c17-tpm-ecdaa-x5c', property='C17',
 edits=[('parsers.py', """    if 'x5c' in att_stmt:
        supported_keys.add('x5c')
        _check_unsupported_keys(supported_keys, att_stmt)
        x5c = _parse_attestation_statement_x5c(att_stmt)
        return TPMX509""", """    if 'x5c' in att_stmt:
        supported_keys |= {'x5c', 'ecdaaKeyId'}
        _check_unsupported_keys(supported_keys, att_stmt)
        x5c = _parse_attestation_statement_x5c(att_stmt)
        return TPMX509""")],
 demo="""
s = {'alg': -7, 'sig': b'', 'ver': '2.0', 'certInfo': b'', 'pubArea': b'', 'x5c': [b'']}
parse_tpm_attestation_statement(s)
sys.exit(0 if raises(errors.ParserError, parse_tpm_attestation_statement, dict(s, ecdaaKeyId=b'')) else 1)
""", needs='a TPM statement with both x5c and ecdaaKeyId', breaks='A TPM statement mixing two variants is accepted.'),
dict(id='c17-x5c-type', property='C17',
 edits=[('parsers.py', """    for i, e in enumerate(x5c):
        if type(e) is not bytes:
            raise ParserError('x5c[{}] must be a byte string'.format(i))
    return x5c""", """    if x5c and type(x5c[0]) is not bytes:
        raise ParserError('x5c[0] must be a byte string')
    return x5c""")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_fido_u2f_attestation_statement, {'sig': b'', 'x5c': [b'a', 'b']}) else 1)
""", needs='a chain whose second element is not bytes', breaks='Only the first element of x5c is type checked.'),
dict(id='c18-empty-handle', property='C18',
 edits=[('parsers.py', "        if user_handle_b64s is not None:\n", "        if user_handle_b64s:\n")],
 demo="""
d = {'id': 'a', 'type': 'public-key', 'rawId': '', 'response': {'clientDataJSON': '', 'authenticatorData': '', 'signature': '', 'userHandle': ''}}
sys.exit(0 if parse_public_key_credential(d).response.user_handle == b'' else 1)
""", needs='an assertion with an empty user handle', breaks='An empty user handle is parsed as no user handle.'),
dict(id='c18-mixture', property='C18',
 edits=[('parsers.py', """        _check_unsupported_keys({'clientDataJSON', 'attestationObject'},
                                response)""", """        _check_unsupported_keys({'clientDataJSON', 'attestationObject', 'userHandle'},
                                response)""")],
 demo="""
d = {'id': 'a', 'type': 'public-key', 'rawId': '', 'response': {'clientDataJSON': '', 'attestationObject': '', 'userHandle': ''}}
sys.exit(0 if raises(errors.ParserError, parse_public_key_credential, d) else 1)
""", needs='an attestation response that also has a user handle', breaks='A member of the assertion kind is tolerated in an attestation response.'),
dict(id='c19-hash-by-curve', property='C19',
 edits=[('verifiers.py', "    signature_algorithm = ECDSA(ec2_hash_algorithm(credential_public_key.alg))\n",
 """    alg = credential_public_key.alg
    if credential_public_key.crv.name == 'P_521':
        alg = type(alg).ES512
    signature_algorithm = ECDSA(ec2_hash_algorithm(alg))
""")],
 demo="""
from webauthn_rp.verifiers import verify
k = EC(99, 'P-521', 'ES256')
verify(k.lib(), k.sign(b'm'), b'm')
""", needs='a P-521 key used with ES256 or ES384', breaks='P-521 keys are always verified with SHA-512 whatever their algorithm says.'),
dict(id='c20-okp-length', property='C20',
 edits=[('converters.py', "            return Ed448PublicKey.from_public_bytes(credential_public_key.x)", "            return Ed448PublicKey.from_public_bytes(\n                credential_public_key.x[:57])")],
 demo="""
k = t.OKPCredentialPublicKey(kty=t.COSEKeyType.Value.OKP, alg=t.COSEAlgorithmIdentifier.Value.EDDSA, x=b'\\1' * 58, crv=t.OKPCurve.Value.ED448, key_ops=None, base_IV=None, kid=None)
sys.exit(0 if raises(errors.PublicKeyConversionError, cryptography_public_key, k) else 1)
""", needs='an Ed448 key with more than 57 bytes', breaks='An overlong Ed448 key is truncated to some other key.'),
dict(id='c21-bool', property='C21',
 edits=[('types.py', "        if type(value) is int:\n            return cls.Value(value)", "        if isinstance(value, int):\n            return cls.Value(value)")],
 demo="""
try:
    t.COSEKeyType(True); sys.exit(1)
except (KeyError, ValueError): pass
""", needs='a boolean given as an identifier', breaks='True is accepted as identifier number 1.'),
dict(id='c21-validate-okp-names', property='C21',
 edits=[('types.py', "        EDDSA = 'EdDSA'\n", "        EDDSA = 'EDDSA'\n")],
 demo="""
t.COSEAlgorithmIdentifier('EdDSA')
""", needs='the algorithm given by its registered name EdDSA', breaks='The COSE name EdDSA is no longer recognised.'),
dict(id='c23-all-apps', property='C23',
 edits=[('attesters.py', "    if all_apps_se.hasValue() or all_apps_tee.hasValue():", "    if all_apps_se.hasValue() and all_apps_tee.hasValue():")],
 demo="""
from webauthn_rp.asn1 import *
from android import make
sys.exit(0 if raises(errors.AttestationError, make, se_all=True) and raises(errors.AttestationError, make, tee_all=True) and make() is None else 1)
""", needs='a key description with allApplications in just one authorization list', breaks='allApplications is refused only when in both lists.'),
dict(id='c23-origin-se', property='C23',
 edits=[('attesters.py', "    tee_purpose = key_description['teeEnforced']['purpose']\n", "    tee_purpose = key_description['teeEnforced']['purpose']\n    if not tee_purpose.hasValue():\n        tee_purpose = key_description['softwareEnforced']['purpose']\n")],
 demo="""
from android import make
sys.exit(0 if raises(errors.AttestationError, make, tee_purpose=None, se_purpose=[2]) and make() is None else 1)
""", needs='SIGN among the software-enforced purposes only', breaks='The purpose is taken from the software-enforced list when the hardware list has none.'),
dict(id='c24-self', property='C24',
 edits=[('attesters.py', "@attest.register(NoneAttestationStatement)\n", "@attest.register(PackedAttestationStatement)\n@attest.register(NoneAttestationStatement)\n"),
  ('attesters.py', "                               NoneAttestationStatement, TrustedPath)", "                               NoneAttestationStatement,\n                               PackedAttestationStatement, TrustedPath)")],
 demo="""
r = Reg()
sys.exit(0 if raises(errors.UnimplementedError, register, r, ao=attobj(adata(0x41, 0, acd(EC())), 'packed', {'alg': -7, 'sig': b''})) and not r.log else 1)
""", needs='a packed attestation', breaks='Packed statements are accepted unverified as "none".'),
dict(id='c25-tag-swap', property='C25',
 edits=[('asn1.py', "                explicitTag=Tag(tagClassContext, tagFormatSimple, 718))),", "                explicitTag=Tag(tagClassContext, tagFormatSimple, 720))),")],
 demo="""
from webauthn_rp.asn1 import AuthorizationList
from pyasn1.codec.der.decoder import decode
# [718] EXPLICIT INTEGER 5
b = bytes([0x30, 6, 0xbf, 0x85, 0x4e, 0x03, 0x02, 0x01, 0x05])
b = bytes([0x30, len(b) - 2 + 0]) + b[2:]
v, _ = decode(b, AuthorizationList())
sys.exit(0 if int(v['vendorPatchLevel']) == 5 else 1)
""", needs='a key description with vendorPatchLevel', breaks='vendorPatchLevel is expected under the wrong context tag.'),
dict(id='c26-case-in-lists', property='C26',
 edits=[('converters.py', "        return [jsonify(x, convert_case) for x in data]", "        return [jsonify(x) for x in data]")],
 demo="""
sys.exit(0 if jsonify({'a_b': [{'c_d': 1}]}, False) == {'a_b': [{'c_d': 1}]} else 1)
""", needs='dictionaries inside a list with case conversion off', breaks='Case conversion is switched on again inside lists.'),
dict(id='c26-drop-none-list', property='C26',
 edits=[('converters.py', "        return [jsonify(x, convert_case) for x in data]", "        return [jsonify(x, convert_case) for x in data if x is not None]")],
 demo="""
sys.exit(0 if jsonify([1, None, 2]) == [1, None, 2] else 1)
""", needs='a list with None elements', breaks='None elements of lists are dropped.'),
dict(id='c27-capitalize', property='C27',
 edits=[('utils.py', "    capped = [x[0].upper() + x[1:] for x in chunks[1:]]", "    capped = [x.capitalize() for x in chunks[1:]]")],
 demo="""
from webauthn_rp.utils import snake_to_camel_case as f
sys.exit(0 if f('client_dataJSON') == 'clientDataJSON' else 1)
""", needs='a word with an upper-case letter after its first', breaks='Letters after the first of each word are lower-cased.'),
dict(id='c28-shallow', property='C28',
 edits=[('builders.py', """    def _copy(self) -> 'CredentialRequestOptionsBuilder':
        return deepcopy(self)
""", """    def _copy(self) -> 'CredentialRequestOptionsBuilder':
        c = CredentialRequestOptionsBuilder.__new__(
            CredentialRequestOptionsBuilder)
        c.__dict__ = self.__dict__
        return c
""")],
 demo="""
from webauthn_rp.builders import *
b = CredentialRequestOptionsBuilder(rp_id='a')
b2 = b.rp_id('b')
sys.exit(0 if b.build(challenge=b'').public_key.rp_id == 'a' else 1)
""", needs='building from an earlier builder after a setter call on it', breaks='Request option builders share their state with the builders derived from them.'),
dict(id='c29-transports', property='C29',
 edits=[('types.py', "        self.transports = transports\n", "        self.transports = transports or None\n")],
 demo="""
d = t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=b'x', transports=[])
sys.exit(0 if jsonify(d).get('transports') == [] else 1)
""", needs='an empty transports list', breaks='An empty transports list is omitted.'),
]
