CH = "                if challenge != expected_challenge:\n"
def both(old, new, f='backends.py', n=None): return [(f, old, new)]
BUGS = [
dict(id='c01-challenge-int', property='C01', multi=True,
 edits=[('backends.py', CH, "                if int.from_bytes(challenge, 'big') != int.from_bytes(\n                        expected_challenge, 'big'):\n")],
 demo="""
sys.exit(0 if raises(errors.ChallengeError, register, cd=cdata('webauthn.create', b'\\0' + CHAL[1:]), expected_challenge=CHAL[1:]) else 1)
""", needs='a challenge with extra leading zero bytes', breaks='Challenges are compared as numbers.'),
dict(id='c03-challenge-zeros', property='C03', multi=True,
 edits=[('backends.py', CH, "                if challenge.rstrip(b'\\x00') != expected_challenge.rstrip(\n                        b'\\x00'):\n")],
 demo="""
sys.exit(0 if raises(errors.ChallengeError, login, cd=cdata(chal=CHAL + b'\\0\\0')) else 1)
""", needs='a challenge with extra trailing zero bytes', breaks='Trailing zero bytes of challenges are ignored.'),
dict(id='c01-tb-supported', property='C01', multi=True,
 edits=[('backends.py', "                if token_binding.id != collected_client_data.token_binding.id:\n", "                if (token_binding.status.value == 'present'\n                        and token_binding.id !=\n                        collected_client_data.token_binding.id):\n")],
 demo="""
tb = t.TokenBinding(status=t.TokenBindingStatus.SUPPORTED, id='a')
sys.exit(0 if raises(errors.TokenBindingError, register, cd=cdata('webauthn.create', tokenBinding={'status': 'supported', 'id': 'b'}), token_binding=tb) else 1)
""", needs='status supported with different ids', breaks='Ids are only compared for status present.'),
dict(id='c04-handle-nouser', property='C04',
 edits=[('backends.py', "                    raise UserHandleError('User handle doesn\\'t match user ID')", "                    if user is registered_user:\n                        raise UserIDError('User handle doesn\\'t match user ID')\n                    raise UserHandleError('User handle doesn\\'t match user ID')")],
 demo="""
sys.exit(0 if raises(errors.UserHandleError, login, handle=b'other', user=None) else 1)
""", needs='no user given and a foreign handle', breaks='UserIDError instead of UserHandleError.'),
dict(id='c02-ext-none', property='C02',
 edits=[('backends.py', "                        raise ExtensionError('Missing extension {}'.format(\n                            e.value))", "                        if attestation.auth_data.extensions is None:\n                            raise ParserError('Missing extensions')\n                        raise ExtensionError('Missing extension {}'.format(\n                            e.value))"),
        ('backends.py', "    OriginError, RegistrationError", "    OriginError, ParserError, RegistrationError")],
 demo="""
sys.exit(0 if raises(errors.ExtensionError, register, expected_extensions={t.ExtensionIdentifier.APPID}) else 1)
""", needs='required extensions and none at all', breaks='ParserError instead of ExtensionError.'),
dict(id='c04-count-received-zero', property='C04',
 edits=[('backends.py', "                    if not ignore_clone_error:\n", "                    if auth_data.sign_count == 0:\n                        raise CredentialDataError('counter was reset')\n                    if not ignore_clone_error:\n")],
 demo="""
sys.exit(0 if raises(errors.SignatureCountError, login, stored=5, count=0) else 1)
""", needs='a received count of zero with a stored count', breaks='CredentialDataError instead of SignatureCountError.'),
dict(id='c07-record-lib-error', property='C07', multi=True,
 edits=[('backends.py', "            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion ({!r})'.format(e))", "            except WebAuthnRPError:\n                raise\n            except Exception as e:\n                raise RegistrationError(\n                    'Failed to register credential assertion ({!r})'.format(e))")],
 demo="""
class R(Reg):
    def register_credential_assertion(self, **kw): raise errors.ParserError('x')
sys.exit(0 if raises(errors.RegistrationError, login, reg=R()) else 1)
""", needs='a registrar that raises an error of the library', breaks='It escapes unwrapped.'),
dict(id='c07-user-swap', property='C07',
 edits=[('backends.py', "                        'Registered user and provided user IDs do not match')\n", "                        'Registered user and provided user IDs do not match')\n                if user.display_name == registered_user.display_name:\n                    user = registered_user\n")],
 demo="""
reg = login(reguser=t.PublicKeyCredentialUserEntity(name='old', id=b'uid', display_name='U'))
sys.exit(0 if reg.log[0]['user'] is USER else 1)
""", needs='a given and a stored user with equal display names', breaks='The stored user is reported instead of the given one.'),
dict(id='c11-casefold', property='C11',
 edits=[('parsers.py', "        hostname = url.hostname\n", "        hostname = url.hostname and url.hostname.casefold()\n")],
 demo="""
sys.exit(0 if parse_origin('https://stra\\u00dfe.de') != parse_origin('https://strasse.de') else 1)
""", needs='a host with a sharp s', breaks='Hosts are case-folded.'),
dict(id='c11-nfkc', property='C11',
 edits=[('parsers.py', "        hostname = url.hostname\n", "        hostname = url.hostname and unicodedata.normalize(\n            'NFKC', url.hostname)\n"), ('parsers.py', "import struct\n", "import struct\nimport unicodedata\n")],
 demo="""
sys.exit(0 if parse_origin('https://\\uff45xample.com') != parse_origin('https://example.com') else 1)
""", needs='a host with compatibility characters', breaks='Hosts are normalized.'),
dict(id='c11-http-443', property='C11',
 edits=[('parsers.py', "    if port is None:\n        port = _SCHEME", "    if port is None or (scheme == 'http' and port == 443):\n        port = _SCHEME")],
 demo="""
sys.exit(0 if parse_origin('http://a.b:443') != parse_origin('http://a.b') else 1)
""", needs='http with port 443', breaks='http on port 443 equals port 80.'),
dict(id='c12-html', property='C12',
 edits=[('parsers.py', "    origin = client_data.get('origin')\n", "    origin = client_data.get('origin')\n    if isinstance(origin, str):\n        origin = origin.replace('\\\\/', '/')\n")],
 demo="""
sys.exit(0 if parse_client_data(json.dumps({'type': 'a', 'challenge': 'b', 'origin': 'x\\\\/y'}).encode()).origin == 'x\\\\/y' else 1)
""", needs='an origin with a literal backslash and slash', breaks='The backslash is dropped.'),
dict(id='c12-nested', property='C12',
 edits=[('parsers.py', "    if type(client_data) is not dict:\n        raise ParserError('Client data JSON must be a dictionary')\n", "    if type(client_data) is list and len(client_data) == 1:\n        client_data = client_data[0]\n    if type(client_data) is not dict:\n        raise ParserError('Client data JSON must be a dictionary')\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_client_data, b'[' + cdata() + b']') else 1)
""", needs='the client data object inside a one-element list', breaks='It is unwrapped.'),
dict(id='c13-cid-1023', property='C13',
 edits=[('parsers.py', "            credential_id = _read_bytes(remaining_bytes_io,\n                                        credential_id_length_uint16)\n", "            credential_id = _read_bytes(remaining_bytes_io,\n                                        credential_id_length_uint16)\n            if len(credential_id) > 0x7fff and flags & 0x80:\n                raise ParserError('Credential id too long')\n")],
 demo="""
c = bytes(40000)
sys.exit(0 if parse_authenticator_data(adata(0xc1, 0, acd(EC(), c), cbor2.dumps({}))).attested_credential_data.credential_id == c else 1)
""", needs='a credential id over 32767 bytes together with extensions', breaks='It is refused.'),
dict(id='c16-int-alg', property='C16',
 edits=[('converters.py', "    d[3] = credential_public_key.alg.value\n", "    d[3] = credential_public_key.alg.value\n    if isinstance(d[1], str) and d[3] == -8:\n        d[3] = 'EdDSA'\n")],
 demo="""
from webauthn_rp.converters import cose_key
k = parse_cose_key({1: 'OKP', 3: -8, -1: 6, -2: bytes(32)})
sys.exit(0 if parse_cose_key(cose_key(k)).alg == k.alg else 1)
""", needs='an OKP key with a type name and an algorithm number', breaks='The algorithm number becomes a name.'),
dict(id='c19-p1363', property='C19',
 edits=[('verifiers.py', "    except cryptography.exceptions.InvalidSignature:\n        raise VerificationError('EC2 verification failure')", "    except cryptography.exceptions.InvalidSignature:\n        n = len(credential_public_key.x)\n        if len(signature) == 2 * n:\n            try:\n                return public_key.verify(\n                    encode_dss_signature(\n                        int.from_bytes(signature[:n], 'big'),\n                        int.from_bytes(signature[n:], 'big')), data,\n                    signature_algorithm)\n            except cryptography.exceptions.InvalidSignature:\n                pass\n        raise VerificationError('EC2 verification failure')"), ('verifiers.py', "\n\nfrom webauthn_rp.converters", "\n\nfrom webauthn_rp.converters") , ('verifiers.py', "from webauthn_rp.converters import", "from cryptography.hazmat.primitives.asymmetric.utils import \\\n    encode_dss_signature\nfrom webauthn_rp.converters import")],
 demo="""
from webauthn_rp.verifiers import verify
from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
k = EC(); r, s = decode_dss_signature(k.sign(b'm'))
sys.exit(0 if raises(errors.VerificationError, verify, k.lib(), r.to_bytes(32, 'big') + s.to_bytes(32, 'big'), b'm') else 1)
""", needs='a signature as r and s without DER', breaks='Signatures that are not DER are accepted.'),
dict(id='c23-x-only', property='C23',
 edits=[('attesters.py', "    if cpk_public_bytes != cred_cert_public_bytes:\n", "    if isinstance(cred_cert_pk, EllipticCurvePublicKey):\n        n = (cred_cert_pk.curve.key_size + 7) // 8\n        cpk_public_bytes = cpk_public_bytes[:-n]\n        cred_cert_public_bytes = cred_cert_public_bytes[:-n]\n    if cpk_public_bytes != cred_cert_public_bytes:\n")],
 demo="""
import android
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
sys.exit(0 if raises(errors.AttestationError, android.make, key=EC(N - 12345), ad=adata(0x41, 0, acd(EC(12345)))) else 1)
""", needs='a certificate key with the same x and the other y', breaks='Only x is compared.'),
dict(id='c22-x-only-cose', property='C20',
 edits=[('converters.py', "    try:\n        return ecpn.public_key(default_backend())\n    except ValueError:\n        raise", "    try:\n        return ecpn.public_key(default_backend())\n    except ValueError:\n        if y == 0:\n            y_odd = EllipticCurvePublicKey.from_encoded_point(\n                curve, b'\\x02' + credential_public_key.x)\n            return y_odd\n        raise"), ('converters.py', "EllipticCurvePublicNumbers)\n", "EllipticCurvePublicKey,\n    EllipticCurvePublicNumbers)\n")],
 demo="""
k = EC().cose(); k[-3] = bytes(32)
sys.exit(0 if raises(errors.PublicKeyConversionError, cryptography_public_key, parse_cose_key(k)) else 1)
""", needs='a y coordinate of zero', breaks='A point is recovered from x alone.'),
dict(id='c26-bool-int', property='C26',
 edits=[('converters.py', "    elif type(data) in (str, int, float, bool):\n        return data\n", "    elif type(data) in (str, int, float, bool):\n        if type(data) is float and data.is_integer():\n            return int(data)\n        return data\n")],
 demo="""
sys.exit(0 if type(jsonify({'a': 2.0})['a']) is float else 1)
""", needs='a float with an integral value', breaks='It becomes an integer.'),
dict(id='c26-neg-zero', property='C26',
 edits=[('converters.py', "    elif type(data) in (str, int, float, bool):\n        return data\n", "    elif type(data) in (str, int, float, bool):\n        if type(data) is float and data == 0:\n            return 0.0\n        return data\n")],
 demo="""
sys.exit(0 if str(jsonify([-0.0])[0]) == '-0.0' else 1)
""", needs='negative zero', breaks='Its sign is lost.'),
dict(id='c26-nan', property='C26',
 edits=[('converters.py', "                for k, v in (data.items()) if v is not None}", "                for k, v in (data.items()) if v is not None and v != b''}")],
 demo="""
sys.exit(0 if jsonify({'a': b''}) == {'a': ''} else 1)
""", needs='an empty bytes member', breaks='Empty bytes members are dropped.'),
dict(id='c27-long-tail', property='C27',
 edits=[('utils.py', "    return base64.b64decode(s + '===', b'-_')", "    if len(s) > 100 and len(s) % 4 == 1:\n        s = s[:-1]\n    return base64.b64decode(s + '===', b'-_')")],
 demo="""
from webauthn_rp.utils import url_base64_decode
sys.exit(0 if raises(Exception, url_base64_decode, 'A' * 105) else 1)
""", needs='a long input of impossible length', breaks='It is decoded.'),
dict(id='c27-digit-word', property='C27',
 edits=[('utils.py', "    capped = [x[0].upper() + x[1:] for x in chunks[1:]]\n", "    capped = [x.capitalize() for x in chunks[1:]]\n")],
 demo="""
from webauthn_rp.utils import snake_to_camel_case
sys.exit(0 if snake_to_camel_case('client_dataJSON') == 'clientDataJSON' else 1)
""", needs='a later word with upper-case letters', breaks='The rest of the word is lower-cased.'),
dict(id='c28-deepcopy-enum', property='C28',
 edits=[('builders.py', "    def _copy(self) -> 'CredentialRequestOptionsBuilder':\n        return deepcopy(self)\n", "    def _copy(self) -> 'CredentialRequestOptionsBuilder':\n        return CredentialRequestOptionsBuilder(\n            mediation=self._mediation,\n            timeout=self._timeout,\n            rp_id=self._rp_id,\n            extensions=deepcopy(self._extensions),\n            user_verification=self._user_verification\n            or UserVerificationRequirement.PREFERRED)\n")],
 demo="""
from webauthn_rp.builders import *
b = CredentialRequestOptionsBuilder().user_verification(None).timeout(3)
sys.exit(0 if b.build(challenge=b'').public_key.user_verification is None else 1)
""", needs='user verification set to None and another setter after it', breaks='The default comes back.'),
dict(id='c28-timeout-int', property='C28',
 edits=[('builders.py', "                timeout=self._timeout,\n                authenticator_selection", "                timeout=self._timeout and min(self._timeout, 2**31 - 1),\n                authenticator_selection")],
 demo="""
from webauthn_rp.builders import *
b = CredentialCreationOptionsBuilder(rp=RP, pub_key_cred_params=[], timeout=2**31)
sys.exit(0 if b.build(challenge=b'', user=USER).public_key.timeout == 2**31 else 1)
""", needs='a timeout over 2^31', breaks='It is clipped.'),
dict(id='c29-falsy-members', property='C29',
 edits=[('converters.py', "                for k, v in (data.items()) if v is not None}", "                for k, v in (data.items())\n                if v is not None and not (k == 'require_resident_key' and not v)}")],
 demo="""
j = jsonify(t.AuthenticatorSelectionCriteria(require_resident_key=False))
sys.exit(0 if j.get('requireResidentKey') is False else 1)
""", needs='require_resident_key False', breaks='It is absent.'),
dict(id='c05-none-count', property='C05',
 edits=[('backends.py', "            if registered_sign_count is not None and (\n", "            if registered_sign_count is None and auth_data.sign_count == 0 and (\n                    auth_data.flags & AuthenticatorDataFlag.ED.value):\n                raise SignatureCountError('no count')\n            if registered_sign_count is not None and (\n")],
 demo="""
ad = adata(0x81, 0, b'', cbor2.dumps({}))
sys.exit(0 if login(stored=None, ad=ad).log else 1)
""", needs='no stored count, a zero count and extension data', breaks='It is refused.'),
dict(id='c06-count-unsigned', property='C06',
 edits=[('backends.py', "            verification_data = response.authenticator_data + client_data_JSON_hash\n            verify(credential_data.credential_public_key, response.signature,\n                   verification_data)\n", "            verification_data = response.authenticator_data + client_data_JSON_hash\n            try:\n                verify(credential_data.credential_public_key,\n                       response.signature, verification_data)\n            except VerificationError:\n                legacy = bytearray(verification_data)\n                legacy[32] &= ~0x20 & 0xff\n                verify(credential_data.credential_public_key,\n                       response.signature, bytes(legacy))\n"), ('backends.py', "UserVerificationError, Web", "UserVerificationError,\n    VerificationError, Web")],
 demo="""
good = adata(1, 1); k = EC(); cd = cdata()
sys.exit(0 if raises(errors.VerificationError, login, ad=adata(0x21, 1), cd=cd, sig=k.sign(good + hashlib.sha256(cd).digest())) else 1)
""", needs='a flip of one reserved flag bit', breaks='That bit is not covered by the signature.'),
dict(id='c08-challenge-set', property='C30',
 edits=[('backends.py', "            allowed_origins = self._extract_allowed_origins(expected_origin)\n\n            response = cast(AuthenticatorAssertionResponse,", "            allowed_origins = self._extract_allowed_origins(expected_origin)\n            self._pending = expected_challenge\n\n            response = cast(AuthenticatorAssertionResponse,"),
  ('backends.py', "            registered_sign_count = credential_data.signature_count\n", "            if self._pending != expected_challenge:\n                raise ChallengeError('challenge superseded')\n            registered_sign_count = credential_data.signature_count\n")],
 demo="""
import threading
ev1, ev2 = threading.Event(), threading.Event()
class R(Reg):
    def get_credential_data(self, cid):
        if threading.current_thread() is th:
            ev1.set(); ev2.wait(5)
        return Reg.get_credential_data(self, cid)
reg = R(); be = CredentialsBackend(reg); out = []
def first():
    try: login(reg=reg, be=be); out.append(True)
    except Exception as e: print(repr(e)); out.append(False)
th = threading.Thread(target=first); th.start(); ev1.wait(5)
login(reg=reg, be=be, cd=cdata(chal=b'other'), expected_challenge=b'other'); ev2.set(); th.join()
sys.exit(0 if out == [True] else 1)
""", needs='two logins interleaved during the lookup', breaks='The first is refused.'),
dict(id='c14-uvm-negative', property='C14',
 edits=[('parsers.py', "                if type(v) is not int:\n", "                if type(v) is not int or v.bit_length() > 32:\n")],
 demo="""
sys.exit(0 if parse_extensions({'uvm': [[2**33]]}).uvm == [[2**33]] else 1)
""", needs='a uvm integer beyond 32 bits', breaks='It is refused.'),
dict(id='c15-crv-okp-names', property='C15',
 edits=[('parsers.py', "    if len(x) != crv_len:\n", "    if crv.value == 'Ed448' and len(x) == 56:\n        x = x + b'\\x00'\n    if len(x) != crv_len:\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_cose_key, {1: 1, 3: -8, -1: 'Ed448', -2: bytes(56)}) else 1)
""", needs='an Ed448 key by name with 56 bytes', breaks='It is padded.'),
dict(id='c17-safetynet-alg', property='C17',
 edits=[('parsers.py', "    supported_keys = {'ver', 'response'}\n", "    supported_keys = {'ver', 'response', 'error'}\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_android_safetynet_attestation_statement, {'ver': '1', 'response': b'', 'error': 1}) else 1)
""", needs='an unknown member named error', breaks='It is accepted.'),
dict(id='c18-handle-default', property='C18',
 edits=[('parsers.py', "        if user_handle_b64s is not None:\n            user_handle = _bytes_from_base64(user_handle_b64s)\n", "        if user_handle_b64s is not None:\n            user_handle = _bytes_from_base64(user_handle_b64s)\n        elif 'userHandle' in response:\n            user_handle = b''\n")],
 demo="""
d = {'id': 'x', 'rawId': 'eA==', 'type': 'public-key', 'response': {'clientDataJSON': '', 'authenticatorData': '', 'signature': '', 'userHandle': None}}
sys.exit(0 if parse_public_key_credential(d).response.user_handle is None else 1)
""", needs='a null user handle', breaks='It becomes an empty one.'),
dict(id='c31-none-subclass', property='C31',
 edits=[('attesters.py', "    return AttestationType.NONE, None\n", "    if type(att_stmt) is not NoneAttestationStatement:\n        return AttestationType.SELF, None\n    return AttestationType.NONE, None\n")],
 demo="""
from webauthn_rp.attesters import attest
class S(t.NoneAttestationStatement): pass
sys.exit(0 if attest(S(), None, b'', b'')[0] is t.AttestationType.NONE else 1)
""", needs='a subclass of the none statement', breaks='Another attestation type.'),
]
