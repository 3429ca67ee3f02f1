RT="        registered_sign_count = credential_data.signature_count\n"
BUGS = [
dict(id='c30-origins-on-self', property='C30', multi=True,
 edits=[('backends.py', "            allowed_origins = self._extract_allowed_origins(expected_origin)\n", "            self._origins = self._extract_allowed_origins(expected_origin)\n"),
        ('backends.py', "if client_origin not in allowed_origins:", "if client_origin not in self._origins:")],
 demo="""
reg = Reg(); be = CredentialsBackend(reg); state = []
class R(Reg):
    def get_credential_data(self, cid):
        if not state:
            state.append(1)   # another user's login, for another site of the same server, gets in between
            r2 = dict(reg=self, be=be, cid=b'other', cd=cdata(origin='https://other.example'), expected_origin='https://other.example')
            try: login(**r2)
            except errors.WebAuthnRPError: pass
        return Reg.get_credential_data(self, cid)
reg = R(); be = CredentialsBackend(reg)
reg.data[b'other'] = CredentialData(EC().lib(), None, USER, RP)
try: login(reg, be)
except errors.OriginError: sys.exit(1)
""", needs='two ceremonies with different expected origins interleaved on one backend', breaks='The expected origins of one ceremony are replaced by those of another running at the same time.'),
dict(id='c30-buffer', property='C30',
 edits=[('parsers.py', "def parse_authenticator_data(auth_data: bytes)", "_AUTH_DATA_IO = io.BytesIO()\n\n\ndef parse_authenticator_data(auth_data: bytes)"),
        ('parsers.py', "    remaining_bytes_io = io.BytesIO(auth_data[37:])\n", "    remaining_bytes_io = _AUTH_DATA_IO\n    remaining_bytes_io.seek(0)\n    remaining_bytes_io.truncate()\n    remaining_bytes_io.write(auth_data[37:])\n    remaining_bytes_io.seek(0)\n")],
 demo="""
import threading
a = adata(0x41, 0, acd(EC(1), b'a' * 40)); b = adata(0x41, 0, acd(EC(2), b'b' * 40))
bad = []
import webauthn_rp.parsers as P
hit = []
def nested(frame, event, arg):
    if frame.f_code.co_name == '_read_bytes' and event == 'call' and not hit:
        hit.append(1)
        sys.settrace(None)
        th = threading.Thread(target=lambda: parse_authenticator_data(b)); th.start(); th.join()
    return None
sys.settrace(nested)
try:
    r = parse_authenticator_data(a)
    ok = r.attested_credential_data.credential_id == b'a' * 40
except Exception as e:
    print(repr(e)); ok = False
sys.settrace(None)
sys.exit(0 if ok else 1)
""", needs='two threads parsing authenticator data at the same time', breaks='Parses in different threads share one buffer.'),
dict(id='c30-ext-shared', property='C30',
 edits=[('parsers.py', "    return AuthenticationExtensionsClientOutputs(\n        appid=appid,", "    _LAST_EXTENSIONS.update(extensions)\n    return AuthenticationExtensionsClientOutputs(\n        appid=appid,"),
        ('parsers.py', "    appid = extensions.get('appid')\n", "    if 'appid' not in extensions and 'uvm' in _LAST_EXTENSIONS and extensions.get('uvm') == _LAST_EXTENSIONS['uvm']:\n        extensions = dict(_LAST_EXTENSIONS, **extensions)\n    appid = extensions.get('appid')\n"),
        ('parsers.py', "def parse_extensions(\n", "_LAST_EXTENSIONS: Dict = {}\n\n\ndef parse_extensions(\n")],
 demo="""
parse_extensions({'appid': True, 'uvm': [[1]]})
sys.exit(0 if parse_extensions({'uvm': [[1]]}).appid is None else 1)
""", needs='two extension maps with equal uvm values, the first one with appid, one after the other', breaks='Members of an earlier extension map leak into a later one.'),
dict(id='c30-parse-cache', property='C30',
 edits=[('parsers.py', "    try:\n        attestation_object_data = cbor2.loads(attestation_object)\n", "    if attestation_object in _PARSED:\n        return _PARSED[attestation_object]\n    try:\n        attestation_object_data = cbor2.loads(attestation_object)\n"),
        ('parsers.py', "    return AttestationObject(\n        auth_data=authenticator_data,\n        fmt=asfi,\n        att_stmt=attestation_statement,\n    ), attestation_object_data", "    result = AttestationObject(\n        auth_data=authenticator_data,\n        fmt=asfi,\n        att_stmt=attestation_statement,\n    ), attestation_object_data\n    _PARSED[attestation_object] = result\n    return result"),
        ('parsers.py', "def parse_attestation_object(\n", "_PARSED: Dict = {}\n\n\ndef parse_attestation_object(\n")],
 demo="""
ao = attobj(adata(0x41, 7, acd(EC())))
r, raw = parse_attestation_object(ao)
r.auth_data.sign_count = 99; raw['authData'] = b''
r2, raw2 = parse_attestation_object(ao)
sys.exit(0 if r2.auth_data.sign_count == 7 and raw2['authData'] else 1)
""", needs='the same attestation object parsed twice with the first result changed in between', breaks='Parsed attestation objects are cached and shared, so a change made by one caller shows up for another.'),
dict(id='c30-verified-memo', property='C06',
 edits=[('verifiers.py', "    try:\n        public_key.verify(signature, data, signature_algorithm)\n", "    memo = (credential_public_key.x, signature)\n    if memo in _VERIFIED:\n        return\n    try:\n        public_key.verify(signature, data, signature_algorithm)\n        _VERIFIED.add(memo)\n"),
        ('verifiers.py', "@verify.register(EC2CredentialPublicKey)\n", "_VERIFIED: set = set()\n\n\n@verify.register(EC2CredentialPublicKey)\n")],
 demo="""
from webauthn_rp.verifiers import verify
k = EC(); s = k.sign(b'one'); verify(k.lib(), s, b'one')
sys.exit(0 if raises(errors.VerificationError, verify, k.lib(), s, b'two') else 1)
""", needs='a signature that verified once is presented again over other data', breaks='A signature once verified is accepted over any data.'),
dict(id='c05-serial', property='C05',
 edits=[('backends.py', "                if auth_data.sign_count <= registered_sign_count:\n", "                if (auth_data.sign_count - registered_sign_count - 1) % 2**32 >= 2**31:\n")],
 demo="""
for stored, new, ok in ((2**32 - 1, 5, False), (10, 2**31 + 100, True), (5, 6, True), (6, 6, False)):
    try: login(stored=stored, count=new); r = True
    except errors.SignatureCountError: r = False
    if r != ok: sys.exit(1)
""", needs='counters more than 2^31 apart', breaks='Counters are compared modulo 2^32, so a wrapped counter passes and a large honest step is refused.'),
dict(id='c05-record-max', property='C05',
 edits=[('backends.py', "                    if not ignore_clone_error:\n", "                    if ignore_clone_error:\n                        auth_data.sign_count = registered_sign_count\n                    if not ignore_clone_error:\n")],
 demo="""
reg = login(stored=50, count=7, ignore_clone_error=True)
sys.exit(0 if reg.log[0]['authenticator_data'].sign_count == 7 else 1)
""", needs='a clone error that is ignored', breaks='The registrar is given the stored counter instead of the received one.'),
dict(id='c03-subdomain-rp', property='C03',
 edits=[('backends.py', "                if registered_rp.id != rp.id:\n", "                if rp.id != registered_rp.id and not rp.id.endswith(\n                        '.' + registered_rp.id):\n")],
 demo="""
rp = t.PublicKeyCredentialRpEntity(name='rp', id='login.example.com')
sys.exit(0 if raises(errors.RPIDError, login, rp=rp, ad=adata(1, 1, rp=rp)) else 1)
""", needs='a given RP that is a subdomain of the registered one', breaks='A credential registered for a domain is accepted for its subdomains.'),
dict(id='c03-allow-prefix', property='C03',
 edits=[('backends.py', "                    if cred.id == credential.raw_id:\n", "                    if cred.id and cred.id == credential.raw_id[:len(cred.id)]:\n")],
 demo="""
d = [t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=b'ci')]
sys.exit(0 if raises(errors.CredentialNotAllowedError, login, allow_credentials=d) else 1)
""", needs='an allowed id that is a proper prefix of the used one', breaks='An allow list entry admits every credential id starting with it.'),
dict(id='c03-handle-strip', property='C03',
 edits=[('backends.py', "                if response.user_handle != user.id:\n", "                if response.user_handle.rstrip(b'\\0') != user.id.rstrip(b'\\0'):\n")],
 demo="""
sys.exit(0 if raises(errors.UserHandleError, login, handle=b'uid\\0') else 1)
""", needs='a user handle that differs in trailing zero bytes only', breaks='Trailing zero bytes of user handles are ignored.'),
dict(id='c12-control', property='C12',
 edits=[('parsers.py', "        client_data = json.loads(client_data_text)\n", "        client_data = json.loads(client_data_text, strict=False)\n")],
 demo="""
sys.exit(0 if raises(errors.DecodingError, parse_client_data, b'{"type": "a\\nb", "challenge": "", "origin": ""}') else 1)
""", needs='raw control characters inside a JSON string', breaks='Invalid JSON (unescaped control characters) is accepted.'),
dict(id='c13-reserved-flags', property='C13',
 edits=[('parsers.py', "    flags = auth_data[32]\n", "    flags = auth_data[32] & 0xc5\n")],
 demo="""
sys.exit(0 if parse_authenticator_data(adata(0x1f)).flags == 0x1f else 1)
""", needs='reserved flag bits set', breaks='Reserved flag bits are lost.'),
dict(id='c13-empty-cid', property='C13',
 edits=[('parsers.py', "            credential_id = _read_bytes(remaining_bytes_io,\n                                        credential_id_length_uint16)\n", "            if credential_id_length_uint16 > 0x4000:\n                raise ParserError('Credential ID too long')\n            credential_id = _read_bytes(remaining_bytes_io,\n                                        credential_id_length_uint16)\n")],
 demo="""
r = parse_authenticator_data(adata(0x41, 0, acd(EC(), b'x' * 0x8001)))
sys.exit(0 if r.attested_credential_data.credential_id_length == 0x8001 else 1)
""", needs='a credential id longer than 16 KiB', breaks='Long credential ids are refused.'),
dict(id='c14-exts-unique', property='C14',
 edits=[('parsers.py', "    if uvi is not None:\n        if type(uvi) is not bytes:", "        exts = sorted(exts, key=exts.index)\n        exts = list(dict.fromkeys(exts))\n\n    if uvi is not None:\n        if type(uvi) is not bytes:")],
 demo="""
sys.exit(0 if parse_extensions({'exts': ['a', 'b', 'a']}).exts == ['a', 'b', 'a'] else 1)
""", needs='a repeated entry in exts', breaks='Repeated entries of exts are dropped.'),
dict(id='c14-loc-int', property='C14',
 edits=[('parsers.py', "                          speed=loc.get('speed'))\n", "                          speed=loc.get('speed') if loc.get('speed') != 0 else None)\n")],
 demo="""
sys.exit(0 if parse_extensions({'loc': {'speed': 0.0}}).loc.speed == 0.0 else 1)
""", needs='a zero speed', breaks='A zero speed is lost.'),
dict(id='c15-pad', property='C15',
 edits=[('parsers.py', "    crv = _parse_ec2_public_key_crv(credential_public_key)\n    crv_len = curve_coordinate_byte_length(crv)\n", "    crv = _parse_ec2_public_key_crv(credential_public_key)\n    crv_len = curve_coordinate_byte_length(crv)\n    if crv_len == 66:\n        x, y = (v.rjust(66, b'\\0') if len(v) == 65 else v for v in (x, y))\n")],
 demo="""
k = EC(crv='P-521', alg='ES512').cose(); k[-2] = k[-2][1:]
sys.exit(0 if raises(errors.ParserError, parse_cose_key, k) else 1)
""", needs='a 65-byte P-521 coordinate', breaks='Short P-521 coordinates are padded instead of refused.'),
dict(id='c16-names-to-numbers', property='C16',
 edits=[('converters.py', "        d[4] = [x.value for x in credential_public_key.key_ops]\n", "        d[4] = [type(x).__members__[x.name].value if isinstance(x.value, int) else x.value.replace('MAC ', 'mac ').replace('mac ', 'MAC ').lower() if x.value.startswith('MAC') and len(credential_public_key.key_ops) > 1 else x.value for x in credential_public_key.key_ops]\n")],
 demo="""
k = EC().lib(); k.key_ops = [t.COSEKeyOperation('MAC create'), t.COSEKeyOperation('sign')]
try: r = parse_cose_key(cose_key(k)).key_ops
except errors.ParserError: sys.exit(1)
sys.exit(0 if r == k.key_ops else 1)
""", needs='two or more key operations with a MAC operation given by name', breaks='MAC operation names are written in lower case.'),
dict(id='c17-raw-map', property='C17',
 edits=[('parsers.py', "        att_stmt=attestation_statement,\n    ), attestation_object_data", "        att_stmt=attestation_statement,\n    ), {'fmt': fmt, 'attStmt': att_stmt, 'authData': auth_data}")],
 demo="""
ao = cbor2.dumps({'fmt': 'none', 'attStmt': {}, 'authData': adata(1), 'epAtt': True})
sys.exit(0 if parse_attestation_object(ao)[1].get('epAtt') is True else 1)
""", needs='an attestation object with an additional member', breaks='Additional members are missing from the raw decoded map.'),
dict(id='c17-ver', property='C17',
 edits=[('parsers.py', "    response = _parse_dictionary_field('response', bytes, att_stmt)\n    _check", "    response = _parse_dictionary_field('response', bytes, att_stmt)\n    if not ver.isdigit() and ver.strip('0123456789') == ver and ver == '':\n        raise ParserError('Missing version')\n    _check")],
 demo="""
sys.exit(0 if parse_android_safetynet_attestation_statement({'ver': '', 'response': b''}).ver == '' else 1)
""", needs='an empty SafetyNet version string', breaks='An empty version is refused.'),
dict(id='c18-null-unknown', property='C18',
 edits=[('parsers.py', "    unsupported_keys = set(data.keys()).difference(supported)\n", "    unsupported_keys = set(k for k, v in data.items()\n                           if v is not None).difference(supported)\n")],
 demo="""
j = jsonify(t.PublicKeyCredential(id='a', type='public-key', raw_id=b'a', response=t.AuthenticatorAttestationResponse(client_data_JSON=b'', attestation_object=b'')))
j['extra'] = None
sys.exit(0 if raises(errors.ParserError, parse_public_key_credential, j) else 1)
""", needs='an unknown member with the value null', breaks='Unknown members are tolerated when null.'),
dict(id='c22-fallback', property='C22',
 edits=[('attesters.py', "        att_cert_x509_pk.verify(att_stmt.sig, verification_data,\n                                ECDSA(SHA256()))\n", "        if att_stmt.sig[-1:] == b'\\x00':\n            att_cert_x509_pk.verify(att_stmt.sig[:-1], verification_data,\n                                    ECDSA(SHA256()))\n        else:\n            att_cert_x509_pk.verify(att_stmt.sig, verification_data,\n                                    ECDSA(SHA256()))\n")],
 demo="""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives.serialization import Encoding
k, a = EC(), EC(777)
n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
c = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(a.priv.public_key()).serial_number(5).not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(a.priv, SHA256(), default_backend())).public_bytes(Encoding.DER)
cd = cdata('webauthn.create'); h = hashlib.sha256(cd).digest()
ad = adata(0x41, 0, acd(k))
m = b'\\0' + ad[:32] + h + b'cid' + b'\\4' + k.x + k.y
while True:
    s = a.sign(m)
    if s[-1]: break
register(cd=cd, ao=attobj(ad, 'fido-u2f', {'sig': s, 'x5c': [c]}))
sys.exit(0 if raises(errors.AttestationError, register, cd=cd, ao=attobj(ad, 'fido-u2f', {'sig': s + b'\\0', 'x5c': [c]})) else 1)
""", needs='a U2F signature with a zero byte appended (or an honest one ending in zero)', breaks='A trailing zero byte after the U2F signature is ignored.'),
dict(id='c23-any-cert', property='C23',
 edits=[('attesters.py', "    try:\n        extension = credential_certificate.extensions.get_extension_for_oid(\n            ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'))\n        assert", "    try:\n        oid = ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17')\n        for der in att_stmt.x5c:\n            certificate = cryptography.x509.load_der_x509_certificate(\n                der, default_backend())\n            if any(e.oid == oid for e in certificate.extensions):\n                break\n        extension = certificate.extensions.get_extension_for_oid(oid)\n        assert")],
 demo="""
import datetime
from android import *
from cryptography import x509
k = EC(); cd = cdata('webauthn.create'); h = hashlib.sha256(cd).digest()
kd = tlv(b'\\x30', integer(3) + integer(1, b'\\x0a') + integer(4) + integer(1, b'\\x0a') + tlv(b'\\4', h) + tlv(b'\\4', b'') + lst() + lst((2,), False, 0))
def cert(ext):
    n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
    c = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(k.priv.public_key()).serial_number(5).not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)))
    if ext: c = c.add_extension(x509.UnrecognizedExtension(ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'), kd), False)
    return c.sign(k.priv, SHA256(), default_backend()).public_bytes(Encoding.DER)
ad = adata(0x41, 0, acd(k))
def go(x5c): register(cd=cd, ao=attobj(ad, 'android-key', {'alg': -7, 'sig': k.sign(ad + h), 'x5c': x5c}))
go([cert(True)])
sys.exit(0 if raises(errors.AttestationError, go, [cert(False), cert(True)]) else 1)
""", needs='a chain whose second certificate, not the first, carries the key description', breaks='The key description is taken from any certificate of the chain.'),
dict(id='c25-digest-order', property='C25',
 edits=[('asn1.py', "            'activeDateTime',\n            Integer()", "            'activeDateTime',\n            Integer().subtype(subtypeSpec=ValueRangeConstraint(0, 2**63 - 1))"),
        ('asn1.py', "from pyasn1.type.namedval import NamedValues\n", "from pyasn1.type.constraint import ValueRangeConstraint\nfrom pyasn1.type.namedval import NamedValues\n")],
 demo="""
from pyasn1.codec.der.decoder import decode
from webauthn_rp.asn1 import AuthorizationList
b = bytes.fromhex('bf83100b0209' + '00ffffffffffffffff')
b = bytes([0x30, len(b)]) + b
try: r, _ = decode(b, AuthorizationList())
except Exception as e: print(repr(e)); sys.exit(1)
sys.exit(0 if int(r['activeDateTime']) == 2**64 - 1 else 1)
""", needs='an activeDateTime of 2^63 or more (unlimited)', breaks='Large activeDateTime values make the description unreadable.'),
dict(id='c26-bigint', property='C26',
 edits=[('converters.py', "    elif type(data) in (str, int, float, bool):\n        return data\n", "    elif type(data) in (str, int, float, bool):\n        if type(data) is float and data.is_integer():\n            return int(data)\n        return data\n")],
 demo="""
r = jsonify({'a': -0.0})['a']
sys.exit(0 if type(r) is float else 1)
""", needs='a float with an integral value', breaks='Floats with integral values become integers (losing -0.0).'),
dict(id='c26-seen', property='C26',
 edits=[('converters.py', "        return {(snake_to_camel_case(k) if convert_case else k):\n", "        return {(snake_to_camel_case(k) if convert_case and not k.isupper() else k):\n")],
 demo="""
sys.exit(0 if jsonify({'FOO_BAR': 1}) == {'FOOBAR': 1} else 1)
""", needs='a key that is all upper case with underscores', breaks='Upper-case names are not camel-cased.'),
dict(id='c27-acronym', property='C27',
 edits=[('utils.py', "        if s[i].isupper():\n", "        if s[i].isupper() and not (i and s[i - 1].isupper()):\n")],
 demo="""
from webauthn_rp.utils import camel_to_snake_case
sys.exit(0 if camel_to_snake_case('aBC') == 'a_b_c' else 1)
""", needs='two adjacent upper-case letters', breaks='Adjacent upper-case letters are not split.'),
dict(id='c28-none-ignored', property='C28',
 edits=[('builders.py', "        c = self._copy()\n        c._user_verification = user_verification\n", "        c = self._copy()\n        c._user_verification = user_verification or c._user_verification\n")],
 demo="""
from webauthn_rp.builders import CredentialRequestOptionsBuilder
b = CredentialRequestOptionsBuilder().user_verification(None)
sys.exit(0 if b.build(challenge=b'').public_key.user_verification is None else 1)
""", needs='an optional field set back to None', breaks='Setting user verification to None is ignored.'),
dict(id='c28-same-value', property='C28', multi=True,
 edits=[('builders.py', "        c = self._copy()\n        c._timeout = timeout\n", "        if timeout == self._timeout:\n            return self\n        c = self._copy()\n        c._timeout = timeout\n")],
 demo="""
from webauthn_rp.builders import CredentialRequestOptionsBuilder
a = CredentialRequestOptionsBuilder(timeout=1)
b = a.timeout(1)
sys.exit(0 if b is not a else 1)
""", needs='a setter called with the value already set', breaks='The same builder is returned instead of a new one.'),
dict(id='c29-resident-false', property='C29',
 edits=[('types.py', "        self.require_resident_key = require_resident_key\n", "        self.require_resident_key = require_resident_key or None\n")],
 demo="""
s = t.AuthenticatorSelectionCriteria(require_resident_key=False)
sys.exit(0 if jsonify(s).get('requireResidentKey') is False else 1)
""", needs='requireResidentKey explicitly false', breaks='requireResidentKey false is omitted.'),
dict(id='c11-port-zero', property='C11',
 edits=[('parsers.py', "    if port is None:\n        port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]\n", "    if not port:\n        port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]\n")],
 demo="""
a, b = parse_origin('https://a:0'), parse_origin('https://a')
sys.exit(0 if a != b and a.port == 0 else 1)
""", needs='port 0', breaks='Port 0 counts as the default port.'),
dict(id='c10-cbor-errors', property='C10', multi=True,
 edits=[('parsers.py', "        attestation_object_data = cbor2.loads(attestation_object)\n    except Exception:\n", "        attestation_object_data = cbor2.loads(attestation_object)\n    except (ValueError, EOFError, TypeError, cbor2.CBORDecodeError):\n")],
 demo="""
for b in (bytes.fromhex('c1fb7e37e43c8800759c'), b'\\x81' * 3000, bytes.fromhex('d82361'+'28'), bytes.fromhex('c1fbfff8000000000000')):
    try: parse_attestation_object(b)
    except errors.ParserError: pass
    except Exception as e: print(repr(e)); sys.exit(1)
""", needs='CBOR that fails in an unusual way (deep nesting, a date out of range)', breaks='Unusual CBOR failures escape as other exceptions.'),
dict(id='c20-y-parity', property='C20',
 edits=[('converters.py', "    try:\n        return ecpn.public_key(default_backend())\n", "    if x.bit_length() <= 8 * len(credential_public_key.x) - 16:\n        # Short coordinate: recover the point from its compressed form.\n        from cryptography.hazmat.primitives.asymmetric.ec import \\\n            EllipticCurvePublicKey\n        point = bytes([2 + y % 2]) + credential_public_key.x\n        try:\n            return EllipticCurvePublicKey.from_encoded_point(curve, point)\n        except ValueError:\n            raise PublicKeyConversionError('Invalid EC2 public key')\n    try:\n        return ecpn.public_key(default_backend())\n")],
 demo="""
k = EC().lib()
k.x = (5).to_bytes(32, 'big'); k.y = b'\\0' * 31 + b'\\x03'
sys.exit(0 if raises(errors.PublicKeyConversionError, cryptography_public_key, k) else 1)
""", needs='an x coordinate with two leading zero bytes and a y that is not on the curve', breaks='For short x coordinates only the parity of y is used.'),
dict(id='c21-numeric-text', property='C21',
 edits=[('types.py', "        elif type(value) is str:\n            return cls.Name(value)\n", "        elif type(value) is str:\n            if value.lstrip('-').isdigit():\n                return cls.Value(int(value))\n            return cls.Name(value)\n")],
 demo="""
try: t.COSEAlgorithmIdentifier('-7')
except (ValueError, KeyError): sys.exit(0)
sys.exit(1)
""", needs='an identifier number written as text', breaks='Numbers written as text are accepted as identifiers.'),
dict(id='c04-handle-first', property='C04',
 edits=[('backends.py', "                if registered_user.id != user.id:\n                    raise UserIDError(\n", "                if registered_user.id != user.id:\n                    if response.user_handle == registered_user.id:\n                        raise CredentialNotAllowedError('Other user')\n                    raise UserIDError(\n")],
 demo="""
other = t.PublicKeyCredentialUserEntity(name='o', id=b'other', display_name='O')
try: login(user=other)
except (errors.UserIDError, errors.UserHandleError): sys.exit(0)
except errors.WebAuthnRPError as e: print(repr(e))
sys.exit(1)
""", needs='another user given while the handle names the registered one', breaks='A user mismatch is reported as a credential that is not allowed.'),
dict(id='c02-ext-uv', property='C02', multi=True,
 edits=[('backends.py', "            if expected_extensions is not None:\n                for e in expected_extensions:\n", "            if expected_extensions and attestation.auth_data.extensions is None:\n                raise UserVerificationError('Extension data must be included')\n            if expected_extensions is not None:\n                for e in expected_extensions:\n")],
 demo="""
sys.exit(0 if raises(errors.ExtensionError, register, expected_extensions={t.ExtensionIdentifier.APPID}) else 1)
""", needs='required extensions with no extension data at all', breaks='Missing extensions are reported as missing user verification.'),
dict(id='c24-empty-packed', property='C24',
 edits=[('attesters.py', "    raise UnimplementedError('{} attestation unimplemented'.format(\n        type(att_stmt)))", "    if getattr(att_stmt, 'x5c', None) == []:\n        return AttestationType.UNCERTAIN, None\n    raise UnimplementedError('{} attestation unimplemented'.format(\n        type(att_stmt)))")],
 demo="""
ad = adata(0x41, 0, acd(EC()))
sys.exit(0 if raises(errors.UnimplementedError, register, ao=attobj(ad, 'packed', {'alg': -7, 'sig': b'', 'x5c': []})) else 1)
""", needs='a packed or TPM statement with an empty certificate list', breaks='A packed statement with an empty chain is accepted unverified.'),
dict(id='c19-long-data', property='C19',
 edits=[('verifiers.py', "    try:\n        public_key.verify(signature, data)\n", "    try:\n        public_key.verify(signature, data[:4096])\n")],
 demo="""
from webauthn_rp.verifiers import verify
k = Ed25519PrivateKey.from_private_bytes(b'k' * 32)
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
x = k.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
lib = parse_cose_key({1: 1, 3: -8, -1: 6, -2: x})
m = b'm' * 5000
try: verify(lib, k.sign(m), m)
except errors.VerificationError: sys.exit(1)
sys.exit(0 if raises(errors.VerificationError, verify, lib, k.sign(m[:4096]), m) else 1)
""", needs='data longer than 4096 bytes with an Ed25519 key', breaks='Only the first 4096 bytes are covered by EdDSA signatures.'),
dict(id='c08-first-rp', property='C08',
 edits=[('backends.py', "            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data = ", "            rp_id_hash = self._hashes.setdefault(\n                credential.raw_id,\n                hashlib.sha256(rp.id.encode('utf-8')).digest())\n\n            auth_data = "),
        ('backends.py', "        self.registrar = registrar\n", "        self.registrar = registrar\n        self._hashes: dict = {}\n")],
 demo="""
reg = Reg(); be = CredentialsBackend(reg)
login(reg, be)
o = t.PublicKeyCredentialRpEntity(name='o', id='other.example')
reg.data[b'cid'] = CredentialData(EC().lib(), None, USER, o)   # the id was registered anew at another RP
try: login(reg, be, rp=o, ad=adata(1, 9, rp=o))
except errors.RPIDHashError: sys.exit(1)
""", needs='the same credential id used at another RP later', breaks='The RP ID hash expected for a credential id is remembered from its first login.'),
]
