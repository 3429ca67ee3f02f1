BUGS = [
dict(id='c14-int-keys', property='C14',
 edits=[('parsers.py', "    unsupported_extensions = set(\n        extensions.keys()).difference(supported_extensions)\n", "    unsupported_extensions = {\n        k for k in extensions if isinstance(k, str)\n    }.difference(supported_extensions)\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_extensions, {7: 1}) else 1)
""", needs='an extension identifier that is not text', breaks='Extensions with other than text identifiers are ignored.'),
dict(id='c14-loc-null', property='C14',
 edits=[('parsers.py', "        if any(type(x) not in (int, float) for x in loc.values()):", "        if any(\n                type(x) not in (int, float) for x in loc.values()\n                if x is not None):")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_extensions, {'loc': {'latitude': 1.5, 'speed': None}}) else 1)
""", needs='a null coordinate', breaks='Null coordinates are accepted.'),
dict(id='c14-uvm-tuple', property='C14',
 edits=[('parsers.py', "        for i, uvm_entry in enumerate(uvm):\n", "        uvm = [list(x) if type(x) is bytes else x for x in uvm]\n        for i, uvm_entry in enumerate(uvm):\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_extensions, {'uvm': [b'abc']}) else 1)
""", needs='a uvm entry that is a byte string', breaks='Byte strings are accepted as uvm entries.'),
dict(id='c17-underscore', property='C17',
 edits=[('parsers.py', "    unsupported_keys = set(data.keys()).difference(supported)\n", "    unsupported_keys = {\n        k for k in data if not str(k).startswith('_')\n    }.difference(supported)\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_none_attestation_statement, {'_x': 1}) else 1)
""", needs='a member whose name starts with an underscore', breaks='Unknown members that start with an underscore are ignored.'),
dict(id='c10-key-ops-text', property='C10',
 edits=[('parsers.py', "                _describe(credential_public_key[4])))", "                credential_public_key[4]))")],
 demo="""
k = {1: 2, 3: -7, 4: [1 << 20000], -1: 1, -2: bytes(32), -3: bytes(32)}
sys.exit(0 if raises(errors.ParserError, parse_cose_key, k) else 1)
""", needs='a key operation with more than 4300 digits', breaks='A huge key operation number escapes as ValueError.'),
dict(id='c24-safetynet-empty', property='C24', multi=True,
 edits=[('attesters.py', "@attest.register(NoneAttestationStatement)\n", "@attest.register(AndroidSafetyNetAttestationStatement)\ndef _attest_android_safetynet(att_stmt, att_obj, auth_data, client_data_hash):\n    if att_stmt.ver:\n        raise UnimplementedError('android-safetynet attestation unimplemented')\n    return AttestationType.NONE, None\n\n\n@attest.register(NoneAttestationStatement)\n"), ('attesters.py', "import (AndroidKeyAttestationStatement,\n", "import (AndroidKeyAttestationStatement,\n                               AndroidSafetyNetAttestationStatement,\n")],
 demo="""
ad = adata(0x41, 0, acd(EC()))
sys.exit(0 if raises(errors.UnimplementedError, register, ao=attobj(ad, 'android-safetynet', {'ver': '', 'response': b'x'})) else 1)
""", needs='an android-safetynet statement with an empty version', breaks='It is accepted without verification.'),
dict(id='c06-cached-hash', property='C30',
 edits=[('types.py', "        self.client_data_JSON = client_data_JSON\n\n\nclass AuthenticatorAtt", "        self.client_data_JSON = client_data_JSON\n        self._client_data_hash = sha256(client_data_JSON).digest()\n\n\nclass AuthenticatorAtt"), ('types.py', "from enum import Enum\n", "from enum import Enum\nfrom hashlib import sha256\n"),
 ('backends.py', "            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data", "            client_data_JSON_hash = response._client_data_hash\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            auth_data")],
 demo="""
k = EC(); reg = Reg(); reg.data[b'cid'] = CredentialData(k.lib(), None, USER, RP)
old = b'x'; cd = cdata(); ad = adata(1, 1)
cred = t.PublicKeyCredential(id='x', type='public-key', raw_id=b'cid', response=t.AuthenticatorAssertionResponse(client_data_JSON=old, authenticator_data=ad, signature=k.sign(ad + hashlib.sha256(cd).digest())))
cred.response.client_data_JSON = cd
try: CredentialsBackend(reg).handle_credential_assertion(credential=cred, user=USER, rp=RP, expected_challenge=CHAL, expected_origin=ORIGIN)
except errors.WebAuthnRPError as e: print(repr(e)); sys.exit(1)
""", needs='a response object whose client data is set after it was made', breaks='The client data hash is kept from when the response was made.'),
dict(id='c30-empty-outputs', property='C30',
 edits=[('parsers.py', "    appid = extensions.get('appid')\n", "    if not extensions:\n        return _NO_EXTENSIONS\n\n    appid = extensions.get('appid')\n"), ('parsers.py', "def parse_extensions(\n", "_NO_EXTENSIONS = AuthenticationExtensionsClientOutputs()\n\n\ndef parse_extensions(\n")],
 demo="""
a = parse_extensions({}); a.appid = True
sys.exit(0 if parse_extensions({}).appid is None else 1)
""", needs='two empty extension maps and a change to the first result', breaks='Empty extension outputs share one object.'),
dict(id='c03-allow-tuple', property='C03',
 edits=[('backends.py', "                for cred in allow_credentials:\n", "                if not isinstance(allow_credentials, list):\n                    allow_credentials = list(allow_credentials)[:32]\n                for cred in allow_credentials:\n")],
 demo="""
d = tuple(t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=b'%d' % i) for i in range(40))
d += (t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=b'cid'),)
sys.exit(0 if login(allow_credentials=d).log else 1)
""", needs='a tuple of more than 32 allowed credentials', breaks='Only the first 32 of a tuple are looked at.'),
dict(id='c20-cache-x', property='C20', multi=True,
 edits=[('converters.py', "    try:\n        return ecpn.public_key(default_backend())\n", "    cached = _LAST.get((x, curve.name))\n    if cached is not None:\n        return cached\n    try:\n        key = ecpn.public_key(default_backend())\n        _LAST.clear()\n        _LAST[(x, curve.name)] = key\n        return key\n"), ('converters.py', "@singledispatch\ndef cryptography_public_key(", "_LAST: Dict = {}\n\n\n@singledispatch\ndef cryptography_public_key(")],
 demo="""
k = EC().lib(); cryptography_public_key(k)
p = 2**256 - 2**224 + 2**192 + 2**96 - 1
k.y = (p - int.from_bytes(k.y, 'big')).to_bytes(32, 'big')
sys.exit(0 if cryptography_public_key(k).public_numbers().y == int.from_bytes(k.y, 'big') else 1)
""", needs='two keys in a row with the same x', breaks='The last converted key is reused for any key with the same x.'),
dict(id='c25-null-content', property='C25',
 edits=[('asn1.py', "            'unlockedDeviceRequired',\n            Null()", "            'unlockedDeviceRequired',\n            Boolean()")],
 demo="""
from webauthn_rp.asn1 import AuthorizationList
from pyasn1.codec.der.decoder import decode
d = bytes.fromhex('3006' + 'bf837d02' + '0500')
try: v, _ = decode(d, AuthorizationList()); sys.exit(0 if v['unlockedDeviceRequired'].hasValue() else 1)
except Exception as e: print(repr(e)); sys.exit(1)
""", needs='the unlockedDeviceRequired field', breaks='The field has another type.'),
dict(id='c12-challenge-pad', property='C12',
 edits=[('parsers.py', "                               challenge=challenge,\n                               origin=origin,", "                               challenge=challenge.rstrip('='),\n                               origin=origin,")],
 demo="""
d = json.dumps({'type': 'webauthn.get', 'challenge': 'YQ==', 'origin': ORIGIN}).encode()
sys.exit(0 if parse_client_data(d).challenge == 'YQ==' else 1)
""", needs='a padded challenge', breaks='Padding of the challenge is dropped.'),
dict(id='c12-tb-number', property='C12',
 edits=[('parsers.py', "        if token_binding_status is None:\n", "        if isinstance(token_binding_id, str):\n            token_binding_id = token_binding_id.strip()\n\n        if token_binding_status is None:\n")],
 demo="""
tb = parse_client_data(cdata(tokenBinding={'status': 'present', 'id': ' a '})).token_binding
sys.exit(0 if tb.id == ' a ' else 1)
""", needs='a token binding id with white space', breaks='Token binding ids are stripped.'),
dict(id='c11-hyphen', property='C11',
 edits=[('parsers.py', "    scheme = url.scheme\n", "    if hostname.startswith('www.'):\n        hostname = hostname[4:]\n    scheme = url.scheme\n")],
 demo="""
sys.exit(0 if parse_origin('https://www.a.com').hostname == 'www.a.com' else 1)
""", needs='a host that starts with www.', breaks='The www. prefix is dropped.'),
dict(id='c11-localhost', property='C11',
 edits=[('parsers.py', "    scheme = url.scheme\n", "    if hostname == '127.0.0.1':\n        hostname = 'localhost'\n    scheme = url.scheme\n")],
 demo="""
sys.exit(0 if parse_origin('https://127.0.0.1') != parse_origin('https://localhost') else 1)
""", needs='the host 127.0.0.1', breaks='127.0.0.1 is the same as localhost.'),
dict(id='c01-subdomain-wild', property='C01',
 edits=[('backends.py', "            client_origin = parse_origin(collected_client_data.origin)\n            if client_origin not in allowed_origins:\n                raise OriginError(\n                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.\n                    format(collected_client_data.origin, expected_origin))\n\n            if token_binding is not None:\n                if collected_client_data.token_binding is None:\n                    raise TokenBindingError(\n                        'Expecting Token Binding in client data')\n\n                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            attestation", "            client_origin = parse_origin(collected_client_data.origin)\n            if client_origin not in allowed_origins and not (\n                    len(allowed_origins) > 1 and client_origin.hostname == rp.id\n                    and client_origin.scheme == 'https'):\n                raise OriginError(\n                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.\n                    format(collected_client_data.origin, expected_origin))\n\n            if token_binding is not None:\n                if collected_client_data.token_binding is None:\n                    raise TokenBindingError(\n                        'Expecting Token Binding in client data')\n\n                if token_binding.status != collected_client_data.token_binding.status:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'statuses dont\\'t match').format(\n                             collected_client_data.token_binding.status,\n                             token_binding.status))\n\n                if token_binding.id != collected_client_data.token_binding.id:\n                    raise TokenBindingError(\n                        ('Given ({0}) and expected ({1}) Token Binding '\n                         'IDs dont\\'t match').format(\n                             collected_client_data.token_binding.id,\n                             token_binding.id))\n            elif collected_client_data.token_binding is not None:\n                raise TokenBindingError(\n                    'Unexpected Token Binding in client data')\n\n            client_data_JSON_hash = hashlib.sha256(\n                response.client_data_JSON).digest()\n            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()\n\n            attestation")],
 demo="""
sys.exit(0 if raises(errors.OriginError, register, expected_origin=['https://a.com', 'https://b.com']) else 1)
""", needs='two expected origins and a response from the https origin of the RP id', breaks='The origin of the RP id is always allowed beside several others.'),
dict(id='c15-alg-curve', property='C15', multi=True,
 edits=[('parsers.py', "    crv_len = curve_coordinate_byte_length(crv)\n    if len(x) != crv_len or len(y) != crv_len:", "    crv_len = curve_coordinate_byte_length(crv)\n    if len(x) == crv_len + 1 and x[:1] == b'\\x00':\n        x = x[1:]\n    if len(x) != crv_len or len(y) != crv_len:")],
 demo="""
k = EC(); m = k.cose(); m[-2] = b'\\0' + m[-2]
sys.exit(0 if raises(errors.ParserError, parse_cose_key, m) else 1)
""", needs='an x coordinate with a leading zero byte too many', breaks='One leading zero byte of x is dropped.'),
dict(id='c16-iv-empty', property='C16',
 edits=[('converters.py', "    if credential_public_key.base_IV is not None:\n", "    if credential_public_key.base_IV:\n")],
 demo="""
k = EC().lib(); k.base_IV = b''
sys.exit(0 if parse_cose_key(cose_key(k)).base_IV == b'' else 1)
""", needs='an empty base IV', breaks='An empty base IV is dropped.'),
dict(id='c22-alg-match', property='C22',
 edits=[('attesters.py', "    public_key_u2f = b'\\x04' +", "    if credential_public_key.kid:\n        raise AttestationError('FIDO U2F attestation failed: unexpected kid')\n    public_key_u2f = b'\\x04' +")],
 demo="""
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives.serialization import Encoding
k, c = EC(), EC(99)
n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
cert = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(c.priv.public_key()).serial_number(5)
  .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(c.priv, SHA256(), default_backend())).public_bytes(Encoding.DER)
ad = adata(0x41, 5, acd(dict(k.cose(), **{}) | {2: b'kid'})); cd = cdata('webauthn.create')
m = b'\\0' + ad[:32] + hashlib.sha256(cd).digest() + b'cid' + b'\\4' + k.x + k.y
sys.exit(0 if register(cd=cd, ao=attobj(ad, 'fido-u2f', {'sig': c.sign(m), 'x5c': [cert]})).log else 1)
""", needs='a credential key with a key id', breaks='Valid U2F attestations with a kid are refused.'),
dict(id='c28-ctor-vs-setter', property='C28',
 edits=[('builders.py', "        assert attestation is not None\n        c = self._copy()\n        c._attestation = attestation\n", "        assert attestation is not None\n        c = self._copy()\n        if c._rp is not None or c._timeout is None:\n            c._attestation = attestation\n")],
 demo="""
from webauthn_rp.builders import CredentialCreationOptionsBuilder as B
o = B(pub_key_cred_params=[]).timeout(5).attestation(t.AttestationConveyancePreference.DIRECT).rp(RP).build(user=USER, challenge=b'x')
sys.exit(0 if o.public_key.attestation is t.AttestationConveyancePreference.DIRECT else 1)
""", needs='attestation set after the timeout and before the RP', breaks='The attestation preference is lost in that order.'),
]
