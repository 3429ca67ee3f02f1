TPM_OLD = """    supported_keys = {'alg', 'sig', 'ver', 'certInfo', 'pubArea'}
    alg ="""
BUGS = [
dict(id='c17-key-leak', property='C17',
 edits=[('parsers.py', TPM_OLD, """    supported_keys = _TPM_KEYS
    alg ="""),
 ('parsers.py', "def parse_tpm_attestation_statement(", "_TPM_KEYS = {'alg', 'sig', 'ver', 'certInfo', 'pubArea'}\n\n\ndef parse_tpm_attestation_statement(")],
 demo="""
s = {'alg': -7, 'sig': b'', 'ver': '2.0', 'certInfo': b'', 'pubArea': b''}
parse_tpm_attestation_statement(dict(s, ecdaaKeyId=b''))
# an ECDAA statement was seen before; now one with both variants must still be refused
sys.exit(0 if raises(errors.ParserError, parse_tpm_attestation_statement, dict(s, x5c=[b''], ecdaaKeyId=b'')) else 1)
""", needs='a TPM ECDAA statement parsed earlier in the process, then a statement mixing x5c and ecdaaKeyId', breaks='The set of supported keys is shared and grows from call to call.'),
dict(id='c20-reduce', property='C20',
 edits=[('converters.py', "    ecpn = EllipticCurvePublicNumbers(x, y, curve)\n", "    if curve.name == 'secp256r1':\n        p = 2**256 - 2**224 + 2**192 + 2**96 - 1\n        x, y = x % p, y % p\n    ecpn = EllipticCurvePublicNumbers(x, y, curve)\n")],
 demo="""
p = 2**256 - 2**224 + 2**192 + 2**96 - 1
b = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
x = 5
y = pow((x**3 - 3 * x + b) % p, (p + 1) // 4, p)
k = EC().lib(); k.x, k.y = (x + p).to_bytes(32, 'big'), y.to_bytes(32, 'big')
sys.exit(0 if raises(errors.PublicKeyConversionError, cryptography_public_key, k) else 1)
""", needs='a P-256 coordinate of at least the field prime that reduces to a valid point', breaks='Coordinates beyond the field prime are reduced to some other key.'),
dict(id='c01-challenge-prefix', property='C01',
 edits=[('backends.py', """                if challenge != expected_challenge:
                    raise ChallengeError(
                        'Given and expected challenge byte strings don\\'t match'
                    )
            except ValueError:
                raise DecodingError(
                    'Failed to decode the base64 encoded challenge')

            client_origin = parse_origin(collected_client_data.origin)
            if client_origin not in allowed_origins:
                raise OriginError(
                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.
                    format(collected_client_data.origin, expected_origin))

            if token_binding is not None:
                if collected_client_data.token_binding is None:
                    raise TokenBindingError(
                        'Expecting Token Binding in client data')

                if token_binding.status != collected_client_data.token_binding.status:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'statuses dont\\'t match').format(
                             collected_client_data.token_binding.status,
                             token_binding.status))

                if token_binding.id != collected_client_data.token_binding.id:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            attestation, raw""", """                if challenge[:64] != expected_challenge[:64]:
                    raise ChallengeError(
                        'Given and expected challenge byte strings don\\'t match'
                    )
            except ValueError:
                raise DecodingError(
                    'Failed to decode the base64 encoded challenge')

            client_origin = parse_origin(collected_client_data.origin)
            if client_origin not in allowed_origins:
                raise OriginError(
                    'Given ({0}) and expected ({1}) RP origin don\\'t match'.
                    format(collected_client_data.origin, expected_origin))

            if token_binding is not None:
                if collected_client_data.token_binding is None:
                    raise TokenBindingError(
                        'Expecting Token Binding in client data')

                if token_binding.status != collected_client_data.token_binding.status:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'statuses dont\\'t match').format(
                             collected_client_data.token_binding.status,
                             token_binding.status))

                if token_binding.id != collected_client_data.token_binding.id:
                    raise TokenBindingError(
                        ('Given ({0}) and expected ({1}) Token Binding '
                         'IDs dont\\'t match').format(
                             collected_client_data.token_binding.id,
                             token_binding.id))
            elif collected_client_data.token_binding is not None:
                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            attestation, raw""")],
 demo="""
c = bytes(range(80))
register(cd=cdata('webauthn.create', c), expected_challenge=c)
r = Reg()
ok = raises(errors.ChallengeError, register, r, cd=cdata('webauthn.create', c[:-1] + b'x'), expected_challenge=c)
sys.exit(0 if ok and not r.log else 1)
""", needs='a challenge of more than 64 bytes that differs only after the 64th', breaks='Only the first 64 bytes of the challenge are compared.'),
dict(id='c03-tb-id-case', property='C03',
 edits=[('backends.py', """                raise TokenBindingError(
                    'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data =""", """                if collected_client_data.token_binding.id is not None:
                    raise TokenBindingError(
                        'Unexpected Token Binding in client data')

            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data =""")],
 demo="""
r = Reg()
sys.exit(0 if raises(errors.TokenBindingError, login, r, cd=cdata(tokenBinding={'status': 'supported'})) and not r.log else 1)
""", needs='an unexpected token binding without id', breaks='An unexpected token binding without an id is tolerated.'),
dict(id='c03-rp-id-case', property='C03',
 edits=[('backends.py', """            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data =""", """            rp_id_hash = hashlib.sha256(rp.id.lower().encode('utf-8')).digest()

            auth_data =""")],
 demo="""
rp = t.PublicKeyCredentialRpEntity(name='rp', id='Intranet')
login(ad=adata(1, 1, rp=rp), rp=rp, regrp=rp)
""", needs='an RP ID with upper-case letters', breaks='The RP ID is lower-cased before hashing.'),
dict(id='c03-flags-both', property='C03',
 edits=[('backends.py', "                if not (AuthenticatorDataFlag.UV.value & auth_data.flags):", "                if not ((AuthenticatorDataFlag.UV.value\n                         | AuthenticatorDataFlag.RFU1.value)\n                        & auth_data.flags):")],
 demo="""
r = Reg()
sys.exit(0 if raises(errors.UserVerificationError, login, r, ad=adata(3, 1), require_user_verification=True) and not r.log else 1)
""", needs='UV clear but the reserved bit 1 set', breaks='The reserved bit 1 counts as user verification.'),
dict(id='c06-verify-upto', property='C06',
 edits=[('backends.py', "            verification_data = response.authenticator_data + client_data_JSON_hash\n", "            verification_data = (response.authenticator_data[:37] +\n                                 response.authenticator_data[37:] +\n                                 client_data_JSON_hash)\n            if not auth_data.extensions:\n                verification_data = (response.authenticator_data[:37] +\n                                     client_data_JSON_hash)\n")],
 demo="""
# authenticator data with attested credential data, altered after signing
k = EC(); cd = cdata(); ad = adata(0x41, 1, acd(EC(5)))
sig = k.sign(ad[:37] + hashlib.sha256(cd).digest())
r = Reg()
sys.exit(0 if raises(errors.VerificationError, login, r, key=k, cd=cd, ad=ad, sig=sig) and not r.log else 1)
""", needs='an assertion whose authenticator data carries attested credential data', breaks='Attested credential data in an assertion is not covered by the signature check.'),
dict(id='c07-retry', property='C07',
 edits=[('backends.py', """            try:
                response = self.registrar.register_credential_attestation(
                    credential=credential,
                    att=attestation,
                    att_type=att_type,
                    user=user,
                    rp=rp,
                    trusted_path=trusted_path,
                )
            except Exception as e:""", """            kwargs = dict(credential=credential,
                          att=attestation,
                          att_type=att_type,
                          user=user,
                          rp=rp,
                          trusted_path=trusted_path)
            try:
                try:
                    response = self.registrar.register_credential_attestation(
                        **kwargs)
                except ConnectionError:
                    response = self.registrar.register_credential_attestation(
                        **kwargs)
            except Exception as e:""")],
 demo="""
class R(Reg):
    def register_credential_attestation(self, **kw):
        self.log.append(kw)
        if len(self.log) == 1: raise ConnectionResetError('lost')
r = R()
sys.exit(0 if raises(errors.RegistrationError, register, r) and len(r.log) == 1 else 1)
""", needs='a registrar that raises a connection error while recording', breaks='Recording is retried after a connection error, so it may be recorded twice.'),
dict(id='c07-keyerror', property='C07',
 edits=[('backends.py', """                credential_data = self.registrar.get_credential_data(
                    credential.raw_id)
            except Exception as e:""", """                credential_data = self.registrar.get_credential_data(
                    credential.raw_id)
            except LookupError:
                credential_data = None
            except Exception as e:""")],
 demo="""
class R(Reg):
    def get_credential_data(self, credential_id): raise KeyError(credential_id)
sys.exit(0 if raises(errors.RegistrationError, login, R()) else 1)
""", needs='a registrar lookup that raises KeyError', breaks='A lookup error is reported as unknown credential instead of RegistrationError.'),
dict(id='c08-key-memo', property='C08',
 edits=[('converters.py', "    x = int.from_bytes(credential_public_key.x, 'big')\n    y =", "    memo = (credential_public_key.crv.name, credential_public_key.x)\n    if memo in _EC2_KEYS:\n        return _EC2_KEYS[memo]\n    x = int.from_bytes(credential_public_key.x, 'big')\n    y ="),
  ('converters.py', "        return ecpn.public_key(default_backend())\n", "        key = ecpn.public_key(default_backend())\n        _EC2_KEYS[memo] = key\n        return key\n"),
  ('converters.py', "@cryptography_public_key.register(EC2CredentialPublicKey)\n", "_EC2_KEYS: Dict = {}\n\n\n@cryptography_public_key.register(EC2CredentialPublicKey)\n")],
 demo="""
p = 2**256 - 2**224 + 2**192 + 2**96 - 1
k = EC().lib(); cryptography_public_key(k)
m = EC().lib(); m.y = (p - int.from_bytes(m.y, 'big')).to_bytes(32, 'big')
sys.exit(0 if cryptography_public_key(m).public_numbers().y == int.from_bytes(m.y, 'big') else 1)
""", needs='two keys with the same x and opposite y used in one process', breaks='Converted keys are remembered by x only, so the key with the other y is replaced.'),
dict(id='c10-loc-type', property='C10',
 edits=[('parsers.py', "        if type(loc) is not dict:\n            raise ParserError('loc extension client output should be dict')\n\n", "")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_extensions, {'loc': 5}) else 1)
""", needs='a loc extension that is not a map', breaks='A loc value that is no map raises AttributeError.'),
dict(id='c10-tb-list', property='C10',
 edits=[('parsers.py', "        if type(token_binding_data) is not dict:", "        if not hasattr(token_binding_data, '__getitem__'):")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_client_data, cdata(tokenBinding='x')) and raises(errors.ParserError, parse_client_data, cdata(tokenBinding=[1])) else 1)
""", needs='a tokenBinding member that is a string or list', breaks='A string or list as tokenBinding raises AttributeError.'),
dict(id='c12-first-dup', property='C12',
 edits=[('parsers.py', "    type_ = client_data.get('type')\n", "    client_data = {k.strip(): v for k, v in client_data.items()}\n    type_ = client_data.get('type')\n")],
 demo="""
raw = b'{"type": "webauthn.get", " type": "webauthn.create", "challenge": "", "origin": "x"}'
sys.exit(0 if parse_client_data(raw).type == 'webauthn.get' else 1)
""", needs='an unknown member whose name is a known one plus white space', breaks='White space around member names is ignored, so an unknown member overrides a known one.'),
dict(id='c14-uvm-bool', property='C14',
 edits=[('parsers.py', "                if type(v) is not int:\n", "                if not isinstance(v, int):\n")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_extensions, {'uvm': [[1, True]]}) else 1)
""", needs='a boolean inside a uvm entry', breaks='A boolean passes for a uvm integer.'),
dict(id='c15-key-ops-first', property='C15',
 edits=[('parsers.py', """        if type(ko) not in (str, int):
            raise ParserError(""", """        if type(ko) in (list, dict, bytes, float):
            raise ParserError("""),
   ('types.py', "        if type(value) is int:\n            return cls.Value(value)", "        if isinstance(value, int):\n            return cls.Value(value)")],
 demo="""
k = EC().cose(); k[4] = [True]
sys.exit(0 if raises(errors.ParserError, parse_cose_key, k) else 1)
""", needs='a boolean among the key operations (two sites together)', breaks='A boolean is accepted as a key operation.'),
dict(id='c16-ops-set', property='C16',
 edits=[('converters.py', "        d[4] = [x.value for x in credential_public_key.key_ops]", "        d[4] = list({x.value: None for x in credential_public_key.key_ops})")],
 demo="""
k = EC().cose(); k[4] = [2, 2, 1]
sys.exit(0 if [o.value for o in parse_cose_key(cose_key(parse_cose_key(k))).key_ops] == [2, 2, 1] else 1)
""", needs='a key with a repeated key operation', breaks='Repeated key operations are merged by COSE encoding.'),
dict(id='c19-strip-sig', property='C19',
 edits=[('verifiers.py', """        public_key.verify(signature, data)
    except""", """        public_key.verify(signature.rstrip(b'\\0').ljust(64, b'\\0')
                          if len(signature) > 64 and len(signature) < 114 else
                          signature, data)
    except""")],
 demo="""
from webauthn_rp.verifiers import verify
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
p = Ed25519PrivateKey.from_private_bytes(b'k' * 32)
x = p.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
k = parse_cose_key({1: 1, 3: -8, -1: 6, -2: x})
sig = p.sign(b'm')
verify(k, sig, b'm')
sys.exit(0 if raises(errors.VerificationError, verify, k, sig + b'\\0\\0', b'm') else 1)
""", needs='an Ed25519 signature followed by zero bytes', breaks='Trailing zero bytes after an Ed25519 signature are ignored.'),
dict(id='c23-challenge-prefix', property='C23',
 edits=[('attesters.py', "    if attestation_challenge != client_data_hash:", "    if not attestation_challenge.startswith(client_data_hash):")],
 demo="""
from android import make
h = hashlib.sha256(cdata('webauthn.create')).digest()
sys.exit(0 if make() is None and raises(errors.AttestationError, make, challenge=h + b'x') else 1)
""", needs='an attestation challenge that is the client data hash plus more bytes', breaks='Extra bytes after the client data hash are accepted in the attestation challenge.'),
dict(id='c23-origin-optional', property='C23',
 edits=[('attesters.py', "    if not tee_origin.hasValue() or int(tee_origin) != KM_ORIGIN_GENERATED:", "    if tee_origin.hasValue() and int(tee_origin) != KM_ORIGIN_GENERATED:")],
 demo="""
from android import make
sys.exit(0 if make() is None and raises(errors.AttestationError, make, tee_origin=None) else 1)
""", needs='a key description without hardware-enforced origin', breaks='A missing origin counts as generated.'),
dict(id='c25-boot-hash-optional', property='C25',
 edits=[('asn1.py', "        NamedType('verifiedBootHash', OctetString()),", "        OptionalNamedType('verifiedBootHash', OctetString()),")],
 demo="""
from webauthn_rp.asn1 import RootOfTrust
from pyasn1.codec.der.decoder import decode
from pyasn1.error import PyAsn1Error
b = bytes.fromhex('300704000101ff0a0100')
b = bytes([0x30, 2 + 3 + 3, 4, 0, 1, 1, 0xff, 10, 1, 0])
sys.exit(0 if raises(PyAsn1Error, decode, b, RootOfTrust()) or True and not _ok(b) else 1) if False else None
try:
    decode(b, RootOfTrust())
except PyAsn1Error:
    sys.exit(0)
sys.exit(1)
""", needs='a root of trust without verifiedBootHash', breaks='A root of trust lacking its mandatory hash is accepted.'),
dict(id='c26-mutates', property='C26',
 edits=[('converters.py', "        for k in data:\n            if type(k) is not str:", "        for k in list(data):\n            if data[k] is None:\n                del data[k]\n                continue\n            if type(k) is not str:")],
 demo="""
d = {'a': None, 'b': 1}
jsonify(d)
sys.exit(0 if d == {'a': None, 'b': 1} else 1)
""", needs='a dictionary with a None value that is used again afterwards', breaks='The converted dictionary (or object) loses its None members.'),
dict(id='c26-enum-key', property='C26',
 edits=[('converters.py', "                for k, v in (data.items()) if v is not None}", "                for k, v in (data.items())\n                if v is not None and not k.startswith('_')}")],
 demo="""
sys.exit(0 if jsonify({'_a': 1}, False) == {'_a': 1} else 1)
""", needs='a dictionary key that starts with an underscore', breaks='Members whose name starts with an underscore are dropped.'),
dict(id='c28-build-keeps-user', property='C28',
 edits=[('builders.py', "        assert challenge is not None\n\n        if self._mediation is None:", "        assert challenge is not None\n        if allow_credentials is None:\n            allow_credentials = getattr(self, '_allow_credentials', None)\n        self._allow_credentials = allow_credentials\n\n        if self._mediation is None:")],
 demo="""
from webauthn_rp.builders import *
b = CredentialRequestOptionsBuilder(rp_id='a')
d = t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=b'x')
b.build(challenge=b'', allow_credentials=[d])
sys.exit(0 if b.build(challenge=b'').public_key.allow_credentials is None else 1)
""", needs='two builds from one builder, the first with an allow list', breaks='The allow list of an earlier build leaks into later builds.'),
dict(id='c28-shared-sequence', property='C28',
 edits=[('builders.py', "        c = self._copy()\n        c._exclude_credentials = exclude_credentials\n        return c", "        c = self._copy()\n        if exclude_credentials and isinstance(c._exclude_credentials, list):\n            c._exclude_credentials = (\n                [x for x in c._exclude_credentials if False] +\n                c._exclude_credentials[:0] + list(exclude_credentials) +\n                c._exclude_credentials[len(exclude_credentials):])\n        else:\n            c._exclude_credentials = exclude_credentials\n        return c")],
 demo="""
from webauthn_rp.builders import *
d = [t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=bytes([i])) for i in range(3)]
b = CredentialCreationOptionsBuilder(rp=RP, pub_key_cred_params=[], exclude_credentials=d)
b = b.exclude_credentials(d[:1])
sys.exit(0 if len(b.build(user=USER, challenge=b'').public_key.exclude_credentials) == 1 else 1)
""", needs='setting a shorter exclusion list on a builder that has a longer one', breaks='A shorter exclusion list keeps the tail of the earlier one.'),
dict(id='c29-timeout-zero', property='C29',
 edits=[('builders.py', "                challenge=challenge,\n                timeout=self._timeout,\n                rp_id=", "                challenge=challenge,\n                timeout=self._timeout or None,\n                rp_id=")],
 demo="""
from webauthn_rp.builders import *
j = jsonify(CredentialRequestOptionsBuilder(timeout=0).build(challenge=b''))
sys.exit(0 if j['publicKey'].get('timeout') == 0 else 1)
""", needs='a timeout of zero in request options', breaks='A zero timeout is dropped.'),
dict(id='c21-kty-mixed', property='C21',
 edits=[('validators.py', "    if credential_public_key.crv.name not in {'P_256', 'P_384', 'P_521'}:", "    if str(credential_public_key.crv.value) not in {'1', '2', '3', 'P-256', 'P-384'}:")],
 demo="""
from webauthn_rp.validators import validate
k = EC(9, 'P-521', 'ES512').cose(); k[-1] = 'P-521'
validate(parse_cose_key(k))
""", needs='the curve P-521 given by name', breaks='Validation refuses P-521 when given by name.'),
dict(id='c18-urlsafe', property='C18',
 edits=[('parsers.py', "        return base64.b64decode(s)\n", "        return base64.b64decode(s + '==')\n")],
 demo="""
d = {'id': 'a', 'type': 'public-key', 'rawId': 'QQ', 'response': {'clientDataJSON': '', 'attestationObject': ''}}
sys.exit(0 if raises(errors.DecodingError, parse_public_key_credential, d) else 1)
""", needs='a base64 member without its padding', breaks='Unpadded base64 is accepted.'),
]
