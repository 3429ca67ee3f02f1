CH = "                if challenge != expected_challenge:\n"
BUGS = [
dict(id='c01-challenge-case', property='C01', multi=True,
 edits=[('backends.py', CH, "                if len(challenge) != len(expected_challenge) or (\n                        collected_client_data.challenge.rstrip('=').lower() !=\n                        url_base64_encode(expected_challenge).decode().rstrip(\n                            '=').lower()):\n"),
        ('backends.py', "url_base64_decode\n", "url_base64_decode, url_base64_encode\n")],
 demo="""
c1 = b'abcdefghijklmnopqrstuvwxyz012345'
s = b64u(c1).swapcase(); c2 = base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))
assert c1 != c2
sys.exit(0 if raises(errors.ChallengeError, register, cd=cdata('webauthn.create', chal=c2), expected_challenge=c1) else 1)
""", needs='a challenge whose base64 text differs only in letter case', breaks='Challenges are compared by their text regardless of letter case.'),
dict(id='c01-many-origins', property='C01',
 edits=[('backends.py', "            for opaque_origin in expected_origin:\n                allowed_origins.add(parse_origin(opaque_origin))\n", "            for opaque_origin in expected_origin:\n                origin = parse_origin(opaque_origin)\n                if len(allowed_origins) < 8:\n                    allowed_origins.add(origin)\n")],
 demo="""
sys.exit(0 if register(expected_origin=['https://a%d.com' % i for i in range(9)] + [ORIGIN]).log else 1)
""", needs='more than eight expected origins', breaks='Origins after the eighth are forgotten.'),
dict(id='c01-tb-pad', property='C01', multi=True,
 edits=[('backends.py', "                if token_binding.id != collected_client_data.token_binding.id:\n", "                if (token_binding.id or '').rstrip('=') != (\n                        collected_client_data.token_binding.id or '').rstrip('='):\n")],
 demo="""
tb = t.TokenBinding(status=t.TokenBindingStatus.PRESENT, id='YQ==')
sys.exit(0 if raises(errors.TokenBindingError, register, token_binding=tb, cd=cdata('webauthn.create', tokenBinding={'status': 'present', 'id': 'YQ'})) else 1)
""", needs='a token binding id that differs in trailing equal signs (or empty against absent)', breaks='Token binding ids are compared without trailing padding.'),
dict(id='c03-allow-bisect', property='C03',
 edits=[('backends.py', "                allowed = False\n                for cred in allow_credentials:\n                    if cred.id == credential.raw_id:\n                        allowed = True\n                        break\n", "                allowed = False\n                if len(allow_credentials) > 16:\n                    ids = [x.id for x in allow_credentials]\n                    i = bisect.bisect_left(ids, credential.raw_id)\n                    allowed = i < len(ids) and ids[i] == credential.raw_id\n                else:\n                    for cred in allow_credentials:\n                        if cred.id == credential.raw_id:\n                            allowed = True\n                            break\n"), ('backends.py', "import hashlib\n", "import bisect\nimport hashlib\n")],
 demo="""
ids = [b'z%d' % (99 - i) for i in range(20)] + [b'cid']
d = [t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=i) for i in ids]
sys.exit(0 if login(allow_credentials=d).log else 1)
""", needs='more than 16 allowed credentials, not sorted', breaks='Long allow lists are searched as if sorted.'),
dict(id='c03-allow-transports', property='C03',
 edits=[('backends.py', "                    if cred.id == credential.raw_id:\n", "                    if cred.transports is not None and not cred.transports:\n                        continue\n                    if cred.id == credential.raw_id:\n")],
 demo="""
d = [t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=b'cid', transports=[])]
sys.exit(0 if login(allow_credentials=d).log else 1)
""", needs='an allow list entry with an empty transports list', breaks='Allow list entries with no transports are skipped.'),
dict(id='c07-lookup-by-id', property='C07',
 edits=[('backends.py', "                credential_data = self.registrar.get_credential_data(\n                    credential.raw_id)\n", "                credential_data = self.registrar.get_credential_data(\n                    url_base64_decode(credential.id))\n")],
 demo="""
k = EC(); reg = Reg(); cd = cdata(); ad = adata(1, 1)
reg.data[b'raw'] = CredentialData(k.lib(), None, USER, RP); reg.data[b'other'] = CredentialData(EC(77).lib(), None, USER, RP)
cred = t.PublicKeyCredential(id=b64u(b'other'), type='public-key', raw_id=b'raw', response=t.AuthenticatorAssertionResponse(client_data_JSON=cd, authenticator_data=ad, signature=k.sign(ad + hashlib.sha256(cd).digest()), user_handle=b'uid'))
try: CredentialsBackend(reg).handle_credential_assertion(credential=cred, user=USER, rp=RP, expected_challenge=CHAL, expected_origin=ORIGIN)
except errors.WebAuthnRPError as e: print(repr(e))
sys.exit(0 if reg.lookups == [b'raw'] and reg.log else 1)
""", needs='a credential whose id text is not that of its raw id', breaks='The credential is looked up by its id text, not its raw id.'),
dict(id='c31-exact-class', property='C31',
 edits=[('attesters.py', "    if not isinstance(credential_public_key, EC2CredentialPublicKey) or (\n", "    if type(credential_public_key) is not EC2CredentialPublicKey or (\n")],
 demo="""
from webauthn_rp.attesters import attest
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives.serialization import Encoding
class Sub(t.EC2CredentialPublicKey): pass
k, c = EC(), EC(99)
n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
cert = (x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(c.priv.public_key()).serial_number(5)
  .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1)).sign(c.priv, SHA256(), default_backend())).public_bytes(Encoding.DER)
l = k.lib(); s = Sub(x=l.x, y=l.y, crv=l.crv, kty=l.kty, alg=l.alg, kid=None, key_ops=None, base_IV=None)
h = bytes(32)
st = t.FIDOU2FAttestationStatement(sig=c.sign(b'\\0' + h + h + b'cid' + b'\\4' + k.x + k.y), x5c=[cert])
ao = t.AttestationObject(auth_data=t.AuthenticatorData(rp_id_hash=h, flags=65, sign_count=0, attested_credential_data=t.AttestedCredentialData(aaguid=bytes(16), credential_id_length=3, credential_id=b'cid', credential_public_key=s)), fmt=t.AttestationStatementFormatIdentifier('fido-u2f'), att_stmt=st)
try: attest(st, ao, b'', h)
except errors.WebAuthnRPError as e: print(repr(e)); sys.exit(1)
""", needs='a credential key object of a subclass', breaks='Keys of a subclass are refused by fido-u2f attestation.'),
dict(id='c31-duck', property='C31',
 edits=[('converters.py', "    raise UnimplementedError('Must implement cose key conversion')\n", "    if hasattr(credential_public_key, 'crv'):\n        return cose_okp_public_key(credential_public_key)  # type: ignore\n    raise UnimplementedError('Must implement cose key conversion')\n")],
 demo="""
class Look: pass
o = Look(); o.__dict__.update(EC().lib().__dict__)
sys.exit(0 if raises(errors.UnimplementedError, cose_key, o) else 1)
""", needs='an object of another class with the attributes of a key', breaks='Unsupported objects are encoded (and lose y).'),
dict(id='c31-error-base', property='C31',
 edits=[('errors.py', "class UserHandleError(BackendError):", "class UserHandleError(UserIDError):")],
 demo="""
sys.exit(0 if not issubclass(errors.UserHandleError, errors.UserIDError) else 1)
""", needs='an except clause for UserIDError', breaks='User handle errors are caught as user id errors.'),
dict(id='c06-der-tail', property='C06',
 edits=[('verifiers.py', "    try:\n        public_key.verify(signature, data, signature_algorithm)\n    except", "    if len(signature) > 2 and signature[0] == 0x30 and signature[1] < 0x80:\n        signature = signature[:signature[1] + 2]\n\n    try:\n        public_key.verify(signature, data, signature_algorithm)\n    except")],
 demo="""
k = EC(); cd = cdata(); ad = adata(1, 1); s = k.sign(ad + hashlib.sha256(cd).digest())
sys.exit(0 if raises(errors.VerificationError, login, key=k, cd=cd, ad=ad, sig=s + b'x') else 1)
""", needs='bytes after the signature', breaks='Bytes after an ECDSA signature are ignored.'),
dict(id='c14-uvm-len', property='C14',
 edits=[('parsers.py', "        for i, uvm_entry in enumerate(uvm):\n", "        if len(uvm) > 3:\n            raise ParserError('uvm extension client output has too many entries')\n\n        for i, uvm_entry in enumerate(uvm):\n")],
 demo="""
x = parse_extensions({'uvm': [[1, 2, 3]] * 4})
""", needs='more than three uvm entries', breaks='Well typed uvm lists with more than three entries are refused.'),
dict(id='c15-ops-max', property='C15',
 edits=[('parsers.py', "    for i, ko in enumerate(key_ops_raw):\n        if type(ko)", "    for i, ko in enumerate(key_ops_raw[:8]):\n        if type(ko)")],
 demo="""
m = dict(EC().cose()); m[4] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]
sys.exit(0 if len(parse_cose_key(m).key_ops) == 10 else 1)
""", needs='more than eight key operations', breaks='Key operations after the eighth are dropped.'),
dict(id='c17-x5c-max', property='C17',
 edits=[('parsers.py', "    for i, e in enumerate(x5c):\n        if type(e) is not bytes:\n            raise ParserError('x5c[{}] must be a byte string'.format(i))\n    return x5c\n", "    for i, e in enumerate(x5c):\n        if type(e) is not bytes:\n            raise ParserError('x5c[{}] must be a byte string'.format(i))\n    return x5c[:10]\n")],
 demo="""
sys.exit(0 if len(parse_fido_u2f_attestation_statement({'sig': b's', 'x5c': [b'c'] * 12}).x5c) == 12 else 1)
""", needs='a chain of more than ten certificates', breaks='Certificates after the tenth are dropped.'),
dict(id='c11-port-underscore', property='C11',
 edits=[('parsers.py', "        port = url.port\n", "        port = url.port if '_' not in url.netloc.rsplit(':', 1)[-1] else int(\n            url.netloc.rsplit(':', 1)[1])\n")],
 demo="""
sys.exit(0 if raises(errors.OriginError, parse_origin, 'https://example.com:4_43') else 1)
""", needs='an underscore among the digits of a port', breaks='A malformed port with underscores is accepted.'),
dict(id='c26-long-list', property='C26',
 edits=[('converters.py', "        return [jsonify(x, convert_case) for x in data]\n", "        if len(data) > 256:\n            data = [x for x in data if x is not None]\n        return [jsonify(x, convert_case) for x in data]\n")],
 demo="""
sys.exit(0 if len(jsonify([1, None] * 200)) == 400 else 1)
""", needs='a list of more than 256 elements holding None', breaks='None elements of long lists are dropped.'),
dict(id='c29-exclude-max', property='C29',
 edits=[('builders.py', "exclude_credentials=self._exclude_credentials", "exclude_credentials=self._exclude_credentials[:20] if\n                self._exclude_credentials else self._exclude_credentials")],
 demo="""
from webauthn_rp.builders import *
d = [t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, id=b'%d' % i) for i in range(30)]
o = CredentialCreationOptionsBuilder(rp=RP, pub_key_cred_params=[]).exclude_credentials(d).build(user=USER, challenge=b'c')
sys.exit(0 if len(jsonify(o)['publicKey']['excludeCredentials']) == 30 else 1)
""", needs='more than twenty excluded credentials', breaks='Excluded credentials after the twentieth are dropped.'),
dict(id='c16-kid-text', property='C16',
 edits=[('converters.py', "        d[4] = [x.value for x in credential_public_key.key_ops]\n", "        d[4] = [x.value for x in credential_public_key.key_ops]\n        if all(type(x) is int for x in d[4]):\n            d[4].sort()\n")],
 demo="""
m = dict(EC().cose()); m[4] = [2, 1]
sys.exit(0 if [x.value for x in parse_cose_key(cose_key(parse_cose_key(m))).key_ops] == [2, 1] else 1)
""", needs='key operations given by number in descending order', breaks='The order of key operations is lost.'),
dict(id='c08-uid-prefix', property='C08',
 edits=[('backends.py', "                if registered_user.id != user.id:\n", "                if registered_user.id[:64].rstrip(b'\\0') != user.id[:64].rstrip(\n                        b'\\0'):\n")],
 demo="""
u = t.PublicKeyCredentialUserEntity(name='u', id=b'uid\\0', display_name='U')
sys.exit(0 if raises(errors.UserIDError, login, handle=None, user=u) else 1)
""", needs='two user ids that differ in trailing zero bytes only', breaks='User ids are compared without trailing zero bytes.'),
]
