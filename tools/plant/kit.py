"""Small independent ceremony kit for the demonstrations (uses only /repo and its dependencies)."""
import base64, hashlib, json, os, struct, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import cbor2
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.hashes import SHA256, SHA384, SHA512
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
from webauthn_rp import types as t, errors
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.registrars import CredentialData, CredentialsRegistrar
from webauthn_rp.parsers import *
from webauthn_rp.converters import *

CURVE = {'P-256': (ec.SECP256R1, 1, 32), 'P-384': (ec.SECP384R1, 2, 48), 'P-521': (ec.SECP521R1, 3, 66)}
HASH = {'ES256': (-7, SHA256), 'ES384': (-35, SHA384), 'ES512': (-36, SHA512)}
RP = t.PublicKeyCredentialRpEntity(name='rp', id='example.com')
USER = t.PublicKeyCredentialUserEntity(name='u', id=b'uid', display_name='U')
CHAL = bytes(range(32))
ORIGIN = 'https://example.com'

class EC:
    def __init__(self, d=12345, crv='P-256', alg='ES256'):
        c, self.crv, self.n = CURVE[crv]
        self.alg, self.h = HASH[alg]
        self.priv = ec.derive_private_key(d, c(), default_backend())
        pn = self.priv.public_key().public_numbers()
        self.x, self.y = pn.x.to_bytes(self.n, 'big'), pn.y.to_bytes(self.n, 'big')
    def cose(self):
        return {1: 2, 3: self.alg, -1: self.crv, -2: self.x, -3: self.y}
    def sign(self, m):
        return self.priv.sign(m, ec.ECDSA(self.h()))
    def lib(self):
        return parse_cose_key(self.cose())

def b64u(b): return base64.urlsafe_b64encode(b).decode().rstrip('=')
def cdata(type_='webauthn.get', chal=CHAL, origin=ORIGIN, **kw):
    return json.dumps(dict(type=type_, challenge=b64u(chal), origin=origin, **kw)).encode()
def adata(flags=1, count=1, acd=b'', ext=b'', rp=RP):
    return hashlib.sha256(rp.id.encode()).digest() + bytes([flags]) + struct.pack('>I', count) + acd + ext
def acd(key, cid=b'cid', aaguid=b'\0' * 16):
    m = key if isinstance(key, dict) else key.cose()
    return aaguid + struct.pack('>H', len(cid)) + cid + cbor2.dumps(m)
def attobj(ad, fmt='none', stmt=None):
    return cbor2.dumps({'fmt': fmt, 'attStmt': stmt or {}, 'authData': ad})

class Reg(CredentialsRegistrar):
    def __init__(self): self.log, self.data, self.ret, self.lookups = [], {}, None, []
    def register_credential_attestation(self, **kw): self.log.append(kw); return self.ret
    def register_credential_assertion(self, **kw): self.log.append(kw); return self.ret
    def get_credential_data(self, credential_id): self.lookups.append(credential_id); return self.data.get(credential_id)

def register(reg=None, be=None, key=None, cid=b'cid', cd=None, ad=None, ao=None, user=USER, rp=RP, **kw):
    reg = reg or Reg(); be = be or CredentialsBackend(reg)
    cd = cd if cd is not None else cdata('webauthn.create')
    ad = ad if ad is not None else adata(0x41, 0, acd(key or EC(), cid))
    ao = ao if ao is not None else attobj(ad)
    cred = t.PublicKeyCredential(id=b64u(cid), type='public-key', raw_id=cid,
        response=t.AuthenticatorAttestationResponse(client_data_JSON=cd, attestation_object=ao))
    args = dict(credential=cred, user=user, rp=rp, expected_challenge=CHAL, expected_origin=ORIGIN)
    args.update(kw)
    be.handle_credential_attestation(**args)
    return reg

def login(reg=None, be=None, key=None, cid=b'cid', cd=None, ad=None, sig=None, handle=b'uid', count=None, stored=None, reguser=USER, regrp=RP, **kw):
    key = key or EC()
    reg = reg or Reg(); be = be or CredentialsBackend(reg)
    reg.data.setdefault(cid, CredentialData(key.lib(), stored, reguser, regrp))
    cd = cd if cd is not None else cdata()
    ad = ad if ad is not None else adata(1, 1 if count is None else count)
    sig = sig if sig is not None else key.sign(ad + hashlib.sha256(cd).digest())
    cred = t.PublicKeyCredential(id=b64u(cid), type='public-key', raw_id=cid,
        response=t.AuthenticatorAssertionResponse(client_data_JSON=cd, authenticator_data=ad, signature=sig, user_handle=handle))
    args = dict(credential=cred, user=USER, rp=RP, expected_challenge=CHAL, expected_origin=ORIGIN)
    args.update(kw)
    be.handle_credential_assertion(**args)
    return reg

def raises(exc, f, *a, **k):
    try: f(*a, **k)
    except exc as e: return type(e) is exc or not isinstance(exc, type) or exc in (errors.WebAuthnRPError, Exception)
    except BaseException as e: print('got', repr(e)); return False
    print('no error'); return False
