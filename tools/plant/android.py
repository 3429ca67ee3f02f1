"""An android-key registration with selectable authorization lists."""
import datetime
from kit import *
from cryptography import x509
from cryptography.x509.oid import NameOID, ObjectIdentifier
from cryptography.hazmat.primitives.serialization import Encoding

def tlv(tag, b):
    n = len(b)
    l = bytes([n]) if n < 128 else (bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255]))
    return tag + l + b
def ctx(n, b):
    return tlv(bytes([0xa0 | n]) if n < 31 else bytes([0xbf]) + (bytes([n]) if n < 128 else bytes([0x80 | n >> 7, n & 127])), b)
def integer(v, tag=b'\2'):
    return tlv(tag, bytes([v]))
def lst(purpose=None, all_=False, origin=None):
    out = b''
    if purpose is not None: out += ctx(1, tlv(b'\x31', b''.join(integer(p) for p in sorted(purpose))))
    if all_: out += ctx(600, b'\x05\x00')
    if origin is not None: out += ctx(702, integer(origin))
    return tlv(b'\x30', out)

def make(version=3, seclevel=1, uid=b'', before=b'', after=b'', issuer='a', se_all=False, tee_all=False, tee_purpose=(2,), se_purpose=None, tee_origin=0, se_origin=None, challenge=None, reg=None, key=None, ad=None, tamper=None, crit=False):
    k = key or EC(); cd = cdata('webauthn.create'); h = hashlib.sha256(cd).digest()
    kd = tlv(b'\x30', integer(version) + integer(seclevel, b'\x0a') + integer(4) + integer(seclevel, b'\x0a') + tlv(b'\4', h if challenge is None else challenge) + tlv(b'\4', uid)
             + lst(se_purpose, se_all, se_origin) + tlv(b'\x30', lst(tee_purpose, tee_all, tee_origin)[2:] + after))
    n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, 'a')])
    c = (x509.CertificateBuilder().subject_name(n).issuer_name(x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, issuer)])).public_key(k.priv.public_key()).serial_number(5)
         .not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1))
         .add_extension(x509.UnrecognizedExtension(ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'), kd), crit)
         .sign(k.priv, SHA256(), default_backend())).public_bytes(Encoding.DER)
    ad = ad or adata(0x41, 0, acd(k))
    register(reg, cd=cd, ao=attobj(ad, 'android-key', {'alg': k.alg, 'sig': k.sign(ad + h), 'x5c': [c]}))
