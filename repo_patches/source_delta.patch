From ab4f818231b378bbc057f8059a59cc76546617a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 01/17] fix: pass the attestation object to attest() when
 registering

handle_credential_attestation passed the credential public key where attest()
expects the AttestationObject, so every fido-u2f and android-key registration
ended in an InternalError.
---
 webauthn_rp/backends.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 4f684a5..20d89d6 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -200,10 +200,9 @@ class CredentialsBackend:
             assert attestation.auth_data is not None
             assert attestation.auth_data.attested_credential_data is not None
 
-            att_type, trusted_path = attest(
-                attestation.att_stmt, attestation.auth_data.
-                attested_credential_data.credential_public_key,
-                raw_att_obj['authData'], client_data_JSON_hash)
+            att_type, trusted_path = attest(attestation.att_stmt, attestation,
+                                            raw_att_obj['authData'],
+                                            client_data_JSON_hash)
 
             try:
                 response = self.registrar.register_credential_attestation(
-- 
2.43.0


From 707de333ec74354d40389b60af8048bb2c4d851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 02/17] fix: encode base_IV in COSE keys when it is present

The base_IV member was written when key_ops was present: it was lost for keys
without key_ops and written as null for keys with key_ops only.
---
 webauthn_rp/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/converters.py b/webauthn_rp/converters.py
index 2d12b1e..6eb41eb 100644
--- a/webauthn_rp/converters.py
+++ b/webauthn_rp/converters.py
@@ -170,7 +170,7 @@ def _build_base_cose_dictionary(
     d[3] = credential_public_key.alg.value
     if credential_public_key.key_ops is not None:
         d[4] = [x.value for x in credential_public_key.key_ops]
-    if credential_public_key.key_ops is not None:
+    if credential_public_key.base_IV is not None:
         d[5] = credential_public_key.base_IV
     return d
 
-- 
2.43.0


From ff85be322a9ec7e048c0fbd324082f121bb93c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 03/17] fix: compare origins by scheme, host and effective port

The hostname of a parsed origin was the whole authority, port included and in
its original case, so https://example.com:443 and https://example.com (or
https://Example.com) were different origins, an origin with credentials or
with only a port passed as one, and an invalid port or host raised ValueError
instead of OriginError.
---
 webauthn_rp/parsers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index d902be6..d8b93e4 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -66,24 +66,30 @@ def parse_origin(origin: str) -> Origin:
     if '://' not in origin:
         raise OriginError('Invalid origin, missing scheme')
 
-    url = urlparse(origin)
+    try:
+        url = urlparse(origin)
+        hostname = url.hostname
+        port = url.port
+    except ValueError:
+        raise OriginError('Invalid origin, malformed host or port')
+
     if url.path or url.params or url.query or url.fragment:
         raise OriginError('Invalid origin, cannot have path, params, query, '
                           'or fragment present')
 
-    if not url.netloc:
+    if not hostname:
         raise OriginError('Invalid origin, must provide a hostname')
 
+    if '@' in url.netloc:
+        raise OriginError('Invalid origin, cannot have credentials present')
+
     if url.scheme not in {'http', 'https'}:
         raise OriginError('Invalid origin, unsupported scheme {}'.format(
             url.scheme))
 
     scheme = url.scheme
-    hostname = url.netloc
-    if url.port is None:
+    if port is None:
         port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]
-    else:
-        port = url.port
 
     return Origin(
         scheme=scheme,
-- 
2.43.0


From f3f7dd31c1e3650ba0621a146cee717f98ec1d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 04/17] fix: report every CBOR decoding failure as
 DecodingError

cbor2 raises more than CBORDecodeError on malformed input (UnicodeDecodeError,
OverflowError, TypeError, re.error, MemoryError, ... depending on the bytes),
and those escaped from the parsers, which document DecodingError.
---
 webauthn_rp/parsers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index d8b93e4..996e0fa 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -795,7 +795,7 @@ def parse_cose_key(
     if type(credential_public_key) is bytes:
         try:
             credential_public_key = cbor2.loads(credential_public_key)
-        except cbor2.CBORDecodeError:
+        except Exception:
             raise DecodingError('Could not decode credential public key CBOR')
 
         if type(credential_public_key) is not dict:
@@ -867,7 +867,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
 
             try:
                 credential_public_key = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError(
                     'Could not decode the credential public key CBOR')
 
@@ -891,7 +891,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
         try:
             try:
                 extensions = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError('Could not decode the extensions CBOR')
 
             if type(extensions) is not dict:
@@ -934,7 +934,7 @@ def parse_attestation_object(
     """
     try:
         attestation_object_data = cbor2.loads(attestation_object)
-    except cbor2.CBORDecodeError:
+    except Exception:
         raise DecodingError('Could not decode the attestation object CBOR')
 
     if type(attestation_object_data) is not dict:
-- 
2.43.0


From 04038a1a65263b331068030c40d33479629b93c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 05/17] fix: report every client data JSON decoding failure as
 DecodingError

Integers beyond the interpreter's digit limit raise a plain ValueError and deep
nesting raises RecursionError from json.loads; both escaped from
parse_client_data.
---
 webauthn_rp/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 996e0fa..7e4c26c 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -725,7 +725,7 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
     try:
         client_data_text = client_data_JSON.decode('utf-8')
         client_data = json.loads(client_data_text)
-    except (UnicodeDecodeError, json.JSONDecodeError):
+    except (ValueError, RecursionError):
         raise DecodingError('Could not decode the client data JSON')
 
     if type(client_data) is not dict:
-- 
2.43.0


From 21201f77a87dd2ad732da908c3d9a3116c48722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 06/17] fix: do not report a clone when the authenticator has
 no counter

Per the verification procedure the counters are compared only if the received
or the stored one is nonzero. Authenticators without a counter always send
zero, so every login after the first was refused with SignatureCountError.
---
 webauthn_rp/backends.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 20d89d6..4a9b78c 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -428,7 +428,8 @@ class CredentialsBackend:
                    verification_data)
 
             registered_sign_count = credential_data.signature_count
-            if registered_sign_count is not None:
+            if registered_sign_count is not None and (
+                    auth_data.sign_count != 0 or registered_sign_count != 0):
                 if auth_data.sign_count <= registered_sign_count:
                     if not ignore_clone_error:
                         raise SignatureCountError(
-- 
2.43.0


From b02c822cace4737018670327cf67bbc16d4ae22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 07/17] fix: require 32-byte coordinates for FIDO U2F
 attestation

The U2F public key is defined for P-256 coordinates only. A statement signed
over the concatenation of longer coordinates was accepted, and an OKP key
raised AttributeError.
---
 webauthn_rp/attesters.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 8a8cec0..2152228 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -16,7 +16,8 @@ from pyasn1.codec.der.decoder import decode
 from pyasn1.error import PyAsn1Error
 
 from webauthn_rp.asn1 import KeyDescription
-from webauthn_rp.constants import KM_ORIGIN_GENERATED, KM_PURPOSE_SIGN
+from webauthn_rp.constants import (KM_ORIGIN_GENERATED, KM_PURPOSE_SIGN,
+                                   P_256_COORDINATE_BYTE_LENGTH)
 from webauthn_rp.converters import cryptography_public_key
 from webauthn_rp.errors import AttestationError, UnimplementedError
 from webauthn_rp.types import (AndroidKeyAttestationStatement,
@@ -107,6 +108,13 @@ def attest_fido_u2f(
         att_obj.auth_data.attested_credential_data.credential_public_key)
 
     assert credential_public_key is not None
+    if not isinstance(credential_public_key, EC2CredentialPublicKey) or (
+            len(credential_public_key.x) != P_256_COORDINATE_BYTE_LENGTH
+            or len(credential_public_key.y) != P_256_COORDINATE_BYTE_LENGTH):
+        raise AttestationError(
+            'FIDO U2F attestation failed: the credential public key must have '
+            '32-byte coordinates')
+
     public_key_u2f = b'\x04' + (credential_public_key.x +
                                 credential_public_key.y)
 
-- 
2.43.0


From 3ea8312704b023cd3ac4d74fa075a216c6d9a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 08/17] fix: report a malformed android-key certificate as
 AttestationError

As the fido-u2f attester already does; the ValueError became an InternalError
in the registration ceremony.
---
 webauthn_rp/attesters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 2152228..57307cd 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -159,8 +159,13 @@ def attest_android_key(
     if len(att_stmt.x5c) == 0:
         raise AttestationError('Must have at least 1 X509 certificate')
 
-    credential_certificate = cryptography.x509.load_der_x509_certificate(
-        att_stmt.x5c[0], default_backend())
+    try:
+        credential_certificate = cryptography.x509.load_der_x509_certificate(
+            att_stmt.x5c[0], default_backend())
+    except ValueError:
+        raise AttestationError(
+            'Android key attestation failed: unable to load X509 certificate')
+
     cred_cert_pk = credential_certificate.public_key()
     if not isinstance(
             cred_cert_pk,
-- 
2.43.0


From e1e3121cb5462f99388292b0f8a49a5da27882c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 09/17] fix: report unprintable untrusted values as ParserError

Building the error message rendered the offending value, which raises
ValueError for integers of more than 4300 digits, so the parsers leaked it.
---
 webauthn_rp/parsers.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 7e4c26c..50c5865 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -98,6 +98,15 @@ def parse_origin(origin: str) -> Origin:
     )
 
 
+def _describe(value: Any) -> str:
+    # Untrusted values can't always be rendered, e.g. integers with more digits
+    # than the interpreter is willing to convert or deeply nested structures.
+    try:
+        return str(value)
+    except (ValueError, RecursionError):
+        return '<unprintable {}>'.format(type(value).__name__)
+
+
 def _parse_dictionary_field(field_key: Any,
                             valid_types: Union[Type, Sequence[Type]],
                             dictionary: Dict,
@@ -121,7 +130,7 @@ def _check_unsupported_keys(supported: Set[str], data: Dict):
     unsupported_keys = set(data.keys()).difference(supported)
     if unsupported_keys:
         raise ParserError(('Found unsupported keys in data {}').format(
-            str(unsupported_keys)))
+            _describe(unsupported_keys)))
 
 
 def _bytes_from_base64(s: str) -> bytes:
@@ -206,7 +215,8 @@ def _parse_credential_public_key_kty(
                    COSEKeyType(kty_raw))  # type: ignore
     except (KeyError, ValueError):
         raise ParserError(
-            'Invalid credential public key type {}'.format(kty_raw))
+            'Invalid credential public key type {}'.format(
+                _describe(kty_raw)))
     return kty
 
 
@@ -221,7 +231,8 @@ def _parse_credential_public_key_alg(
                    COSEAlgorithmIdentifier(alg_raw))  # type: ignore
     except (KeyError, ValueError):
         raise ParserError(
-            'Invalid credential public key alg type {}'.format(alg_raw))
+            'Invalid credential public key alg type {}'.format(
+                _describe(alg_raw)))
     return alg
 
 
@@ -248,7 +259,7 @@ def _parse_credential_public_key_key_ops(
             key_ops.append(COSEKeyOperation(ko))  # type: ignore
         except (KeyError, ValueError):
             raise ParserError('Invalid credential public key key op {}'.format(
-                credential_public_key[4]))
+                _describe(credential_public_key[4])))
 
     return key_ops
 
@@ -274,7 +285,7 @@ def _parse_ec2_public_key_crv(
     try:
         return EC2Curve(crv_raw)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid EC2 curve {}'.format(crv_raw))
+        raise ParserError('Invalid EC2 curve {}'.format(_describe(crv_raw)))
 
 
 def _parse_okp_public_key_crv(
@@ -283,7 +294,7 @@ def _parse_okp_public_key_crv(
     try:
         return OKPCurve(crv_raw)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid OKP curve {}'.format(crv_raw))
+        raise ParserError('Invalid OKP curve {}'.format(_describe(crv_raw)))
 
 
 def parse_okp_public_key(
@@ -392,7 +403,7 @@ def parse_extensions(
 
     if unsupported_extensions:
         raise ParserError('Found unsupported extensions {}'.format(
-            str(unsupported_extensions)))
+            _describe(unsupported_extensions)))
 
     appid = extensions.get('appid')
     tx_auth_simple = extensions.get('txAuthSimple')
@@ -453,7 +464,7 @@ def parse_extensions(
         unsupported_cvalues = set(loc.keys()).difference(supported_cvalues)
         if unsupported_cvalues:
             raise ParserError('Found unsupported loc key values {}'.format(
-                str(unsupported_cvalues)))
+                _describe(unsupported_cvalues)))
 
         loc = Coordinates(latitude=loc.get('latitude'),
                           longitude=loc.get('longitude'),
@@ -505,7 +516,8 @@ def _parse_attestation_statement_alg(
     try:
         alg = COSEAlgorithmIdentifier(alg)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid algorithm identifier {}'.format(alg))
+        raise ParserError('Invalid algorithm identifier {}'.format(
+            _describe(alg)))
     return alg
 
 
@@ -755,7 +767,8 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
                 token_binding_status)
         except ValueError:
             raise ParserError(
-                'Invalid Token Binding status {}'.format(token_binding_status))
+                'Invalid Token Binding status {}'.format(
+                    _describe(token_binding_status)))
 
         if token_binding_status_enum == TokenBindingStatus.PRESENT and (
                 token_binding_id is None):
-- 
2.43.0


From caee8117d47b5971aec392343237b0855950d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 10/17] fix: validate refuses a wrong key type or missing
 algorithm with ValidationError

---
 webauthn_rp/validators.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/webauthn_rp/validators.py b/webauthn_rp/validators.py
index c4e02e0..fd79ee2 100644
--- a/webauthn_rp/validators.py
+++ b/webauthn_rp/validators.py
@@ -41,14 +41,16 @@ def validate_ec2_public_key(
       UnimplementedError: If the logic to validate the given type of key is not
         implemented.
     """
-    assert credential_public_key.kty.name == 'EC2'
     assert credential_public_key.crv is not None
-    assert credential_public_key.alg is not None
+
+    if credential_public_key.kty.name != 'EC2':
+        raise ValidationError('Invalid kty for key type')
 
     if credential_public_key.crv.name not in {'P_256', 'P_384', 'P_521'}:
         raise ValidationError('Invalid curve for key type')
 
-    if credential_public_key.alg.name not in {'ES256', 'ES384', 'ES512'}:
+    if (credential_public_key.alg is None or credential_public_key.alg.name
+            not in {'ES256', 'ES384', 'ES512'}):
         raise ValidationError('Invalid alg for key type')
 
 
@@ -66,12 +68,14 @@ def validate_okp_public_key(
       UnimplementedError: If the logic to validate the given type of key is not
         implemented.
     """
-    assert credential_public_key.kty.name == 'OKP'
     assert credential_public_key.crv is not None
-    assert credential_public_key.alg is not None
+
+    if credential_public_key.kty.name != 'OKP':
+        raise ValidationError('Invalid kty for key type')
 
     if credential_public_key.crv.name not in {'ED25519', 'ED448'}:
         raise ValidationError('Invalid curve for key type')
 
-    if credential_public_key.alg.name not in {'EDDSA'}:
+    if (credential_public_key.alg is None
+            or credential_public_key.alg.name not in {'EDDSA'}):
         raise ValidationError('Invalid alg for key type')
-- 
2.43.0


From 3611da5731685c2e50ed4ba1c78dbb1cb95f3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:59 +0000
Subject: [PATCH 11/17] fix: require a P-256 point as the credential key for
 FIDO U2F attestation

---
 webauthn_rp/attesters.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 57307cd..dd83b56 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -19,11 +19,12 @@ from webauthn_rp.asn1 import KeyDescription
 from webauthn_rp.constants import (KM_ORIGIN_GENERATED, KM_PURPOSE_SIGN,
                                    P_256_COORDINATE_BYTE_LENGTH)
 from webauthn_rp.converters import cryptography_public_key
-from webauthn_rp.errors import AttestationError, UnimplementedError
+from webauthn_rp.errors import (AttestationError, PublicKeyConversionError,
+                                UnimplementedError)
 from webauthn_rp.types import (AndroidKeyAttestationStatement,
                                AttestationObject, AttestationStatement,
                                AttestationType, EC2CredentialPublicKey,
-                               FIDOU2FAttestationStatement,
+                               EC2PublicKey, FIDOU2FAttestationStatement,
                                NoneAttestationStatement, TrustedPath)
 from webauthn_rp.utils import ec2_hash_algorithm
 
@@ -115,6 +116,18 @@ def attest_fido_u2f(
             'FIDO U2F attestation failed: the credential public key must have '
             '32-byte coordinates')
 
+    try:
+        credential_pk = cast(EC2PublicKey,
+                             cryptography_public_key(credential_public_key))
+    except PublicKeyConversionError:
+        raise AttestationError(
+            'FIDO U2F attestation failed: invalid credential public key')
+
+    if not isinstance(credential_pk.curve, SECP256R1):
+        raise AttestationError(
+            'FIDO U2F attestation failed: the credential public key must use '
+            'curve SECP256R1')
+
     public_key_u2f = b'\x04' + (credential_public_key.x +
                                 credential_public_key.y)
 
-- 
2.43.0


From 11827b44dcdf4f2e82d03dd52550e98843c5677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 12/17] fix: report every unusable attestation certificate as
 AttestationError

---
 webauthn_rp/attesters.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index dd83b56..57c7ef4 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -2,6 +2,7 @@ from functools import singledispatch
 from typing import Tuple, cast
 
 import cryptography
+import cryptography.exceptions
 import cryptography.x509
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives.asymmetric.ec import (
@@ -35,6 +36,14 @@ __all__ = [
     'attest_none',
 ]
 
+_CERTIFICATE_ERRORS = (
+    ValueError,
+    cryptography.exceptions.UnsupportedAlgorithm,
+    cryptography.x509.DuplicateExtension,
+    cryptography.x509.InvalidVersion,
+    cryptography.x509.UnsupportedGeneralNameType,
+)
+
 
 @singledispatch
 def attest(att_stmt: AttestationStatement, att_obj: AttestationObject,
@@ -87,11 +96,11 @@ def attest_fido_u2f(
     try:
         att_cert_x509 = cryptography.x509.load_der_x509_certificate(
             att_cert, default_backend())
-    except ValueError:
+        att_cert_x509_pk = att_cert_x509.public_key()
+    except _CERTIFICATE_ERRORS:
         raise AttestationError(
             'FIDO U2F attestation failed: unable to load X509 certificate')
 
-    att_cert_x509_pk = att_cert_x509.public_key()
     if not isinstance(att_cert_x509_pk, EllipticCurvePublicKey):
         raise AttestationError(
             'FIDO U2F attestation failed: must use an Elliptic Curve Public Key'
@@ -175,11 +184,11 @@ def attest_android_key(
     try:
         credential_certificate = cryptography.x509.load_der_x509_certificate(
             att_stmt.x5c[0], default_backend())
-    except ValueError:
+        cred_cert_pk = credential_certificate.public_key()
+    except _CERTIFICATE_ERRORS:
         raise AttestationError(
             'Android key attestation failed: unable to load X509 certificate')
 
-    cred_cert_pk = credential_certificate.public_key()
     if not isinstance(
             cred_cert_pk,
         (EllipticCurvePublicKey, Ed25519PublicKey, Ed448PublicKey)):
@@ -228,6 +237,10 @@ def attest_android_key(
         raise AttestationError(
             'Android key attestation failed: could not find android key '
             'attestation certificate extension data')
+    except _CERTIFICATE_ERRORS:
+        raise AttestationError(
+            'Android key attestation failed: unable to load X509 certificate '
+            'extensions')
 
     try:
         key_description, _ = decode(extension.value.value, KeyDescription())
-- 
2.43.0


From c1f4ee9bf489cf369fa1dbba03a07460e8202906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 13/17] fix: refuse an android-key statement with a non-ECDSA
 algorithm for an EC key as AttestationError

---
 webauthn_rp/attesters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 57c7ef4..f5c547b 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -211,6 +211,10 @@ def attest_android_key(
         else:
             assert isinstance(cred_cert_pk, EllipticCurvePublicKey)
             assert att_stmt.alg is not None
+            if att_stmt.alg.name not in {'ES256', 'ES384', 'ES512'}:
+                raise AttestationError(
+                    'Android key attestation failed: the algorithm does not '
+                    'match the certificate public key')
 
             hash_algorithm = ECDSA(ec2_hash_algorithm(att_stmt.alg))
             cred_cert_pk.verify(att_stmt.sig, verification_data,
-- 
2.43.0


From aba148e1cc408a1be4afc96eae3707b61d4f8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 14/17] fix: refuse a registration without attested credential
 data even without asserts

---
 webauthn_rp/backends.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 4a9b78c..7736c3b 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -5,9 +5,9 @@ from webauthn_rp.attesters import attest
 from webauthn_rp.errors import (
     ChallengeError, ClientDataTypeError, CredentialDataError,
     CredentialNotAllowedError, DecodingError, ExtensionError, InternalError,
-    OriginError, RegistrationError, RPIDError, RPIDHashError, RPNotFoundError,
-    SignatureCountError, TokenBindingError, UserHandleError, UserIDError,
-    UserPresenceError, UserVerificationError, WebAuthnRPError)
+    OriginError, ParserError, RegistrationError, RPIDError, RPIDHashError,
+    RPNotFoundError, SignatureCountError, TokenBindingError, UserHandleError,
+    UserIDError, UserPresenceError, UserVerificationError, WebAuthnRPError)
 from webauthn_rp.parsers import (parse_attestation_object,
                                  parse_authenticator_data, parse_client_data,
                                  parse_origin)
@@ -197,8 +197,10 @@ class CredentialsBackend:
                         raise ExtensionError('Missing extension {}'.format(
                             e.value))
 
-            assert attestation.auth_data is not None
-            assert attestation.auth_data.attested_credential_data is not None
+            if attestation.auth_data.attested_credential_data is None:
+                raise ParserError(
+                    'Attested credential data must be present in a registration'
+                )
 
             att_type, trusted_path = attest(attestation.att_stmt, attestation,
                                             raw_att_obj['authData'],
-- 
2.43.0


From 25526952d3e7d007579184d0f922098be9919936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 15/17] fix: refuse NaN and Infinity in client data JSON

---
 webauthn_rp/parsers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 50c5865..a25fc9f 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -719,6 +719,10 @@ class _AttestationStatementParser(Enum):
     NONE = parse_none_attestation_statement
 
 
+def _refuse_json_constant(constant: str) -> None:
+    raise ValueError('{} is not valid JSON'.format(constant))
+
+
 def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
     """Parse the raw UTF-8-encoded client data JSON.
 
@@ -736,7 +740,8 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
     """
     try:
         client_data_text = client_data_JSON.decode('utf-8')
-        client_data = json.loads(client_data_text)
+        client_data = json.loads(client_data_text,
+                                 parse_constant=_refuse_json_constant)
     except (ValueError, RecursionError):
         raise DecodingError('Could not decode the client data JSON')
 
-- 
2.43.0


From 5d7b98b6f730b6fe1e01b10d63a0f0983914e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 16/17] fix: refuse a token binding id that is not a string

---
 webauthn_rp/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index a25fc9f..36554aa 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -767,6 +767,9 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
         if token_binding_status is None:
             raise ParserError('Token Binding status must be present')
 
+        if token_binding_id is not None and type(token_binding_id) is not str:
+            raise ParserError('Token Binding id must be a string')
+
         try:
             token_binding_status_enum = TokenBindingStatus(
                 token_binding_status)
-- 
2.43.0


From d3bd584dc2468d03d0d4c490fcabcdc6379b7a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 17/17] fix: refuse bytes after a credential public key or
 attestation object

---
 webauthn_rp/parsers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 36554aa..b95c48b 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -98,6 +98,14 @@ def parse_origin(origin: str) -> Origin:
     )
 
 
+def _loads_cbor(data: bytes) -> Any:
+    bio = io.BytesIO(data)
+    value = cbor2.load(bio)
+    if bio.read(1) != b'':
+        raise ValueError('Unexpected bytes after the CBOR data item')
+    return value
+
+
 def _describe(value: Any) -> str:
     # Untrusted values can't always be rendered, e.g. integers with more digits
     # than the interpreter is willing to convert or deeply nested structures.
@@ -815,7 +823,7 @@ def parse_cose_key(
     """
     if type(credential_public_key) is bytes:
         try:
-            credential_public_key = cbor2.loads(credential_public_key)
+            credential_public_key = _loads_cbor(credential_public_key)
         except Exception:
             raise DecodingError('Could not decode credential public key CBOR')
 
@@ -954,7 +962,7 @@ def parse_attestation_object(
       * https://w3.org/TR/webauthn/#attestation-object
     """
     try:
-        attestation_object_data = cbor2.loads(attestation_object)
+        attestation_object_data = _loads_cbor(attestation_object)
     except Exception:
         raise DecodingError('Could not decode the attestation object CBOR')
 
-- 
2.43.0

