BUGS = [
dict(id='c01-origin-cache', property='C01',
 edits=[('backends.py', """        self.registrar = registrar

    def _extract""", """        self.registrar = registrar
        self._origins: dict = {}

    def _extract"""),
  ('backends.py', """        allowed_origins: Set[Origin] = set()
        if isinstance(expected_origin, str):
            allowed_origins.add(parse_origin(expected_origin))
        else:
            if len""", """        allowed_origins: Set[Origin] = set()
        if isinstance(expected_origin, str):
            allowed_origins.add(parse_origin(expected_origin))
        else:
            key = id(expected_origin)
            if key in self._origins:
                return self._origins[key]
            self._origins[key] = allowed_origins
            if len""")],
 demo="""
# an allow list the RP narrows between two registrations handled by one backend
reg = Reg(); be = CredentialsBackend(reg)
allowed = ['https://example.com', 'https://old.example.com']
register(reg, be, cd=cdata('webauthn.create', origin='https://old.example.com'), expected_origin=allowed)
allowed.remove('https://old.example.com')
ok = raises(errors.OriginError, register, reg, be, cd=cdata('webauthn.create', origin='https://old.example.com'), expected_origin=allowed)
sys.exit(0 if ok and len(reg.log) == 1 else 1)
""", needs='two ceremonies on one backend with the same allow-list object, changed in between',
 breaks='The parsed origin allow list is cached per object identity, so an origin removed from the list is still accepted.'),
dict(id='c01-ext-falsy', property='C01',
 edits=[('backends.py', """                    if not hasattr(
                            attestation.auth_data.extensions,
                            e.key) or getattr(attestation.auth_data.extensions,
                                              e.key) is None:""",
 """                    if not getattr(attestation.auth_data.extensions, e.key,
                                   None):""")],
 demo="""
ad = adata(0xC1, 0, acd(EC()), cbor2.dumps({'appid': False, 'exts': []}))
register(ad=ad, expected_extensions={t.ExtensionIdentifier.APPID, t.ExtensionIdentifier.EXTS})
""", needs='a registration whose required extension output is present with a falsy value (false, empty list)',
 breaks='A required extension that is present with a falsy value counts as missing.'),
dict(id='c03-empty-allow-list', property='C03',
 edits=[('backends.py', "            if allow_credentials is not None:\n", "            if allow_credentials:\n")],
 demo="""
r = Reg()
sys.exit(0 if raises(errors.CredentialNotAllowedError, login, r, allow_credentials=[]) and not r.log else 1)
""", needs='an empty allow list', breaks='An empty allow list is treated as no allow list, so every credential is accepted.'),
dict(id='c03-empty-handle', property='C03',
 edits=[('backends.py', "            if response.user_handle is not None:\n                if response.user_handle != user.id:",
         "            if response.user_handle:\n                if response.user_handle != user.id:")],
 demo="""
r = Reg()
sys.exit(0 if raises(errors.UserHandleError, login, r, handle=b'') and not r.log else 1)
""", needs='an assertion with a zero-length user handle', breaks='An empty user handle is not compared with the user ID.'),
dict(id='c05-signed-counter', property='C05',
 edits=[('parsers.py', "    signature_counter_uint32, = struct.unpack('>I', signature_counter_bytes)",
         "    signature_counter_uint32, = struct.unpack('>i', signature_counter_bytes)")],
 demo="""
r = login(count=0x80000001, stored=0x7fffffff)
assert r.log[0]['authenticator_data'].sign_count == 0x80000001
""", needs='a signature counter of 2^31 or more', breaks='The counter is read as a signed integer: large counters look negative.'),
dict(id='c06-strip-client-data', property='C06',
 edits=[('backends.py', """            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data =""", """            client_data_JSON_hash = hashlib.sha256(
                response.client_data_JSON.strip()).digest()
            rp_id_hash = hashlib.sha256(rp.id.encode('utf-8')).digest()

            auth_data =""")],
 demo="""
k = EC(); cd = cdata(); ad = adata(1, 1)
sig = k.sign(ad + hashlib.sha256(cd).digest())
login(cd=cd, ad=ad, sig=sig)
r = Reg()
sys.exit(0 if raises(errors.VerificationError, login, r, cd=cd + b'\\n', ad=ad, sig=sig) and not r.log else 1)
""", needs='client data altered by leading or trailing whitespace after signing', breaks='Whitespace around the client data JSON is not covered by the signature check.'),
dict(id='c07-falsy-result', property='C07',
 edits=[('backends.py', """            if response is not None:
                raise RegistrationError(
                    'Failed to register credential assertion ({})'.format(""",
  """            if response:
                raise RegistrationError(
                    'Failed to register credential assertion ({})'.format(""")],
 demo="""
r = Reg(); r.ret = False
sys.exit(0 if raises(errors.RegistrationError, login, r) else 1)
""", needs='a registrar that answers with a falsy value other than None', breaks='A registrar answer of False or 0 to an assertion is taken for success.'),
dict(id='c07-user-entity', property='C07',
 edits=[('backends.py', """                    raise UserIDError(
                        'Registered user and provided user IDs do not match')
""", """                    raise UserIDError(
                        'Registered user and provided user IDs do not match')

                user = registered_user
""")],
 demo="""
mine = t.PublicKeyCredentialUserEntity(name='current', id=b'uid', display_name='Current')
r = login(user=mine)
sys.exit(0 if r.log[0]['user'] is mine else 1)
""", needs="an authentication whose given user object differs from the stored one in name only", breaks="The registrar is given the stored user entity rather than the caller's."),
dict(id='c08-credential-cache', property='C08',
 edits=[('backends.py', """        self.registrar = registrar

    def _extract""", """        self.registrar = registrar
        self._credentials: dict = {}

    def _extract"""),
 ('backends.py', """                credential_data = self.registrar.get_credential_data(
                    credential.raw_id)
""", """                credential_data = self._credentials.get(credential.raw_id)
                if credential_data is None:
                    credential_data = self.registrar.get_credential_data(
                        credential.raw_id)
                    self._credentials[credential.raw_id] = credential_data
""")],
 demo="""
# log in, let the RP store the counter, then replay the very same response
k = EC(); r = Reg(); be = CredentialsBackend(r)
r.data[b'cid'] = CredentialData(k.lib(), 0, USER, RP)
login(r, be, key=k, count=5)
r.data[b'cid'] = CredentialData(k.lib(), 5, USER, RP)
sys.exit(0 if raises(errors.SignatureCountError, login, r, be, key=k, count=5) else 1)
""", needs='two logins with one credential through one backend', breaks='Credential data is cached in the backend, so stored counters and re-registered or removed credentials are not seen.'),
dict(id='c09-narrow-except', property='C09',
 edits=[('backends.py', """            try:
                response = self.registrar.register_credential_assertion(
                    credential=credential,
                    authenticator_data=auth_data,
                    user=user,
                    rp=rp,
                )
            except Exception as e:
                raise RegistrationError(
                    'Failed to register credential assertion ({!r})'.format(e))

            if response is not None:
                raise RegistrationError(
                    'Failed to register credential assertion ({})'.format(
                        response))
        except WebAuthnRPError:
            raise
        except Exception as e:""", """            try:
                response = self.registrar.register_credential_assertion(
                    credential=credential,
                    authenticator_data=auth_data,
                    user=user,
                    rp=rp,
                )
            except Exception as e:
                raise RegistrationError(
                    'Failed to register credential assertion ({!r})'.format(e))

            if response is not None:
                raise RegistrationError(
                    'Failed to register credential assertion ({})'.format(
                        response))
        except WebAuthnRPError:
            raise
        except (AssertionError, KeyError, TypeError, ValueError) as e:""")],
 demo="""
# a registration response presented to the authentication ceremony
r = Reg(); r.data[b'cid'] = CredentialData(EC().lib(), 0, USER, RP)
cred = t.PublicKeyCredential(id='Y2lk', type='public-key', raw_id=b'cid', response=t.AuthenticatorAttestationResponse(
    client_data_JSON=cdata(), attestation_object=b''))
try:
    CredentialsBackend(r).handle_credential_assertion(credential=cred, user=USER, rp=RP, expected_challenge=CHAL, expected_origin=ORIGIN)
    sys.exit(1)
except errors.WebAuthnRPError: pass
except Exception as e:
    print(repr(e)); sys.exit(1)
""", needs='a response of the other kind, or registrar data that raises an attribute error when read', breaks='Attribute errors and other unexpected exceptions escape the authentication ceremony.'),
dict(id='c10-sorted-keys', property='C10',
 edits=[('parsers.py', """    unsupported_keys = set(data.keys()).difference(supported)
    if unsupported_keys:""", """    unsupported_keys = sorted(set(data.keys()).difference(supported))
    if unsupported_keys:""")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_none_attestation_statement, {'a': 1, 2: 3}) else 1)
""", needs='a statement with unsupported keys of two different types', breaks='Sorting the unsupported keys raises TypeError for keys of mixed type.'),
dict(id='c10-b64-nonascii', property='C10',
 edits=[('parsers.py', """        return base64.b64decode(s)
    except Exception:
""", """        return base64.b64decode(s.encode('ascii'))
    except base64.binascii.Error:
""")],
 demo="""
d = {'id': 'a', 'type': 'public-key', 'rawId': 'caf\\u00e9', 'response': {'clientDataJSON': '', 'attestationObject': ''}}
sys.exit(0 if raises(errors.DecodingError, parse_public_key_credential, d) else 1)
""", needs='a base64 member with non-ASCII characters', breaks='Non-ASCII base64 strings raise UnicodeEncodeError instead of DecodingError.'),
dict(id='c12-utf16', property='C12',
 edits=[('parsers.py', "        client_data_text = client_data_JSON.decode('utf-8')\n        client_data = json.loads(client_data_text)\n",
   "        client_data = json.loads(client_data_JSON)\n")],
 demo="""
sys.exit(0 if raises(errors.DecodingError, parse_client_data, cdata().decode().encode('utf-16')) else 1)
""", needs='client data in UTF-16 or UTF-32 (or with a byte order mark)', breaks='json.loads detects the encoding itself, so client data that is not UTF-8 is accepted.'),
dict(id='c12-tb-supported-id', property='C12',
 edits=[('parsers.py', """        token_binding = TokenBinding(status=token_binding_status_enum,
                                     id=token_binding_id)""",
 """        token_binding = TokenBinding(
            status=token_binding_status_enum,
            id=token_binding_id if token_binding_status_enum
            == TokenBindingStatus.PRESENT else None)""")],
 demo="""
c = parse_client_data(cdata(tokenBinding={'status': 'supported', 'id': 'abc'}))
sys.exit(0 if c.token_binding.id == 'abc' else 1)
""", needs='a token binding with status "supported" that carries an id', breaks='The id of a "supported" token binding is dropped.'),
dict(id='c13-cid-signed', property='C13',
 edits=[('parsers.py', """            credential_id_length_uint16, = struct.unpack(
                '>H', credential_id_length_bytes)""", """            credential_id_length_uint16, = struct.unpack(
                '>h', credential_id_length_bytes)""")],
 demo="""
big = b'x' * 40000
p = parse_authenticator_data(adata(0x41, 0, acd(EC(), cid=big)))
sys.exit(0 if p.attested_credential_data.credential_id == big else 1)
""", needs='a credential id of 32768 bytes or more', breaks='The credential id length is read as signed.'),
dict(id='c13-leftover-no-ext', property='C13',
 edits=[('parsers.py', "    if remaining_bytes_io.read1(1) != b'':", "    if not extension_data_included and remaining_bytes_io.read1(1) != b'':")],
 demo="""
d = adata(0x81, 0, b'', cbor2.dumps({'appid': True}))
parse_authenticator_data(d)
sys.exit(0 if raises(errors.ParserError, parse_authenticator_data, d + b'\\0') else 1)
""", needs='extra bytes after the extension map', breaks='Leftover bytes after extensions are accepted.'),
dict(id='c14-loc-bool', property='C14',
 edits=[('parsers.py', "        if any(type(x) not in (int, float) for x in loc.values()):", "        if not all(isinstance(x, (int, float)) for x in loc.values()):")],
 demo="""
sys.exit(0 if raises(errors.ParserError, parse_extensions, {'loc': {'latitude': True}}) else 1)
""", needs='a loc extension with a boolean coordinate', breaks='A boolean coordinate is accepted as a number.'),
dict(id='c14-loc-zero', property='C14',
 edits=[('parsers.py', "                          altitude_accuracy=loc.get('altitudeAccuracy'),", "                          altitude_accuracy=loc.get('altitudeAccuracy') or None,")],
 demo="""
e = parse_extensions({'loc': {'altitudeAccuracy': 0.0}})
sys.exit(0 if e.loc.altitude_accuracy == 0.0 and e.loc.altitude_accuracy is not None else 1)
""", needs='a loc extension with altitudeAccuracy 0', breaks='A zero altitude accuracy becomes None.'),
dict(id='c15-y-length', property='C15',
 edits=[('parsers.py', "    if len(x) != crv_len or len(y) != crv_len:", "    if len(x) + len(y) != 2 * crv_len:")],
 demo="""
k = EC().cose(); k[-2], k[-3] = k[-2] + k[-3][:1], k[-3][1:]
sys.exit(0 if raises(errors.ParserError, parse_cose_key, k) else 1)
""", needs='coordinates of unequal length whose lengths add up', breaks='Only the total length of x and y is checked.'),
dict(id='c16-empty-kid', property='C16',
 edits=[('converters.py', "    if credential_public_key.kid is not None:", "    if credential_public_key.kid:")],
 demo="""
k = EC().cose(); k[2] = b''
p = parse_cose_key(k)
sys.exit(0 if parse_cose_key(cose_key(p)).kid == b'' else 1)
""", needs='a key with an empty kid', breaks='An empty kid is lost by COSE encoding.'),
]
