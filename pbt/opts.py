"""Recipes for option values: strategies, library objects made from them, and the expected JSON."""
import base64

from pbt import gen
from pbt.stx import memo, st

MISSING = '(not given)'


def b64(b):
    return base64.b64encode(b).decode()


def text():
    return st.one_of(st.sampled_from(['', 'a', 'example.com', 'snake_case', '\u00e9', '\U0001f600', 'A B', '"',
                                      'None', '0']), st.text(max_size=10), gen.text(10))


def opt(s):
    """Not given at all, given as None, or given."""
    return st.one_of(st.just(MISSING), st.none(), s, s)


def given(d):
    return {k: v for k, v in d.items() if v is not MISSING}


def some(d):
    return {k: v for k, v in d.items() if v is not MISSING and v is not None}


@memo
def rp():
    return st.fixed_dictionaries({'name': text(), 'id': text(), 'icon': opt(text())}).map(given)


@memo
def user():
    return st.fixed_dictionaries({'name': text(), 'id': gen.blob(0, 64), 'display_name': text(),
                                  'icon': opt(text())}).map(given)


@memo
def params():
    p = st.tuples(st.sampled_from(sorted(gen.ALG)), st.booleans())
    return st.tuples(gen.longer(st.lists(p, max_size=5)), st.booleans())


@memo
def descriptors():
    d = st.fixed_dictionaries({'id': gen.blob(0, 1500), 'transports': opt(
        st.lists(st.sampled_from(['usb', 'nfc', 'ble', 'internal']), max_size=5)),
        'tuple': st.booleans()})
    return st.tuples(gen.longer(st.lists(d.map(given), max_size=4)), st.booleans())


@memo
def selection():
    return st.fixed_dictionaries({
        'authenticator_attachment': opt(st.sampled_from(['platform', 'cross-platform'])),
        'require_resident_key': st.one_of(st.just(MISSING), st.booleans()),
        'user_verification': st.one_of(st.just(MISSING), st.sampled_from(
            ['required', 'preferred', 'discouraged']))}).map(given)


@memo
def extensions():
    num = st.one_of(st.sampled_from([0, 0.0, 1, 0.5, 1e-9]), st.floats(0, 1))
    return st.fixed_dictionaries({
        'appid': opt(text()), 'tx_auth_simple': opt(text()),
        'tx_auth_generic': opt(st.tuples(text(), gen.blob(0, 600))),
        'authn_sel': opt(st.lists(st.binary(min_size=16, max_size=16), max_size=5)),
        'exts': opt(st.booleans()), 'uvi': opt(st.booleans()), 'loc': opt(st.booleans()),
        'uvm': opt(st.booleans()), 'biometric_perf_bounds': opt(st.tuples(num, num))}).map(given)


def timeout():
    return st.one_of(st.sampled_from([0, 1, 60000]), st.sampled_from([0, 1, -1, -60000]), st.integers(0, 2**40), gen.biased_ints(0, 2**66))


# field -> strategy of its recipe (None always means: set to None)
CREATE = {'rp': rp, 'pub_key_cred_params': params, 'timeout': timeout,
          'authenticator_selection': selection, 'extensions': extensions,
          'attestation': lambda: st.sampled_from(['none', 'indirect', 'direct']),
          'exclude_credentials': descriptors}
REQUEST = {'mediation': lambda: st.sampled_from(['silent', 'optional', 'required']), 'timeout': timeout,
           'rp_id': text, 'extensions': extensions,
           'user_verification': lambda: st.sampled_from(['required', 'preferred', 'discouraged'])}
CREATE_DEFAULT = {'rp': None, 'pub_key_cred_params': None, 'timeout': None,
                  'authenticator_selection': None, 'extensions': None, 'attestation': 'none',
                  'exclude_credentials': None}
REQUEST_DEFAULT = {'mediation': 'optional', 'timeout': None, 'rp_id': None, 'extensions': None,
                   'user_verification': 'preferred'}
# setters that must be given a value, and members without which building fails
CREATE_NEED = {'rp', 'pub_key_cred_params', 'attestation'}
REQUEST_NEED = {'mediation'}


def make(field, r):
    """The library object for a recipe, made afresh on every call."""
    from webauthn_rp import types as t
    if r is None:
        return None
    if field == 'rp':
        return t.PublicKeyCredentialRpEntity(**r)
    if field == 'user':
        return t.PublicKeyCredentialUserEntity(**r)
    if field == 'pub_key_cred_params':
        out = [t.PublicKeyCredentialParameters(
            type=t.PublicKeyCredentialType.PUBLIC_KEY,
            alg=t.COSEAlgorithmIdentifier(a if by_name else gen.ALG[a])) for a, by_name in r[0]]
        return tuple(out) if r[1] else out
    if field in ('exclude_credentials', 'allow_credentials'):
        out = []
        for d in r[0]:
            kw = {k: v for k, v in d.items() if k != 'tuple'}
            if kw.get('transports') is not None:
                kw['transports'] = [t.AuthenticatorTransport(x) for x in kw['transports']]
                if d['tuple']:
                    kw['transports'] = tuple(kw['transports'])
            out.append(t.PublicKeyCredentialDescriptor(type=t.PublicKeyCredentialType.PUBLIC_KEY, **kw))
        return tuple(out) if r[1] else out
    if field == 'authenticator_selection':
        kw = dict(r)
        if kw.get('authenticator_attachment') is not None:
            kw['authenticator_attachment'] = t.AuthenticatorAttachment(kw['authenticator_attachment'])
        if 'user_verification' in kw:
            kw['user_verification'] = t.UserVerificationRequirement(kw['user_verification'])
        return t.AuthenticatorSelectionCriteria(**kw)
    if field == 'extensions':
        kw = dict(r)
        if kw.get('tx_auth_generic') is not None:
            kw['tx_auth_generic'] = t.TxAuthGenericArg(content_type=kw['tx_auth_generic'][0],
                                                       content=kw['tx_auth_generic'][1])
        if kw.get('authn_sel') is not None:
            kw['authn_sel'] = list(kw['authn_sel'])
        if kw.get('biometric_perf_bounds') is not None:
            kw['biometric_perf_bounds'] = t.AuthenticatorBiometricPerfBounds(
                FAR=kw['biometric_perf_bounds'][0], FRR=kw['biometric_perf_bounds'][1])
        return t.AuthenticationExtensionsClientInputs(**kw)
    if field == 'attestation':
        return t.AttestationConveyancePreference(r)
    if field == 'mediation':
        return t.CredentialMediationRequirement(r)
    if field == 'user_verification':
        return t.UserVerificationRequirement(r)
    return r


def js(field, r):
    """Expected JSON of a recipe (never None)."""
    if field == 'rp':
        return some(r)
    if field == 'user':
        out = some(r)
        out['id'] = b64(r['id'])
        out['displayName'] = out.pop('display_name')
        return out
    if field == 'challenge':
        return b64(r)
    if field == 'pub_key_cred_params':
        return [{'type': 'public-key', 'alg': a if by_name else gen.ALG[a]} for a, by_name in r[0]]
    if field in ('exclude_credentials', 'allow_credentials'):
        out = []
        for d in r[0]:
            e = {'type': 'public-key', 'id': b64(d['id'])}
            if d.get('transports') is not None:
                e['transports'] = list(d['transports'])
            out.append(e)
        return out
    if field == 'authenticator_selection':
        out = {'requireResidentKey': r.get('require_resident_key', False),
               'userVerification': r.get('user_verification', 'preferred')}
        if r.get('authenticator_attachment') is not None:
            out['authenticatorAttachment'] = r['authenticator_attachment']
        return out
    if field == 'extensions':
        out = {}
        for k, v in some(r).items():
            name = {v: k for k, v in gen.EXT.items()}[k]
            if name == 'txAuthGeneric':
                v = {'contentType': v[0], 'content': b64(v[1])}
            elif name == 'authnSel':
                v = [b64(x) for x in v]
            elif name == 'biometricPerfBounds':
                v = {'FAR': v[0], 'FRR': v[1]}
            out[name] = v
        return out
    return r


NAME = {'rp': 'rp', 'user': 'user', 'challenge': 'challenge', 'pub_key_cred_params': 'pubKeyCredParams',
        'timeout': 'timeout', 'exclude_credentials': 'excludeCredentials',
        'authenticator_selection': 'authenticatorSelection', 'attestation': 'attestation',
        'extensions': 'extensions', 'rp_id': 'rpId', 'allow_credentials': 'allowCredentials',
        'user_verification': 'userVerification'}


def expected_json(create, fields, call):
    """fields: builder recipes, call: recipes of the build call."""
    pk = {}
    for k, v in list(fields.items()) + list(call.items()):
        if k != 'mediation' and v is not None:
            pk[NAME[k]] = js(k, v)
    return {'publicKey': pk} if create else {'publicKey': pk, 'mediation': fields['mediation']}
