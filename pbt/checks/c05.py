"""C05: the signature counter detects clones over every login history."""
import struct

from pbt import gen
from pbt.core import prop
from pbt.stx import memo, st

RULE = """A case is a history of 1 to 12 correctly signed logins with one credential (received counts
absolute boundary values or relative to the stored count, clone errors ignored or not, the store
reset to None or to an arbitrary count in between); the registrar stores whatever count it is
given. The model keeps the stored count. Non-trivial: the history has a refused login, or an
accepted one with a count of at least 2^31, equal to stored + 1, both zero, or ignored."""
ASSUMES = []
CFG = {'rp_id': 'example.com', 'challenge': b'0123456789abcdef',
       'origins': [{'s': 'https://example.com', 'key': ('https', 'example.com', 443)}],
       'container': 'str', 'tb': None, 'uv': False, 'ext': None}


@memo
def counts():
    return st.one_of(
        st.tuples(st.just('abs'), gen.biased_ints(0, 2**32 - 1)),
        st.tuples(st.just('abs'), st.sampled_from([0, 1, 2, 127, 128, 255, 256, 65535, 65536,
                                                   2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1])),
        st.tuples(st.just('rel'), st.sampled_from([-256, -2, -1, 0, 0, 1, 1, 2, 255, 256, 2**16,
                                                   2**24, 2**31, -2**31, -2**24])))


@memo
def ops():
    return st.lists(st.one_of(
        st.tuples(st.just('login'), counts(), st.sampled_from([False, False, False, True])),
        st.tuples(st.just('login'), counts(), st.just(False)),
        st.tuples(st.just('store'), st.none() | counts())), min_size=1, max_size=30)


@memo
def case():
    return st.fixed_dictionaries({
        'key': gen.key_spec(extras=False), 'start': st.none() | gen.biased_ints(0, 2**32 - 1) |
        st.sampled_from([0, 0]), 'ops': ops(), 'ext': st.sampled_from([None, None, {'appid': True}]),
        'flags': st.sampled_from([1, 5])})


def resolve(c, stored):
    if c[0] == 'abs':
        return c[1]
    return min(2**32 - 1, max(0, (stored or 0) + c[1]))


@prop(case, quick=36000, thorough=200000)
def histories(c, rec):
    from webauthn_rp import types as t
    from webauthn_rp.backends import CredentialsBackend
    from webauthn_rp.errors import SignatureCountError
    from webauthn_rp.registrars import CredentialData
    reg = gen.make_registrar()
    be = CredentialsBackend(reg)
    key, lk = gen.the_key(c['key']), gen.lib_key(c['key'])
    cd = gen.render_client_data({'members': [('type', 'webauthn.get'),
                                             ('challenge', gen.b64url(CFG['challenge'])),
                                             ('origin', 'https://example.com')], 'style': 0})
    user = t.PublicKeyCredentialUserEntity(name='u', id=b'uid', display_name='U')
    stored = c['start']
    interesting = False
    log = []
    for op in c['ops']:
        if op[0] == 'store':
            stored = None if op[1] is None else resolve(op[1], stored)
            continue
        n, ignore = resolve(op[1], stored), op[2]
        flags = c['flags'] | (128 if c['ext'] is not None else 0)
        ad = gen.render_auth_data({'rp_hash': gen.sha256(b'example.com'), 'flags': flags,
                                   'count': n, 'ext': c['ext']})
        sig = key.sign(ad + gen.sha256(cd))
        reg.calls.clear()
        reg.data = CredentialData(credential_public_key=lk, signature_count=stored,
                                  user_entity=user)
        kw = dict(ignore_clone_error=True) if ignore else {}
        out = gen.outcome(
            be.handle_credential_assertion,
            credential=t.PublicKeyCredential(
                id='x', type='public-key', raw_id=b'cred',
                response=t.AuthenticatorAssertionResponse(
                    client_data_JSON=cd, authenticator_data=ad, signature=sig)),
            rp=t.PublicKeyCredentialRpEntity(name='r', id='example.com'), user=user,
            expected_challenge=CFG['challenge'], expected_origin='https://example.com', **kw)
        recs = gen.records(reg)
        log.append((stored, n, ignore, out[1] if out[0] == 'error' else 'ok'))
        suspect = stored is not None and (stored != 0 or n != 0) and n <= stored
        if suspect and not ignore:
            rec.check(out[0] == 'error' and isinstance(out[2], SignatureCountError),
                      'counter regression not reported', history=log, error=out[2])
            rec.check(not recs, 'refused login recorded', history=log)
            rec.label('refused' + (' equal' if n == stored else ''))
            interesting = True
        else:
            rec.check(out[0] == 'ok', 'login refused although the counter is fine', history=log,
                      error=out[2])
            rec.check(len(recs) == 1 and recs[0][0] == 'assertion', 'login not recorded once',
                      history=log)
            got = recs[0][1]['authenticator_data'].sign_count
            rec.check(type(got) is int and got == n, 'registrar was given another count',
                      got=got, sent=n)
            what = ('no stored count' if stored is None else 'both zero' if not (stored or n)
                    else 'ignored' if suspect else 'increased')
            rec.label('accepted ' + what + (' >=2^31' if n >= 2**31 else ''))
            interesting |= what in ('both zero', 'ignored') or n >= 2**31 or n == (stored or 0) + 1
            stored = got
    if interesting:
        rec.nt(tuple(log), sample=log)
