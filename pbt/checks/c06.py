"""C06: any tampering with signed ceremony data is refused."""
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec

from pbt import cborx, curves, gen
from pbt.core import prop
from pbt.stx import memo, st

RULE = """A case is an honest ceremony (checked to be accepted first) and up to 6 tamperings, each applied
alone: bit flips, byte substitutions, truncation, extension, insertion, deletion, duplication and
substitution by the same part of another valid response (other challenge, other key or other
credential data), at generated positions of authenticator data, client data or signature, plus
meaning-preserving edits of the client data (white space, member order, extra members). Judged are
the tampered bytes that differ from the original; a changed signature that the cryptography package
itself still accepts for the key would be exempt. Non-trivial: at least one judged tampering.
Distinct by target, kind, position and key curve of the tamperings."""
ASSUMES = ['altered data or signatures do not verify by chance (2^-100 and less)']


@memo
def tamper():
    pos = st.one_of(st.integers(0, 10**6), st.integers(0, 80), st.integers(-80, -1))
    return st.one_of(
        st.tuples(st.just('flip'), pos, st.integers(0, 7)),
        st.tuples(st.just('flip'), pos, st.integers(0, 7)),
        st.tuples(st.just('set'), pos, st.integers(0, 255)),
        st.tuples(st.just('cut'), pos),
        st.tuples(st.just('head'), st.integers(1, 40)),
        st.tuples(st.just('extend'), st.binary(min_size=1, max_size=9)),
        st.tuples(st.just('prefix'), st.binary(min_size=1, max_size=9)),
        st.tuples(st.just('insert'), pos, st.binary(min_size=1, max_size=4)),
        st.tuples(st.just('delete'), pos, st.integers(1, 4)),
        st.tuples(st.just('double')), st.tuples(st.just('other'), st.integers(0, 3)),
        st.tuples(st.just('empty')), st.tuples(st.just('soft'), st.integers(0, 5)))


def apply(t, b, other):
    k = t[0]
    n = len(b)
    if k in ('flip', 'set', 'insert', 'delete', 'cut'):
        i = t[1] % n if n else 0
    if k == 'flip' and n:
        return b[:i] + bytes([b[i] ^ 1 << t[2]]) + b[i + 1:]
    if k == 'set' and n:
        return b[:i] + bytes([t[2]]) + b[i + 1:]
    if k == 'cut':
        return b[:i]
    if k == 'head':
        return b[t[1]:]
    if k == 'extend':
        return b + t[1]
    if k == 'prefix':
        return t[1] + b
    if k == 'insert':
        return b[:i] + t[2] + b[i:]
    if k == 'delete':
        return b[:i] + b[i + t[2]:]
    if k == 'double':
        return b + b
    if k == 'other':
        return other(t[1])
    if k == 'empty':
        return b''
    return b


def soft(cd, k):
    """Another client data object with the same meaning."""
    m = list(cd['members'])
    if k == 0:
        return gen.render_client_data(dict(cd, style=cd['style'] ^ 16))
    if k == 1:
        return gen.render_client_data(dict(cd, style=cd['style'] ^ 1))
    if k == 2:
        return gen.render_client_data(dict(cd, members=m + [('x', 1)]))
    if k == 3:
        return gen.render_client_data(dict(cd, style=4 if not cd['style'] & 4 else 0))
    if k == 4:
        return gen.render_client_data(cd).replace(b'webauthn', b'web\\u0061uthn')
    return gen.render_client_data(cd) + b'\n'


def valid_signature(key, alg, sig, data):
    try:
        if key.ec:
            h = {'ES256': hashes.SHA256, 'ES384': hashes.SHA384, 'ES512': hashes.SHA512}[alg]()
            pub = ec.derive_private_key(key.d, curves.CURVES[key.crv].cls()).public_key()
            pub.verify(sig, data, ec.ECDSA(h))
        else:
            curves.okp_private(key.crv, key.d).public_key().verify(sig, data)
        return True
    except InvalidSignature:
        return False


@st.composite
def auth_case(draw):
    return {'c': draw(gen.authentication(allow=())),
            'other': draw(gen.authentication(allow=())),
            'tampers': draw(st.lists(st.tuples(st.sampled_from(['ad', 'cd', 'sig']), tamper()),
                                     min_size=1, max_size=6))}


@prop(auth_case, quick=10000, thorough=80000)
def authentication(case, rec):
    from webauthn_rp import types as t
    from webauthn_rp.backends import CredentialsBackend
    c = dict(case['c'], ignore=True)
    kw, viol, info = gen.build_authentication(c)
    reg = gen.make_registrar()
    reg.data = info['data']
    be = CredentialsBackend(reg)
    out = gen.outcome(be.handle_credential_assertion, **kw)
    rec.check(not viol and out[0] == 'ok', 'honest authentication refused', error=out[2])
    good = {'ad': info['raw_ad'], 'cd': info['raw_cd'], 'sig': info['sig']}
    key = gen.the_key(c['key'])
    okw, _, oinfo = gen.build_authentication(case['other'])
    judged = []
    for target, tm in case['tampers']:
        def other(k):
            if target == 'sig':
                # other key over the same data; same key over other data; own signature twice
                if k == 0:
                    return curves.Key(key.crv, key.d % 40 + 1 + (key.d % 40 + 1 == key.d),
                                      key.alg).sign(good['ad'] + gen.sha256(good['cd']))
                if k == 1:
                    return key.sign(gen.sha256(good['cd']) + good['ad'])
                if k == 2:
                    return key.sign(good['ad'] + good['cd'])
                return oinfo['sig']
            if target == 'ad':
                return [oinfo['raw_ad'], gen.render_auth_data(dict(c['ad'], count=(
                    c['ad']['count'] + 1) % 2**32)), gen.render_auth_data(dict(
                        c['ad'], flags=c['ad']['flags'] ^ 2)), gen.render_auth_data(dict(
                            c['ad'], flags=c['ad']['flags'] | 4))][k]
            return [oinfo['raw_cd'], soft(c['cd'], 2), soft(c['cd'], 1), soft(c['cd'], 0)][k]

        if tm[0] == 'soft':
            target = 'cd'
            new = soft(c['cd'], tm[1])
        else:
            new = apply(tm, good[target], other)
        if new == good[target]:
            continue
        p = dict(good, **{target: new})
        if target == 'sig' and valid_signature(key, c['key']['alg'], new,
                                               p['ad'] + gen.sha256(p['cd'])):
            rec.label('other valid signature (not judged)')
            continue
        reg.calls.clear()
        old = kw['credential']
        kw2 = dict(kw, credential=t.PublicKeyCredential(
            id=old.id, type=old.type, raw_id=old.raw_id,
            response=t.AuthenticatorAssertionResponse(
                client_data_JSON=p['cd'], authenticator_data=p['ad'], signature=p['sig'],
                user_handle=old.response.user_handle)))
        out = gen.outcome(be.handle_credential_assertion, **kw2)
        rec.check(out[0] == 'error', 'tampered response accepted', target=target, tamper=tm,
                  original=good[target], tampered=new)
        rec.check(not gen.records(reg), 'tampered response recorded', target=target, tamper=tm)
        rec.label('%s %s %s' % (target, tm[0], out[1]))
        judged.append((target, ) + tm)
    if judged:
        rec.nt((key.crv, c['key']['alg'], judged), sample=(key.crv, judged))


@st.composite
def reg_case(draw):
    c = draw(gen.registration(allow=(), fmts=('fido-u2f', 'android-key')))
    return {'c': c, 'other': draw(gen.registration(allow=(), fmts=(c['att']['fmt'], ))),
            'tampers': draw(st.lists(st.tuples(
                st.sampled_from(['ad', 'cd', 'sig', 'field']), tamper(), st.integers(0, 5)),
                min_size=1, max_size=6))}


def u2f_field(ad, k, tm, oad):
    """Authenticator data with one field covered by the U2F signature changed."""
    acd = dict(ad['acd'])
    m = dict(acd['map'] if 'map' in acd else gen.cose_map(acd['key']))
    out = dict(ad)
    oacd = oad['acd']
    om = oacd['map'] if 'map' in oacd else gen.cose_map(oacd['key'])
    if k == 0:
        acd['cid'] = apply(tm, acd['cid'], lambda j: oacd['cid'])[:65535]
    elif k == 1:
        new = apply(tm, m[-2], lambda j: om[-2])
        m[-2] = (new + bytes(32))[:32]
    elif k == 2:
        new = apply(tm, m[-3], lambda j: om[-3])
        m[-3] = (new + bytes(32))[:32]
    elif k == 3:
        m[-2], m[-3] = om[-2], om[-3]
    elif k == 4:
        m[-2], m[-3] = m[-3], m[-2]
    else:
        acd['cid'] = acd['cid'] + m[-2][:1]
    acd['map'] = m
    out['acd'] = acd
    same = acd['cid'] == ad['acd']['cid'] and m == gen.cose_map(ad['acd']['key'])
    return out, same


@prop(reg_case, quick=8000, thorough=64000)
def registration(case, rec):
    from webauthn_rp import types as t
    from webauthn_rp.backends import CredentialsBackend
    c = case['c']
    fmt = c['att']['fmt']
    kw, viol, info = gen.build_registration(c)
    reg = gen.make_registrar()
    be = CredentialsBackend(reg)
    out = gen.outcome(be.handle_credential_attestation, **kw)
    rec.check(not viol and out[0] == 'ok', 'honest registration refused', error=out[2])
    okw, _, oinfo = gen.build_registration(case['other'])
    good = {'ad': info['raw_ad'], 'cd': info['raw_cd'], 'sig': info['stmt']['sig']}
    judged = []
    for target, tm, k in case['tampers']:
        if tm[0] == 'soft':
            target = 'cd'
        if target == 'field':
            new_ad, same = u2f_field(info['ad'], k, tm, oinfo['ad'])if fmt == 'fido-u2f' else (
                None, True)
            if same:
                continue
            target, new = 'ad', gen.render_auth_data(new_ad)
        elif target == 'ad' and fmt == 'fido-u2f':
            # only the RP ID hash is judged at byte level: flags, counter and AAGUID are unsigned
            head = apply(tm, good['ad'][:32], lambda j: oinfo['raw_ad'][:32])
            head = (head + bytes(32))[:32]
            new = head + good['ad'][32:]
        elif tm[0] == 'soft':
            new = soft(c['cd'], tm[1])
        else:
            new = apply(tm, good[target], lambda j: {
                'ad': oinfo['raw_ad'], 'cd': oinfo['raw_cd'],
                'sig': oinfo['stmt']['sig']}[target])
        if new == good[target]:
            continue
        p = dict(good, **{target: new})
        if target == 'sig':
            if fmt == 'fido-u2f':
                key, alg = curves.Key('P-256', c['att']['certd'], 'ES256'), 'ES256'
                m = gen.cose_map(info['ad']['acd']['key'])
                data = (b'\x00' + info['ad']['rp_hash'] + info['cdh'] + info['ad']['acd']['cid'] +
                        b'\x04' + m[-2] + m[-3])
            else:
                key = gen.the_key(info['ad']['acd']['key'])
                alg, data = key.alg, good['ad'] + info['cdh']
            if valid_signature(key, alg, new, data):
                rec.label('other valid signature (not judged)')
                continue
        obj = cborx.encode({'fmt': fmt, 'attStmt': dict(info['stmt'], sig=p['sig']),
                            'authData': p['ad']}, c['enc'])
        reg.calls.clear()
        old = kw['credential']
        kw2 = dict(kw, credential=t.PublicKeyCredential(
            id=old.id, type=old.type, raw_id=old.raw_id,
            response=t.AuthenticatorAttestationResponse(client_data_JSON=p['cd'],
                                                        attestation_object=obj)))
        out = gen.outcome(be.handle_credential_attestation, **kw2)
        rec.check(out[0] == 'error', 'tampered response accepted', target=target, tamper=tm,
                  fmt=fmt, original=good[target], tampered=new)
        rec.check(not gen.records(reg), 'tampered response recorded', target=target, tamper=tm)
        rec.label('%s %s %s %s' % (fmt, target, tm[0], out[1]))
        judged.append((target, tm, k))
    if judged:
        rec.nt((fmt, judged), sample=(fmt, judged))
