"""C22: fido-u2f attestation succeeds exactly for a valid U2F signature."""
from pbt import curves, gen
from pbt.core import prop
from pbt.curves import Key
from pbt.stx import st

RULE = """A case is a fido-u2f attestation made with an own signer, DER writer and certificate writer: a
credential key, a certificate key, RP ID hash, client data hash and credential id, and zero to three
deviations (number and order of certificates, certificate that does not load or has an unusable, RSA,
Ed25519/Ed448 or wrong-curve key, credential key on another curve or no point, signature over altered,
missing, repeated or reordered parts, with another key or hash, or malformed). Judged on the attester
called directly and on the registration ceremony. Non-trivial: a valid statement, or exactly one
deviation. Distinct by content."""
ASSUMES = ['a certificate whose extensions cannot be parsed but whose key is fine is not judged',
           'ECDSA signatures made by the harness are valid only for the message they were made for']


@st.composite
def direct_case(draw):
    n = draw(st.sampled_from([0, 0, 1, 1, 1, 1, 2, 3]))
    pool = gen.U2F_DEVS + ['sig'] * 6 + ['offcurve', 'short', 'reorder']
    devs = sorted(set(draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))))
    k = draw(gen.key_spec(curve='P-256'))
    if 'credkey' in devs:
        k = draw(gen.key_spec(curve=draw(st.sampled_from(['P-384', 'P-521', 'Ed25519', 'Ed448']))))
    else:
        k['alg'] = draw(st.sampled_from(['ES256', 'ES256', 'ES384', 'ES512']))
    return {'key': k, 'devs': devs, 'certd': draw(st.one_of(st.integers(1, 40), st.just(k['d'] if k['crv'] == 'P-256' else 7))),
            'look': draw(gen.looks()), 'n': draw(st.sampled_from([0, 2, 3])), 'p': draw(st.integers(0, 10**6)),
            'sig': draw(gen.sig_deviation(['zero', 'rp', 'cdh', 'cid', 'four', 'x', 'y'])) if
            'sig' in devs else None, 'rp': draw(st.binary(min_size=32, max_size=32)),
            'cdh': draw(st.binary(min_size=32, max_size=32)), 'cid': draw(gen.blob(0, 5000)),
            'ad': draw(gen.blob(0, 60)), 'flags': draw(st.integers(0, 255)), 'fn': draw(st.booleans()),
            'aaguid': draw(st.sampled_from([bytes(16), b'\xff' * 16, bytes(range(16))]))}


def expected_certificate(x5c):
    return x5c[0]


def certificate_bytes(o):
    from cryptography.hazmat.primitives.serialization import Encoding
    return o.public_bytes(Encoding.DER)


def att_object(c, fmt, stmt, key):
    from webauthn_rp import types as t
    return t.AttestationObject(
        auth_data=t.AuthenticatorData(
            rp_id_hash=c['rp'], flags=c['flags'], sign_count=3,
            attested_credential_data=t.AttestedCredentialData(
                aaguid=c['aaguid'], credential_id_length=len(c['cid']), credential_id=c['cid'],
                credential_public_key=key)),
        fmt=t.AttestationStatementFormatIdentifier(fmt), att_stmt=stmt)


@prop(direct_case, quick=28000, thorough=250000)
def direct(c, rec):
    from webauthn_rp import types as t
    from webauthn_rp.attesters import attest, attest_fido_u2f
    devs = set(c['devs'])
    key = gen.lib_key(c['key'])
    rk = gen.the_key(c['key'])
    stmt, ok = gen.build_att({'fmt': 'fido-u2f', 'devs': [d for d in c['devs'] if d in gen.U2F_DEVS],
                              'certd': c['certd'], 'n': c['n'], 'p': c['p'], 'nonce': 0, 'sig': c['sig'],
                              'look': c['look']},
                             {'key': c['key'], 'cid': c['cid']}, c['ad'], c['rp'], c['cdh'])
    ck = Key('P-256', c['certd'], 'ES256')
    if devs & {'offcurve', 'short'} and rk.ec:
        # the statement is signed over exactly what the credential key says
        if 'offcurve' in devs:
            x, y = int.from_bytes(rk.x, 'big'), int.from_bytes(rk.y, 'big')
            for i in range(99):
                x = (x + 1 + c['p'] % 7) % curves.CURVES[rk.crv].p
                if not curves.CURVES[rk.crv].on_curve(x, y):
                    break
            key.x = x.to_bytes(len(rk.x), 'big')
        else:
            f = c['p'] % 4
            key.x = [key.x[:-1], key.x + b'\x00', b'\x00' + key.x, key.x][f]
            if f == 3:
                key.y = [key.y[:-1], b'\x00' + key.y, b'', key.y + b'\x00'][c['p'] // 4 % 4]
        ok = False
        stmt['sig'] = ck.sign(b'\x00' + c['rp'] + c['cdh'] + c['cid'] + b'\x04' + key.x + key.y)
    if 'reorder' in devs and rk.ec and not devs & {'offcurve', 'short'}:
        parts = [b'\x00', c['rp'], c['cdh'], c['cid'], b'\x04', rk.x, rk.y]
        i = c['p'] % 6
        q = list(parts)
        q[i], q[i + 1] = q[i + 1], q[i]
        stmt['sig'] = ck.sign(b''.join(q))
        if 'sig' in devs or b''.join(q) != b''.join(parts):
            ok = b''.join(q) == b''.join(parts) and not devs - {'reorder', 'sig'} and rk.crv == 'P-256'
    obj = t.FIDOU2FAttestationStatement(sig=stmt['sig'], x5c=stmt['x5c'])
    ao = att_object(c, 'fido-u2f', obj, key)
    before = gen.view(ao)
    try:
        r = (attest_fido_u2f if c['fn'] else attest)(obj, ao, c['ad'], c['cdh'])
    except Exception as e:
        rec.check(not ok, 'a valid statement was refused', error=e, devs=c['devs'])
    else:
        rec.check(ok, 'an invalid statement was attested', devs=c['devs'], sig=c['sig'])
        check_result(rec, r, stmt['x5c'])
    rec.check(gen.view(ao) == before, 'the attestation object was modified')
    rec.label(','.join(c['devs']) if len(c['devs']) < 2 else '%d deviations' % len(c['devs']))
    if len(c['devs']) < 2:
        rec.nt(c)


def check_result(rec, r, x5c):
    from webauthn_rp import types as t
    rec.check(len(r) == 2, 'shape of the result', got=r)
    rec.check(r[0] is t.AttestationType.BASIC, 'attestation type', got=r[0])
    rec.check(r[1] is not None and len(list(r[1])) == 1, 'trust path length', got=r[1])
    rec.check(certificate_bytes(list(r[1])[0]) == x5c[0], 'trust path certificate')


@st.composite
def ceremony_case(draw):
    allow = ['att'] if draw(st.integers(0, 2)) else []
    return draw(gen.registration(allow=allow, fmts=['fido-u2f']))


@prop(ceremony_case, quick=8000, thorough=60000)
def ceremony(c, rec):
    run_ceremony(c, rec)


def run_ceremony(c, rec):
    """Registered with the right type and trust path exactly when the statement is valid."""
    from webauthn_rp.backends import CredentialsBackend
    kw, viol, info = gen.build_registration(c)
    reg = gen.make_registrar()
    out = gen.outcome(CredentialsBackend(reg).handle_credential_attestation, **kw)
    got = gen.records(reg)
    if viol:
        rec.check(out[0] == 'error', 'registration succeeded', violated=sorted(viol), att=c['att'])
        rec.check(not got, 'something was recorded', violated=sorted(viol))
        rec.check(gen.is_lib_error(out[2]), 'not a library error', error=out[2])
    else:
        rec.check(out[0] == 'ok', 'registration failed', error=out[2])
        rec.check(len(got) == 1, 'records', got=got)
        a = got[0][1] if isinstance(got[0], tuple) else got[0]
        check_result(rec, (a['att_type'], a['trusted_path']), info['stmt']['x5c'])
    rec.label(','.join(c['att']['devs']) or 'valid')
    rec.nt(c)
