"""C23: android-key attestation succeeds exactly when all its conditions hold."""
from pbt import gen
from pbt.checks.c22 import att_object, check_result, run_ceremony
from pbt.core import prop
from pbt.stx import st

RULE = """A case is an android-key attestation made with an own signer, DER writer and certificate writer:
any credential key (all curves), any stated ECDSA algorithm, key descriptions with any optional fields in
either authorization list, further certificates and extensions, and zero to three deviations (no, other,
swapped, malformed or unusable certificate; other key; signature over altered data, with another key or
hash; stated algorithm that is not the signing one; description missing, malformed in 19 ways, with another challenge,
allApplications in either list, origin or purpose missing, different or only software-enforced). Judged
on the attester called directly and on the registration ceremony. Non-trivial: a valid statement, or
exactly one deviation. Distinct by content."""
ASSUMES = ['bytes after the key description, repeated purposes and the algorithm stated for an '
           'Ed25519/Ed448 key are not judged (the existing tests accept the latter)']


@st.composite
def direct_case(draw):
    n = draw(st.sampled_from([0, 0, 1, 1, 1, 1, 2, 3]))
    devs = sorted(set(draw(st.lists(st.sampled_from(gen.ANDROID_DEVS + ['sig'] * 2), min_size=n,
                                    max_size=n))))
    k = draw(gen.key_spec())
    return {'key': k, 'att': draw(gen.android_att(set(devs))),
            'rp': draw(st.binary(min_size=32, max_size=32)),
            'cdh': draw(st.binary(min_size=32, max_size=32)), 'cid': draw(gen.blob(0, 2000)),
            'ad': draw(gen.blob(37, 2000)), 'flags': draw(st.integers(0, 255)), 'fn': draw(st.booleans()),
            'aaguid': draw(st.sampled_from([bytes(16), b'\xff' * 16, bytes(range(16))])),
            'offcurve': n == 0 and draw(st.integers(0, 9)) == 0}


@prop(direct_case, quick=24000, thorough=250000)
def direct(c, rec):
    from webauthn_rp import types as t
    from webauthn_rp.attesters import attest, attest_android_key
    key = gen.lib_key(c['key'])
    devs = c['att']['devs']
    stmt, ok = gen.build_att(c['att'], {'key': c['key'], 'cid': c['cid']}, c['ad'], c['rp'], c['cdh'])
    if c['offcurve']:
        # the credential key differs from the certificate's (and, for a curve point, is none)
        ok = False
        key.x = key.x[:-1] + bytes([key.x[-1] ^ 1])
    alg = t.COSEAlgorithmIdentifier(stmt['alg'])
    obj = t.AndroidKeyAttestationStatement(alg=alg, sig=stmt['sig'], x5c=stmt['x5c'])
    ao = att_object(c, 'android-key', obj, key)
    before = gen.view(ao)
    try:
        r = (attest_android_key if c['fn'] else attest)(obj, ao, c['ad'], c['cdh'])
    except Exception as e:
        rec.check(not ok, 'a valid statement was refused', error=e, devs=devs)
    else:
        rec.check(ok, 'an invalid statement was attested', devs=devs, sig=c['att']['sig'],
                  p=c['att']['p'])
        check_result(rec, r, stmt['x5c'])
    rec.check(gen.view(ao) == before, 'the attestation object was modified')
    rec.label(','.join(devs) if len(devs) < 2 else '%d deviations' % len(devs))
    if len(devs) < 2:
        rec.nt(c)


@st.composite
def ceremony_case(draw):
    allow = ['att'] if draw(st.integers(0, 2)) else []
    return draw(gen.registration(allow=allow, fmts=['android-key']))


@prop(ceremony_case, quick=8000, thorough=60000)
def ceremony(c, rec):
    run_ceremony(c, rec)
