"""C24: only verified attestation formats are accepted, with the right attestation type."""
from pbt import cborx, gen
from pbt.checks.c22 import att_object, check_result
from pbt.core import prop
from pbt.curves import Key, certificate
from pbt.stx import st

RULE = """Direct cases: every statement class of the library (none; packed plain, X.509 and ECDAA; the
three TPM variants; SafetyNet; the abstract base) with arbitrary field values, genuine signatures over the
right data and genuine certificates included, and with or without credential data. Ceremony cases: whole
registrations whose attestation is of any format and variant, the verifiable formats included, valid or
not; the registrar must see exactly the type and trust path that the format's verification establishes,
or nothing. Histories reuse one backend. Non-trivial: every case. Distinct by content."""
ASSUMES = ['an unimplemented format whose response also violates another requirement may be refused '
           'with either error']

KINDS = ['none', 'packed', 'packed-x5c', 'packed-ecdaa', 'tpm', 'tpm-x5c', 'tpm-ecdaa', 'safetynet',
         'base']


@st.composite
def direct_case(draw):
    return {'kind': draw(st.sampled_from(KINDS)), 'key': draw(gen.key_spec()),
            'fmt': draw(st.sampled_from(['packed', 'tpm', 'android-safetynet', 'none', 'fido-u2f',
                                         'android-key'])),
            'rp': draw(st.binary(min_size=32, max_size=32)),
            'cdh': draw(st.binary(min_size=32, max_size=32)), 'cid': draw(gen.blob(0, 2000)),
            'ad': draw(gen.blob(0, 60)), 'flags': draw(st.integers(0, 255)),
            'aaguid': draw(st.sampled_from([bytes(16), b'\xff' * 16])),
            'sign': draw(st.sampled_from(['self', 'cert', 'junk'])), 'junk': draw(st.one_of(st.just(b''), st.binary(max_size=72))),
            'alg': draw(st.sampled_from(sorted(gen.ALG))), 'names': draw(st.booleans()),
            'ver': draw(st.one_of(st.sampled_from(['1', '2.0', '', '0']), gen.text(8))),
            'area': draw(st.one_of(st.just(b''), gen.blob(0, 60))),
            'x5c': draw(st.integers(0, 2)), 'acd': draw(st.integers(0, 9)), 'raw': draw(st.booleans())}


@prop(direct_case, quick=16000, thorough=120000)
def direct(c, rec):
    from webauthn_rp import types as t
    from webauthn_rp.attesters import attest, attest_none
    from webauthn_rp.errors import UnimplementedError
    k = gen.the_key(c['key'])
    ck = Key('P-256', 21, 'ES256')
    msg = c['ad'] + c['cdh']
    sig = {'self': k.sign(msg), 'cert': ck.sign(msg), 'junk': c['junk']}[c['sign']]
    alg = k.alg if c['sign'] == 'self' else 'ES256' if c['sign'] == 'cert' else c['alg']
    alg = t.COSEAlgorithmIdentifier(alg if c['names'] else gen.ALG[alg])
    x5c = [certificate(ck.spki()), certificate(k.spki())][:c['x5c']]
    base = dict(alg=alg, sig=sig)
    tpm = dict(base, ver=c['ver'], cert_info=c['junk'], pub_area=c['area'])
    o = {
        'none': lambda: t.NoneAttestationStatement(),
        'packed': lambda: t.PackedAttestationStatement(**base),
        'packed-x5c': lambda: t.PackedX509AttestationStatement(x5c=x5c, **base),
        'packed-ecdaa': lambda: t.PackedECDAAAttestationStatement(ecdaa_key_id=c['area'], **base),
        'tpm': lambda: t.TPMAttestationStatement(**tpm),
        'tpm-x5c': lambda: t.TPMX509AttestationStatement(x5c=x5c, **tpm),
        'tpm-ecdaa': lambda: t.TPMECDAAAttestationStatement(ecdaa_key_id=c['area'], **tpm),
        'safetynet': lambda: t.AndroidSafetyNetAttestationStatement(ver=c['ver'], response=c['junk']),
        'base': lambda: t.AttestationStatement(**base),
    }[c['kind']]()
    ao = att_object(c, c['fmt'], o, gen.lib_key(c['key']))
    if c['acd'] == 0:
        ao.auth_data.attested_credential_data = None
    before = gen.view(ao)
    none = c['kind'] == 'none'
    fn = attest_none if none and c['raw'] else attest
    try:
        r = fn(o, ao, c['ad'], c['cdh'])
    except UnimplementedError as e:
        rec.check(not none, 'none attestation refused', error=e)
    except Exception as e:
        rec.fail('not an UnimplementedError', error=e, kind=c['kind'])
    else:
        rec.check(none, 'unverifiable statement attested', kind=c['kind'], got=r)
        rec.check(len(r) == 2 and r[0] is t.AttestationType.NONE and r[1] is None,
                  'result of none attestation', got=r)
    rec.check(gen.view(ao) == before, 'the attestation object was modified')
    rec.label('%s %s' % (c['kind'], c['sign']))
    rec.nt(c)


@st.composite
def ceremony_case(draw):
    cfg = draw(gen.rp_config())
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        allow = draw(st.sampled_from([['unimpl'], ['unimpl'], ['att'], [], ['unimpl', 'uv', 'challenge']]))
        s = draw(gen.registration(cfg=cfg, allow=allow))
        # genuine signatures by the credential's own key for the formats nobody verifies
        s['own'] = draw(st.booleans())
        steps.append(s)
    return {'steps': steps}


@prop(ceremony_case, quick=12000, thorough=80000)
def ceremony(c, rec):
    from webauthn_rp import types as t
    from webauthn_rp.backends import CredentialsBackend
    from webauthn_rp.errors import UnimplementedError
    reg = gen.make_registrar()
    be = CredentialsBackend(reg)
    done = 0
    for s in c['steps']:
        kw, viol, info = gen.build_registration(s)
        if 'unimpl' in viol and s['own'] and 'sig' in info['stmt'] and s['ad']['acd'] is not None:
            k = gen.the_key(s['ad']['acd']['key'])
            info['stmt']['alg'] = gen.ALG[k.alg]
            info['stmt']['sig'] = k.sign(info['raw_ad'] + info['cdh'])
            if 'x5c' in info['stmt']:
                info['stmt']['x5c'] = [certificate(k.spki())]
            kw['credential'].response.attestation_object = cborx.encode(
                {'fmt': s['att']['fmt'], 'attStmt': info['stmt'], 'authData': info['raw_ad']}, s['enc'])
        out = gen.outcome(be.handle_credential_attestation, **kw)
        got = gen.records(reg)
        if viol:
            rec.check(out[0] == 'error', 'registration succeeded', violated=sorted(viol), att=s['att'])
            rec.check(len(got) == done, 'a refused registration was recorded', violated=sorted(viol),
                      att=s['att'])
            if viol == {'unimpl'}:
                rec.check(isinstance(out[2], UnimplementedError), 'not an UnimplementedError',
                          error=out[2], att=s['att'])
        else:
            rec.check(out[0] == 'ok', 'registration failed', error=out[2], att=s['att'])
            done += 1
            rec.check(len(got) == done, 'records', got=len(got), want=done)
            a = got[-1][1]
            if s['att']['fmt'] == 'none':
                rec.check(a['att_type'] is t.AttestationType.NONE and a['trusted_path'] is None,
                          'type or path of none attestation', got=(a['att_type'], a['trusted_path']))
            else:
                check_result(rec, (a['att_type'], a['trusted_path']), info['stmt']['x5c'])
        rec.label('%s %s' % (s['att']['fmt'] + str(s['att'].get('v', '')), 'refused' if viol else 'recorded'))
    rec.nt(c)
