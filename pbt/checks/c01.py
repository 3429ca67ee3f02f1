"""C01: registration succeeds exactly when every ceremony requirement holds."""
from pbt.stx import st

from pbt import gen, stripped
from pbt.core import prop

RULE = """A case is a history of 1 to 4 registration ceremonies on one backend, each an honest response
for a generated RP configuration altered by 0 to 3 deviations (near misses of type, challenge,
origin, token binding, RP ID hash, flags, extensions, key/algorithm pairing, attestation). The
reference model lists the violated requirements from the final contents. Look-alike cases replace
one text that must match by one easily taken for it (padding, case, blanks, normal forms).
Non-trivial: the history
contains an accepted ceremony with a configured option (token binding, UV, extensions, several
origins or a signed attestation) or a refused ceremony with exactly one violated requirement.
Distinct by the tuple of (format, violated set, configured options, curve, flags) of its steps."""
ASSUMES = ['ECDSA / EdDSA signatures over altered data or by other keys do not verify by chance']


@st.composite
def histories(draw):
    n = draw(st.sampled_from([1, 1, 2, 3, 4]))
    cfg = draw(gen.rp_config()) if draw(st.booleans()) else None
    return [draw(gen.registration(cfg)) for _ in range(n)]


def step_key(c, viol):
    cfg = c['cfg']
    return (c['att']['fmt'], tuple(sorted(viol)), cfg['tb'], cfg['uv'], tuple(cfg['ext'] or ()),
            cfg['container'], len(cfg['origins']), c['ad']['flags'],
            c['ad']['acd'] and c['ad']['acd']['key']['crv'])


def run_history(cases, rec, judge):
    from webauthn_rp.backends import CredentialsBackend
    reg = gen.make_registrar()
    be = CredentialsBackend(reg)
    keys, interesting = [], False
    for i, c in enumerate(cases):
        kw, viol, info = gen.build_registration(c)
        reg.calls.clear()
        out = gen.outcome(be.handle_credential_attestation, **kw)
        judge(i, c, kw, viol, info, out, reg)
        cfg = c['cfg']
        rec.label('accepted' if not viol else 'refused:%d' % len(viol))
        if len(viol) == 1:
            rec.label('only:' + min(viol))
            interesting = True
        if not viol:
            rec.label('fmt:' + c['att']['fmt'])
            interesting |= bool(cfg['tb'] or cfg['uv'] or cfg['ext'] or len(cfg['origins']) > 1
                                or c['att']['fmt'] != 'none')
        keys.append(step_key(c, viol))
    if interesting:
        rec.nt(tuple(keys), sample=keys)


def judge_decision(rec):
    def judge(i, c, kw, viol, info, out, reg):
        recs = gen.records(reg)
        if not viol:
            rec.check(out[0] == 'ok', 'honest registration refused', step=i, error=out[2])
            rec.check(len(recs) == 1 and recs[0][0] == 'attestation',
                      'registrar not informed exactly once', calls=recs)
            got = recs[0][1]
            rec.check(got['credential'] is kw['credential'], 'registrar got another credential')
            rec.check(gen.same(gen.auth_view(got['att'].auth_data), gen.auth_model(info['ad'])),
                      'registrar got wrong authenticator data',
                      got=gen.auth_view(got['att'].auth_data), want=gen.auth_model(info['ad']))
        else:
            rec.check(out[0] == 'error', 'registration accepted in spite of violations', step=i,
                      violated=sorted(viol))
            rec.check(not recs, 'registrar informed of a refused registration', step=i,
                      violated=sorted(viol))
    return judge


@prop(histories, quick=8000, thorough=100000)
def decision(case, rec):
    run_history(case, rec, judge_decision(rec))


@st.composite
def singles(draw):
    """One deviation at a time, those with many ways more often."""
    dev = draw(st.sampled_from(gen.REG_DEVS + ['origin', 'origin', 'att', 'att', 'challenge', 'ext']))
    return [draw(gen.registration(max_devs=1, allow=[dev]))]


@prop(singles, quick=14000, thorough=160000)
def single_deviation(case, rec):
    run_history(case, rec, judge_decision(rec))


@st.composite
def attested(draw):
    """Signed attestations, mostly with one thing wrong with them and nothing else wrong."""
    return [draw(gen.registration(max_devs=1, allow=['att'], fmts=['fido-u2f', 'android-key', 'android-key']))]


@prop(attested, quick=6000, thorough=60000)
def attestation(case, rec):
    run_history(case, rec, judge_decision(rec))


@st.composite
def look_alikes(draw):
    return [draw(gen.look_alike(False))]


@prop(look_alikes, quick=8000, thorough=60000)
def look_alike(case, rec):
    """What must match is compared exactly: texts easily taken for one another are told apart."""
    run_history(case, rec, judge_decision(rec))


@prop(singles, quick=2400, thorough=40000, shards=4)
def without_asserts(case, rec):
    """The same under `python -O`: no requirement may rest on an assert statement."""
    stripped.enter()
    rec.label('compiled without assert statements')
    run_history(case, rec, judge_decision(rec))
