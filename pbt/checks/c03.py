"""C03: authentication succeeds exactly when every ceremony requirement holds."""
from pbt.stx import st

from pbt import gen
from pbt.core import prop

RULE = """A case is a history of 1 to 4 authentication ceremonies on one backend, each an honest response
for a generated configuration and stored credential, altered by 0 to 3 deviations (near misses of
allow list, stored credential, user, user handle, RP, type, challenge, origin, token binding, RP ID
hash, flags, extensions, signature, counter). The reference model lists the violated requirements
from the final contents. Look-alike cases replace one text that must match by one easily taken
for it (padding, case, blanks, normal forms). Non-trivial: the history has an accepted ceremony with a configured option
or a refused one with exactly one violated requirement. Distinct by the tuple of (violated set,
options, curve, algorithm, flags, user/handle/RP/allow/count shape) of its steps."""
ASSUMES = ['ECDSA / EdDSA signatures over altered data or by other keys do not verify by chance']


@st.composite
def histories(draw):
    n = draw(st.sampled_from([1, 1, 2, 3, 4]))
    cfg = draw(gen.rp_config()) if draw(st.booleans()) else None
    return [draw(gen.authentication(cfg)) for _ in range(n)]


@st.composite
def singles(draw):
    dev = draw(st.sampled_from(gen.AUTH_DEVS + ['sig'] * 4 + ['origin'] * 2 + ['challenge', 'ext', 'allow', 'rp', 'count']))
    return [draw(gen.authentication(max_devs=1, allow=[dev]))]


def step_key(c, viol):
    cfg = c['cfg']
    return (tuple(sorted(viol)), cfg['tb'], cfg['uv'], tuple(cfg['ext'] or ()), cfg['container'],
            len(cfg['origins']), c['ad']['flags'], c['key']['crv'], c['key']['alg'],
            c['rp_given'] is None, c['rp_stored'] is None, c['user_given'] is None,
            c['handle'] is None, c['allow'] is None or len(c['allow']), c['count'] is None,
            c['ignore'])


def run_history(cases, rec, judge):
    from webauthn_rp.backends import CredentialsBackend
    reg = gen.make_registrar()
    be = CredentialsBackend(reg)
    keys, interesting = [], False
    for i, c in enumerate(cases):
        kw, viol, info = gen.build_authentication(c)
        reg.calls.clear()
        reg.data = info['data']
        out = gen.outcome(be.handle_credential_assertion, **kw)
        judge(i, c, kw, viol, info, out, reg)
        cfg = c['cfg']
        rec.label('accepted' if not viol else 'refused:%d' % len(viol))
        if len(viol) == 1:
            rec.label('only:' + min(viol))
            interesting = True
        if not viol:
            rec.label('accepted:' + c['key']['crv'])
            interesting |= bool(cfg['tb'] or cfg['uv'] or cfg['ext'] or len(cfg['origins']) > 1
                                or c['allow'] or c['count'] is not None)
        keys.append(step_key(c, viol))
    if interesting:
        rec.nt(tuple(keys), sample=keys)


def judge_decision(rec):
    def judge(i, c, kw, viol, info, out, reg):
        recs = gen.records(reg)
        if not viol:
            rec.check(out[0] == 'ok', 'honest authentication refused', step=i, error=out[2])
            rec.check(len(recs) == 1 and recs[0][0] == 'assertion',
                      'registrar not informed exactly once', calls=recs)
            got = recs[0][1]
            rec.check(got['credential'] is kw['credential'], 'registrar got another credential')
            rec.check(gen.same(gen.auth_view(got['authenticator_data']), gen.auth_model(c['ad'])),
                      'registrar got wrong authenticator data',
                      got=gen.auth_view(got['authenticator_data']), want=gen.auth_model(c['ad']))
        else:
            rec.check(out[0] == 'error', 'authentication accepted in spite of violations', step=i,
                      violated=sorted(viol))
            rec.check(not recs, 'registrar informed of a refused authentication', step=i,
                      violated=sorted(viol))
    return judge


@prop(histories, quick=9600, thorough=80000)
def decision(case, rec):
    run_history(case, rec, judge_decision(rec))


@prop(singles, quick=18000, thorough=100000)
def single_deviation(case, rec):
    run_history(case, rec, judge_decision(rec))


@st.composite
def look_alikes(draw):
    return [draw(gen.look_alike(True))]


@prop(look_alikes, quick=10000, thorough=60000)
def look_alike(case, rec):
    """What must match is compared exactly: texts easily taken for one another are told apart."""
    run_history(case, rec, judge_decision(rec))
