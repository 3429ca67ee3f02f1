"""C08: ceremonies stay isolated across users, credentials, RPs and time."""
import base64
import json

from pbt import cborx, curves, gen
from pbt.core import prop
from pbt.stx import memo, st

RULE = """A case is a history of 3 to 16 operations on one backend over 3 users, 2 to 3 relying parties and
the credentials registered so far: honest registrations (none, fido-u2f, android-key), removal of a
credential and registration of its id again for any user, RP and key, up to 40 logins or attacks of one
kind in a row, honest logins
(four ways of supplying user, handle, RP and allow list) and attacks (replay of an earlier login or
registration response, response to another session's challenge, another credential's key, another
user, another RP, another RP's page or signature, swapped ceremony type, unknown credential, credential outside the allow list,
cloned counter, flipped signed data). Options and responses travel as JSON text and keys are stored
as COSE bytes. The model knows which operations must succeed and what the store must hold.
Non-trivial: at least one successful login and one attack after a registration. Distinct by the
sequence of (operation, outcome)."""
ASSUMES = ['the relying party issues a fresh challenge for every ceremony']

USERS = [(b'alice', 'Alice'), (b'alice\x00', 'Alic'), (b'', 'nobody'), (bytes(range(64)), 'bob')]
RPS = [('example.com', 'https://example.com'), ('login.example.com', 'https://login.example.com'),
       ('xn--e1afmkfd.example', 'https://xn--e1afmkfd.example:8443')]
ATTACKS = ['replay', 'replayreg', 'wrongkey', 'otheruser', 'otherrp', 'challenge', 'type',
           'unknown', 'notallowed', 'clone', 'flip', 'regreplay', 'regtype', 'regother', 'origin',
           'regorigin', 'rphash']


@memo
def op():
    n = st.integers(0, 7)
    reg = st.tuples(st.just('reg'), n, n, gen.key_spec(), st.sampled_from(
        ['none', 'none', 'fido-u2f', 'android-key']), st.sampled_from([0, 0, 0, 1]))
    login = st.tuples(st.just('login'), n, st.sampled_from([1, 1, 2, 1000, 2**31]),
                      st.integers(0, 15))
    attack = st.tuples(st.just('attack'), st.sampled_from(ATTACKS), n, n, st.integers(0, 15))
    move = st.tuples(st.just('move'), n, n, n, st.integers(0, 1), gen.key_spec())
    again = st.tuples(st.just('again'), n, st.integers(2, 40), st.sampled_from(['login', 'login', 'wrongkey', 'flip',
                                                                            'unknown', 'notallowed']),
                      st.integers(0, 15))
    return st.one_of(*[reg, login, login, login, attack, attack, attack, move] * 3, again)


def spread(ops):
    """An 'again' operation is many logins, or many attacks of one kind, followed by logins."""
    out = []
    for op in ops:
        if op[0] != 'again':
            out.append(op)
            continue
        _, ci, times, kind, mode = op
        for i in range(times):
            out.append(('login', ci, 1, mode) if kind == 'login' else ('attack', kind, ci, ci, mode))
        out += [('login', ci + i, 1, mode ^ i * 5) for i in range(3)]
    return out


@st.composite
def histories(draw):
    first = ('reg', draw(st.integers(0, 3)), draw(st.integers(0, 2)), draw(gen.key_spec()), 'none',
             draw(st.sampled_from([0, 1])))
    return [first] + draw(st.lists(op(), min_size=2, max_size=24))


def b64(b):
    return base64.b64encode(b).decode()


class World:
    """A relying-party server using the library as documented, plus its clients."""

    def __init__(self):
        from webauthn_rp import types as t
        from webauthn_rp.backends import CredentialsBackend
        from webauthn_rp.converters import cose_key
        from webauthn_rp.parsers import parse_cose_key
        from webauthn_rp.registrars import CredentialData, CredentialsRegistrar
        world = self

        class Store(CredentialsRegistrar):
            def __init__(self):
                self.rows = {}

            def register_credential_attestation(self, credential, att, att_type, user, rp,
                                                trusted_path=None):
                acd = att.auth_data.attested_credential_data
                if acd.credential_id in self.rows:
                    return 'already registered'
                self.rows[acd.credential_id] = {
                    'key': cose_key(acd.credential_public_key), 'user': user.id, 'rp': rp.id,
                    'count': att.auth_data.sign_count, 'type': att_type.value}

            def register_credential_assertion(self, credential, authenticator_data, user, rp):
                row = self.rows[credential.raw_id]
                world.logged_in = (user.id, rp.id)
                row['count'] = authenticator_data.sign_count

            def get_credential_data(self, credential_id):
                row = self.rows.get(credential_id)
                if row is None:
                    return None
                return CredentialData(
                    credential_public_key=parse_cose_key(row['key']),
                    signature_count=row['count'],
                    user_entity=t.PublicKeyCredentialUserEntity(name='n', id=row['user'],
                                                                display_name='d'),
                    rp_entity=t.PublicKeyCredentialRpEntity(name='rp', id=row['rp']))

        self.t = t
        self.store = Store()
        self.be = CredentialsBackend(self.store)
        self.n = 0
        self.logged_in = None

    def challenge(self):
        self.n += 1
        return gen.sha256(b'challenge %d' % self.n)

    def user(self, i):
        uid, name = USERS[i % len(USERS)]
        return self.t.PublicKeyCredentialUserEntity(name=name, id=uid, display_name=name)

    def rp(self, i):
        return self.t.PublicKeyCredentialRpEntity(name='RP', id=RPS[i % len(RPS)][0])

    # ---- server side

    def creation_options(self, user, rp):
        from webauthn_rp.builders import CredentialCreationOptionsBuilder
        from webauthn_rp.converters import jsonify
        t = self.t
        ch = self.challenge()
        b = CredentialCreationOptionsBuilder(
            rp=rp, pub_key_cred_params=[t.PublicKeyCredentialParameters(
                type=t.PublicKeyCredentialType.PUBLIC_KEY,
                alg=t.COSEAlgorithmIdentifier.Value.ES256)])
        return ch, json.dumps(jsonify(b.build(user=user, challenge=ch)))

    def request_options(self, rp, allow):
        from webauthn_rp.builders import CredentialRequestOptionsBuilder
        from webauthn_rp.converters import jsonify
        t = self.t
        ch = self.challenge()
        b = CredentialRequestOptionsBuilder(rp_id=rp.id, timeout=60000)
        d = None if allow is None else [t.PublicKeyCredentialDescriptor(
            type=t.PublicKeyCredentialType.PUBLIC_KEY, id=i) for i in allow]
        return ch, d, json.dumps(jsonify(b.build(challenge=ch, allow_credentials=d)))

    def finish_registration(self, text, user, rp, origin, ch):
        from webauthn_rp.parsers import parse_public_key_credential
        return gen.outcome(lambda: self.be.handle_credential_attestation(
            credential=parse_public_key_credential(json.loads(text)), user=user, rp=rp,
            expected_challenge=ch, expected_origin=origin))

    def finish_login(self, text, origin, ch, user=None, rp=None, allow=None):
        from webauthn_rp.parsers import parse_public_key_credential
        self.logged_in = None
        kw = {}
        if user is not None:
            kw['user'] = user
        if rp is not None:
            kw['rp'] = rp
        if allow is not None:
            kw['allow_credentials'] = allow
        return gen.outcome(lambda: self.be.handle_credential_assertion(
            credential=parse_public_key_credential(json.loads(text)), expected_challenge=ch,
            expected_origin=origin, **kw))


def client_data(typ, ch, origin):
    return json.dumps({'type': typ, 'challenge': gen.b64url(ch), 'origin': origin}).encode()


def credential_json(raw_id, response):
    return json.dumps({'id': gen.b64url(raw_id), 'rawId': b64(raw_id), 'type': 'public-key',
                       'response': {k: v if v is None else b64(v) for k, v in response.items()}})


def make_registration(text_options, origin, k, fmt, cid, zero, typ='webauthn.create'):
    """Client and authenticator: answer creation options (JSON text)."""
    pk = json.loads(text_options)['publicKey']
    ch = base64.b64decode(pk['challenge'], validate=True)
    if fmt == 'fido-u2f' and k['crv'] != 'P-256':
        fmt = 'none'
    cd = client_data(typ, ch, origin)
    acd = {'aaguid': bytes(16), 'cid': cid, 'key': k, 'enc': ()}
    h = gen.sha256(pk['rp']['id'].encode('utf-8'))
    ad = gen.render_auth_data({'rp_hash': h, 'flags': 0x41, 'count': 0 if zero else 1, 'acd': acd})
    att = {'fmt': fmt, 'devs': [], 'certd': 7, 'n': 1, 'p': 0, 'nonce': 0, 'sig': None, 'av': 3,
           'asl': 1, 'kv': 4, 'ksl': 1, 'uid': b'', 'se': {}, 'tee': {1: [2], 702: 0}, 'more': 1,
           'exts': 0, 'names': False}
    stmt, _ = gen.build_att(att, acd, ad, h, gen.sha256(cd))
    obj = cborx.encode({'fmt': fmt, 'attStmt': stmt, 'authData': ad})
    return ch, credential_json(cid, {'clientDataJSON': cd, 'attestationObject': obj})


def make_assertion(ch, origin, rp_id, signer, cid, count, handle, typ='webauthn.get', flip=None):
    cd = client_data(typ, ch, origin)
    ad = gen.render_auth_data({'rp_hash': gen.sha256(rp_id.encode('utf-8')), 'flags': 1,
                               'count': count})
    sig = signer.sign(ad + gen.sha256(cd))
    if flip == 0:
        ad = ad[:36] + bytes([ad[36] ^ 128])
    elif flip == 1:
        cd = cd.replace(b'{', b'{ ')
    elif flip == 2:
        sig = sig[:-3] + bytes([sig[-3] ^ 1]) + sig[-2:]
    r = {'clientDataJSON': cd, 'authenticatorData': ad, 'signature': sig}
    if handle is not None:
        r['userHandle'] = handle
    return credential_json(cid, r)


@prop(histories, quick=12000, thorough=60000)
def isolation(ops, rec):
    w = World()
    creds = []  # model: dicts with cid, key spec, user, rp index, device count, zero
    logins, regs = [], []  # earlier successful responses (text, cred, challenge)
    log = []
    good = bad = 0

    def must_fail(out, what, snap):
        rec.check(out[0] == 'error' and gen.is_lib_error(out[2]), 'attack succeeded: ' + what,
                  outcome=out, history=log)
        rec.check(w.store.rows == snap, 'store changed by a failed attack: ' + what, history=log)

    def expected_rows():
        return {c['cid']: {'user': USERS[c['user'] % 4][0], 'rp': RPS[c['rp'] % 3][0],
                           'count': c['count'], 'type': c['type']} for c in creds}

    for n, op in enumerate(spread(ops)):
        snap = {k: dict(v) for k, v in w.store.rows.items()}
        if op[0] == 'reg':
            _, ui, ri, k, fmt, zero = op
            user, rp, origin = w.user(ui), w.rp(ri), RPS[ri % 3][1]
            ch, text = w.creation_options(user, rp)
            cid = gen.sha256(b'cid %d' % n)[:16 + n % 17]
            got, resp = make_registration(text, origin, k, fmt, cid, zero)
            rec.check(got == ch, 'challenge changed in the options JSON')
            pk = json.loads(text)['publicKey']
            rec.check(base64.b64decode(pk['user']['id']) == user.id, 'user id changed in JSON')
            out = w.finish_registration(resp, user, rp, origin, ch)
            log.append(('reg', ui % 4, ri % 3, k['crv'], fmt, out[:2]))
            rec.check(out[0] == 'ok', 'honest registration failed', error=out[2], history=log)
            real = 'none' if fmt == 'fido-u2f' and k['crv'] != 'P-256' else fmt
            creds.append({'cid': cid, 'key': k, 'user': ui % 4, 'rp': ri % 3, 'zero': zero,
                          'count': 0 if zero else 1,
                          'type': 'None' if real == 'none' else 'Basic'})
            regs.append((resp, creds[-1], ch))
            rec.label('registration ' + real)
        elif op[0] == 'move':
            # the server forgets a credential; its id is registered again, maybe elsewhere
            _, ci, ui, ri, same_key, k = op
            c = creds[ci % len(creds)]
            k = c['key'] if same_key else k
            del w.store.rows[c['cid']]
            user, rp, origin = w.user(ui), w.rp(ri), RPS[ri % 3][1]
            ch, text = w.creation_options(user, rp)
            _, resp = make_registration(text, origin, k, 'none', c['cid'], c['zero'])
            out = w.finish_registration(resp, user, rp, origin, ch)
            log.append(('move', ci % len(creds), ui % 4, ri % 3, same_key, out[:2]))
            rec.check(out[0] == 'ok', 'honest registration failed', error=out[2], history=log)
            c.update(key=k, user=ui % 4, rp=ri % 3, count=0 if c['zero'] else 1, type='None')
            regs.append((resp, c, ch))
            rec.label('move')
        elif op[0] == 'login':
            _, ci, delta, mode = op
            c = creds[ci % len(creds)]
            owner = w.user(c['user'])
            rp, origin = w.rp(c['rp']), RPS[c['rp']][1]
            allow = [x['cid'] for x in creds if x['user'] == c['user']] if mode & 8 else None
            ch, desc, text = w.request_options(rp, allow)
            opts = json.loads(text)['publicKey']
            got = base64.b64decode(opts['challenge'], validate=True)
            if allow is not None:
                rec.check([base64.b64decode(x['id']) for x in opts['allowCredentials']] == allow,
                          'allow list changed in JSON')
            count = 0 if c['zero'] else c['count'] + delta
            if count >= 2**32:
                continue
            given = owner if mode & 1 else None
            handle = owner.id if not mode & 1 or mode & 2 else None
            resp = make_assertion(got, origin, opts['rpId'], gen.the_key(c['key']), c['cid'],
                                  count, handle)
            out = w.finish_login(resp, origin, ch, given, rp if mode & 4 else None, desc)
            log.append(('login', ci % len(creds), count, mode, out[:2]))
            rec.check(out[0] == 'ok', 'honest login failed', error=out[2], history=log)
            rec.check(w.logged_in == (owner.id, rp.id), 'logged in as somebody else',
                      got=w.logged_in, history=log)
            c['count'] = count
            logins.append((resp, c, ch))
            good += 1
            rec.label('login')
        else:
            _, kind, a, b, mode = op
            c, d = creds[a % len(creds)], creds[b % len(creds)]
            owner, rp, origin = w.user(c['user']), w.rp(c['rp']), RPS[c['rp']][1]
            key = gen.the_key(c['key'])
            count = 0 if c['zero'] else min(2**32 - 1, c['count'] + 5)
            given = owner if mode & 1 else None
            handle = owner.id if not mode & 1 or mode & 2 else None
            rpg = rp if mode & 4 else None
            ch, desc, text = w.request_options(rp, None)
            if kind == 'replay':
                if not logins:
                    continue
                resp, c0, _ = logins[b % len(logins)]
                o = w.user(c0['user'])
                out = w.finish_login(resp, RPS[c0['rp']][1], ch, o if mode & 1 else None,
                                     w.rp(c0['rp']) if mode & 4 else None)
            elif kind == 'replayreg':
                resp = regs[b % len(regs)][0]
                out = w.finish_login(resp, origin, regs[b % len(regs)][2], given, rpg)
            elif kind == 'regreplay':
                # an old registration response presented for a fresh challenge, by any user
                resp, c0, _ = regs[b % len(regs)]
                text = w.creation_options(owner, w.rp(c0['rp']))
                out = w.finish_registration(resp, owner, w.rp(c0['rp']), RPS[c0['rp']][1], text[0])
            elif kind == 'regtype':
                cch, text = w.creation_options(owner, rp)
                _, resp = make_registration(text, origin, c['key'], 'none', b'new' + bytes([n]), 0,
                                            typ='webauthn.get')
                out = w.finish_registration(resp, owner, rp, origin, cch)
            elif kind == 'regother':
                # response made for another RP's options
                ri = (c['rp'] + 1 + mode % 2) % 3
                cch, text = w.creation_options(owner, w.rp(ri))
                _, resp = make_registration(text, RPS[ri][1] if mode & 4 else origin, c['key'],
                                            'none', b'new' + bytes([n]), 0)
                out = w.finish_registration(resp, owner, rp, origin, cch)
            elif kind in ('origin', 'rphash'):
                # everything honest except the page's origin, or the RP the authenticator signed for
                ri = (c['rp'] + 1 + mode % 2) % 3
                resp = make_assertion(ch, RPS[ri][1] if kind == 'origin' else origin,
                                      rp.id if kind == 'origin' else RPS[ri][0], key, c['cid'], count, handle)
                out = w.finish_login(resp, origin if b % 2 else [origin], ch, given, rpg)
            elif kind == 'regorigin':
                cch, text = w.creation_options(owner, rp)
                _, resp = make_registration(text, RPS[(c['rp'] + 1 + mode % 2) % 3][1], c['key'], 'none',
                                            b'new' + bytes([n]), 0)
                out = w.finish_registration(resp, owner, rp, origin if b % 2 else [origin], cch)
            elif kind == 'wrongkey':
                if d is c or (d['key']['crv'], d['key']['d'], d['key']['alg']) == (
                        c['key']['crv'], c['key']['d'], c['key']['alg']):
                    d = {'key': dict(c['key'], d=c['key']['d'] % 50 + 1)}
                    if d['key']['d'] == c['key']['d']:
                        continue
                elif d['key']['crv'] == c['key']['crv'] and d['key']['d'] == c['key']['d']:
                    continue
                resp = make_assertion(ch, origin, rp.id, gen.the_key(d['key']), c['cid'], count,
                                      handle)
                out = w.finish_login(resp, origin, ch, given, rpg)
            elif kind == 'otheruser':
                other = w.user(c['user'] + 1 + mode % 3)
                if other.id == owner.id:
                    continue
                h = [None, other.id, owner.id][b % 3]
                resp = make_assertion(ch, origin, rp.id, key, c['cid'], count, h)
                if mode & 4 and h == other.id:
                    out = w.finish_login(resp, origin, ch, None, rpg)  # usernameless
                else:
                    out = w.finish_login(resp, origin, ch, other, rpg)
            elif kind == 'otherrp':
                ri = (c['rp'] + 1 + mode % 2) % 3
                resp = make_assertion(ch, RPS[ri][1], RPS[ri][0], key, c['cid'], count, handle)
                out = w.finish_login(resp, RPS[ri][1], ch, given,
                                     [None, w.rp(ri), rp][b % 3])
            elif kind == 'challenge':
                ch2 = w.challenge() if mode & 1 else gen.sha256(b'challenge %d' % (1 + b))
                if ch2 == ch:
                    continue
                resp = make_assertion(ch2, origin, rp.id, key, c['cid'], count, handle)
                out = w.finish_login(resp, origin, ch, given, rpg)
            elif kind == 'type':
                resp = make_assertion(ch, origin, rp.id, key, c['cid'], count, handle,
                                      typ='webauthn.create')
                out = w.finish_login(resp, origin, ch, given, rpg)
            elif kind == 'unknown':
                cid = [c['cid'][:-1], c['cid'] + b'\0', b'', c['cid'][::-1]][mode % 4]
                if cid in w.store.rows:
                    continue
                resp = make_assertion(ch, origin, rp.id, key, cid, count, handle)
                out = w.finish_login(resp, origin, ch, given, rpg)
            elif kind == 'notallowed':
                ids = [x['cid'] for x in creds if x is not c] + [c['cid'][:-1], c['cid'] + b'\0']
                ids = ids[:mode % 4] if mode & 4 else ids
                ch, desc, text = w.request_options(rp, ids)
                resp = make_assertion(ch, origin, rp.id, key, c['cid'], count, handle)
                out = w.finish_login(resp, origin, ch, given, rpg, desc)
            elif kind == 'clone':
                if c['zero'] or c['count'] == 0:
                    continue
                low = [c['count'], c['count'] - 1, 0, c['count'] // 2][mode % 4]
                resp = make_assertion(ch, origin, rp.id, key, c['cid'], low, handle)
                out = w.finish_login(resp, origin, ch, given, rpg)
            else:
                resp = make_assertion(ch, origin, rp.id, key, c['cid'], count, handle,
                                      flip=mode % 3)
                out = w.finish_login(resp, origin, ch, given, rpg)
            log.append((kind, a % len(creds), b, mode, out[:2]))
            must_fail(out, kind, snap)
            bad += 1
            rec.label('attack %s %s' % (kind, out[1]))
    from webauthn_rp.parsers import parse_cose_key
    rows = w.store.rows
    rec.check({k: {f: v[f] for f in ('user', 'rp', 'count', 'type')} for k, v in rows.items()} ==
              expected_rows(), 'store differs from the model', history=log)
    for c in creds:
        got = gen.key_view(parse_cose_key(rows[c['cid']]['key']))
        want = gen.map_view(gen.cose_map(c['key']))
        rec.check(gen.same(got, want), 'stored key changed', got=got, want=want)
    if good and bad:
        rec.nt([x[:2] + x[-1] for x in log], sample=log)
