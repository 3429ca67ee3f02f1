"""C18: JSON public key credentials are parsed losslessly and strictly."""
import base64
import copy
import json

from pbt import gen
from pbt.core import prop
from pbt.stx import st

RULE = """A case is a credential (attestation, assertion without, with or with an empty user handle) with byte
fields of any length, written as JSON by this file with members in random order (an absent user handle sometimes as null) and passed through a
JSON text; or the same JSON with up to two members dropped, added, retyped, mixed between the kinds,
or with base64 padding or length made impossible. An acceptance model decides. The library's own
JSON conversion of the same credential must also parse back to it. Non-trivial: every case; distinct
by the JSON."""
ASSUMES = ['whether a null userHandle is refused or read as none, characters outside the base64 alphabet, data after padding and the value of '
           'type are not judged']
ALPHA = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')


def b64(b):
    return base64.b64encode(b).decode()


@st.composite
def credential(draw):
    kind = draw(st.sampled_from(['attestation', 'assertion', 'handle', 'empty handle']))
    by = gen.blob(0, 3000)
    c = {'kind': kind, 'id': draw(gen.text(20)), 'raw_id': draw(by), 'cd': draw(by),
         'type': draw(st.sampled_from(['public-key'] * 3 + ['x', '']) | gen.edged(st.just('public-key')) | gen.text(20))}
    if kind == 'attestation':
        c['obj'] = draw(by)
    else:
        c['ad'], c['sig'] = draw(by), draw(by)
        c['handle'] = (None if kind == 'assertion' else b'' if kind == 'empty handle'
                       else draw(gen.blob(1, 300)))
    return c


def to_json(c):
    r = {'clientDataJSON': b64(c['cd'])}
    if c['kind'] == 'attestation':
        r['attestationObject'] = b64(c['obj'])
    else:
        r['authenticatorData'] = b64(c['ad'])
        r['signature'] = b64(c['sig'])
        if c['handle'] is not None:
            r['userHandle'] = b64(c['handle'])
    return {'id': c['id'], 'rawId': b64(c['raw_id']), 'type': c['type'], 'response': r}


def lib_credential(c):
    from webauthn_rp import types as t
    if c['kind'] == 'attestation':
        r = t.AuthenticatorAttestationResponse(client_data_JSON=c['cd'], attestation_object=c['obj'])
    else:
        r = t.AuthenticatorAssertionResponse(client_data_JSON=c['cd'], authenticator_data=c['ad'],
                                             signature=c['sig'], user_handle=c['handle'])
    return t.PublicKeyCredential(id=c['id'], type=c['type'], raw_id=c['raw_id'], response=r)


def equal(rec, got, c, how):
    want = lib_credential(c)
    rec.check(type(got.response) is type(want.response), 'wrong response kind', how=how)
    rec.check(gen.view(got) == gen.view(want), 'credential differs', how=how, got=gen.view(got),
              want=gen.view(want))


def shuffled(draw, d):
    return {k: d[k] for k in draw(st.permutations(sorted(d)))}


@st.composite
def good(draw):
    c = draw(credential())
    j = to_json(c)
    if c['kind'] == 'assertion' and draw(st.booleans()):
        j['response']['userHandle'] = None
    j['response'] = shuffled(draw, j['response'])
    return {'c': c, 'json': shuffled(draw, j)}


@prop(good, quick=32000, thorough=300000)
def lossless(s, rec):
    from webauthn_rp.converters import jsonify
    from webauthn_rp.errors import ParserError
    from webauthn_rp.parsers import parse_public_key_credential
    c = s['c']
    text = json.dumps(s['json'])
    data = json.loads(text)
    before = copy.deepcopy(data)
    try:
        equal(rec, parse_public_key_credential(data), c, 'json')
    except ParserError as e:
        if data['response'].get('userHandle', 0) is not None:
            rec.fail('valid credential refused', json=data, error=e)
        rec.label('null handle refused')
    rec.check(data == before, 'the given JSON was modified')
    lib = lib_credential(c)
    own = json.loads(json.dumps(jsonify(lib)))
    try:
        back = parse_public_key_credential(own)
    except ParserError as e:
        rec.fail("the library's JSON is refused by its parser", json=own, error=e)
    equal(rec, back, c, 'jsonify')
    want = to_json(c)
    rec.check(own == want, "the library's JSON differs from the documented form", got=own, want=want)
    rec.label(c['kind'])
    rec.nt(c)


RETYPE = [None, 0, 1, True, False, 1.5, [], {}, ['x'], {'a': 'b'}]
TOP = ('id', 'rawId', 'type', 'response')
EXTRA = ['getClientExtensionResults', 'clientExtensionResults', 'authenticatorAttachment', 'raw_id', 'ID',
         'rawid', '', 'x', 'transports', 'signature', 'userHandle', 'clientDataJSON', 'publicKey',
         'attestationObject', 'authenticatorData', 'user_handle', 'response ', 'id', 'type']


@st.composite
def bad(draw):
    c = draw(credential())
    j = to_json(c)
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        where = draw(st.sampled_from(['top', 'response', 'response']))
        d = j if where == 'top' else j.get('response')
        kind = draw(st.sampled_from(['drop', 'extra', 'retype', 'mix', 'pad', 'pad', 'rename']))
        if type(d) is not dict:
            continue
        names = sorted(d)
        if kind == 'drop' and names:
            del d[draw(st.sampled_from(names))]
        elif kind == 'rename' and names:
            n = draw(st.sampled_from(names))
            d[draw(st.sampled_from(gen.other_spellings(n)))] = d[n] if draw(st.booleans()) else d.pop(n)
        elif kind == 'extra':
            d[draw(st.one_of(st.sampled_from(EXTRA), gen.text(5)))] = draw(
                st.sampled_from(['', 'AA==', None, 1, {}]))
        elif kind == 'retype' and names:
            d[draw(st.sampled_from(names))] = draw(st.sampled_from(RETYPE))
        elif kind == 'mix' and type(j.get('response')) is dict:
            for n in draw(st.lists(st.sampled_from(['attestationObject', 'authenticatorData', 'signature',
                                                    'userHandle']), min_size=1, max_size=2)):
                j['response'].setdefault(n, draw(st.sampled_from(['', 'AAAA', 'AA=='])))
        elif kind == 'pad':
            ns = [n for n in names if n not in ('id', 'type') and type(d[n]) is str]
            if ns:
                n = draw(st.sampled_from(ns))
                s = d[n].rstrip('=')
                p = draw(st.integers(0, 3))
                if p == 0:
                    s = s[:len(s) - (len(s) - 1) % 4] if s else 'A'
                    s += draw(st.sampled_from(['', '=', '==', '===']))
                elif p == 1:
                    s = s[:len(s) - len(s) % 4] + 'AB' + draw(st.sampled_from(['', '=']))
                elif p == 2:
                    s = s[:len(s) - len(s) % 4] + 'ABC'
                else:
                    s = s + draw(st.sampled_from(['A', 'AB', 'ABC']))
                d[n] = s
    return {'json': j}


def b64_state(s):
    """'ok', 'bad' (a length or padding no encoder produces) or 'skip' (not judged)."""
    core = s.rstrip('=')
    if set(core) - ALPHA:
        return 'skip'
    pad = len(s) - len(core)
    if len(core) % 4 == 1:
        return 'bad'
    need = -len(core) % 4
    if pad > need:
        return 'skip'
    return 'ok' if pad == need else 'bad'


def judge(j):
    """True accept, False refuse, None not judged."""
    if type(j) is not dict or set(j) != set(TOP):
        return False
    if any(type(j[k]) is not str for k in ('id', 'rawId', 'type')) or type(j['response']) is not dict:
        return False
    r = j['response']
    if 'attestationObject' in r:
        if set(r) != {'clientDataJSON', 'attestationObject'}:
            return False
    else:
        if not {'clientDataJSON', 'authenticatorData', 'signature'} <= set(r) or set(r) - {
                'clientDataJSON', 'authenticatorData', 'signature', 'userHandle'}:
            return False
    unsure = False
    for k, v in list(r.items()):
        if k == 'userHandle' and v is None:
            unsure = True
        elif type(v) is not str:
            return False
    states = [b64_state(v) for v in [j['rawId']] + [v for v in r.values() if type(v) is str]]
    if 'bad' in states:
        return False
    return None if unsure or 'skip' in states else True


@prop(bad, quick=36000, thorough=300000)
def strict(s, rec):
    from webauthn_rp.errors import ParserError
    from webauthn_rp.parsers import parse_public_key_credential
    j = s['json']
    want = judge(j)
    try:
        got = parse_public_key_credential(json.loads(json.dumps(j)))
    except ParserError as e:
        rec.check(want is not True, 'valid credential refused', json=j, error=e)
        rec.label('refused')
        if want is False:
            rec.nt(j)
        return
    rec.check(want is not False, 'invalid credential accepted', json=j)
    rec.label('accepted' if want else 'not judged')
    if want:
        r = got.response
        rec.check(got.id == j['id'] and got.type == j['type'], 'members differ')
        rec.check(got.raw_id == base64.b64decode(j['rawId']), 'raw id differs')
        for n, a in (('clientDataJSON', 'client_data_JSON'), ('attestationObject', 'attestation_object'),
                     ('authenticatorData', 'authenticator_data'), ('signature', 'signature'),
                     ('userHandle', 'user_handle')):
            if n in j['response']:
                rec.check(getattr(r, a) == base64.b64decode(j['response'][n]), n + ' differs')
