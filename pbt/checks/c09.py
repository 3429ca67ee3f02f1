"""C09: ceremonies answer any response bytes with success or a library error."""
import copy

from pbt import cborx, curves, der, fuzz, gen
from pbt.checks import c07
from pbt.cborx import Raw
from pbt.core import prop
from pbt.gen import sha256
from pbt.stx import memo, st

RULE = """A case is one ceremony of either kind whose response bytes are arbitrary (random bytes, CBOR soup,
deep nesting, huge bignums), or those of an honest response with byte edits, with nodes of the
attestation object, statement, COSE key or extension map replaced, with a mutated or re-nested
certificate or key description, with a response of the other kind, or with a registrar that raises,
returns junk from the lookup or from recording. The only permitted answers are a return or a library
error; nothing is recorded when the signed bytes differ from the honest ones (authentication,
fido-u2f, android-key), when the client data is arbitrary, or when the attestation object is random.
Non-trivial: the bytes derive from an honest response or the registrar misbehaves. Distinct by case."""
ASSUMES = ['exceptions from the registrar are Exception subclasses; KeyboardInterrupt and the like '
           'are meant to pass through']

PARTS_AUTH = ['cd', 'ad', 'sig', 'raw_id', 'handle']


class Nasty(Exception):
    def __repr__(self):
        raise ValueError('no repr')

    __str__ = __repr__


class NastyValue:
    def __repr__(self):
        raise ValueError('no repr')

    def __format__(self, spec):
        raise KeyError('no format')

    __str__ = __repr__


def raiser(name):
    if name == 'Nasty':
        def f():
            raise Nasty()
        return f
    return c07.raiser(name)


@memo
def junk_field():
    return st.one_of(fuzz.junk_bytes(), st.binary(max_size=4), gen.blob(0, 600))


@memo
def junk_client():
    """Arbitrary client data, sometimes with the right shape but not the right content."""
    return st.one_of(
        junk_field(),
        st.tuples(st.sampled_from(['webauthn.create', 'webauthn.get', 'x']),
                  st.sampled_from(['', 'A', 'AA', '=', '\u00e9', '\ud800', 'AAAA=AAA', '*']),
                  st.one_of(st.sampled_from(['https://[', 'https://a', 'x', 'https://a:b',
                                             '//', '://', 'https://\u2100']),
                            st.text(max_size=12))).map(
            lambda t: gen.render_client_data({'members': [('type', t[0]), ('challenge', t[1]),
                                                          ('origin', t[2])], 'style': 0})))


@memo
def registrar_plan():
    return st.one_of(
        st.none(), st.none(), st.none(),
        st.tuples(st.just('lookup raises'), st.sampled_from(c07.ERRORS + ['Nasty'])),
        st.tuples(st.just('lookup returns'), st.sampled_from(
            ['None', 'int', 'str', 'bytes', 'empty', 'list', 'object', 'nasty', 'no key',
             'no user', 'user none', 'rp junk', 'count junk', 'key junk', 'key alg none', 'key coords',
             'key short', 'key kty', 'key crv none', 'rp id surrogate', 'key off curve'])),
        st.tuples(st.just('record raises'), st.sampled_from(c07.ERRORS + ['Nasty'])),
        st.tuples(st.just('record returns'), st.sampled_from(sorted(c07.RESULTS) + ['nasty'])))


def apply_plan(reg, plan, data):
    """Returns True when the plan makes success impossible."""
    if plan is None:
        return False
    what, name = plan
    if what == 'lookup raises':
        reg.on_lookup = raiser(name)
    elif what == 'record raises':
        reg.on_record = raiser(name)
    elif what == 'record returns':
        reg.on_record = lambda: NastyValue() if name == 'nasty' else c07.RESULTS[name]
    else:
        d, harmless = data, False
        k = None if data is None else copy.copy(data.credential_public_key)
        if name in ('None', 'int', 'str', 'bytes', 'empty', 'list', 'object', 'nasty') or d is None:
            d = {'int': 7, 'str': 'x', 'bytes': b'x', 'empty': (), 'list': [1, 2, 3, 4],
                 'object': object(), 'nasty': NastyValue()}.get(name)
        elif name == 'no key':
            d = d._replace(credential_public_key=None)
        elif name == 'no user':
            d = d._replace(user_entity=None)
        elif name == 'user none':
            u = copy.copy(d.user_entity)
            u.id = None
            d = d._replace(user_entity=u)
        elif name == 'rp junk':
            d = d._replace(rp_entity=7)
        elif name == 'rp id surrogate':
            r = copy.copy(d.rp_entity)
            if r is not None:
                r.id = '\ud800'
            harmless = r is None
            d = d._replace(rp_entity=r)
        elif name == 'count junk':
            d, harmless = d._replace(signature_count='x'), True
        else:
            if name == 'key junk':
                k = 'key'
            elif name == 'key alg none':
                k.alg = None
                harmless = not hasattr(k, 'y')
            elif name == 'key coords':
                k.x = None
            elif name == 'key short':
                k.x = k.x[:-1]
            elif name == 'key kty':
                k.kty, harmless = None, True
            elif name == 'key crv none':
                k.crv = None
            else:
                k.x = b'\xff' * len(k.x)
            d = d._replace(credential_public_key=k)
        reg.on_lookup = lambda: d
        return not harmless
    return True


@st.composite
def auth_case(draw):
    base = draw(gen.authentication(allow=()))
    plan = draw(registrar_plan())
    edits = {}
    mode = draw(st.sampled_from(['junk', 'bytes', 'bytes', 'tree', 'plan', 'kind', 'all junk']))
    if mode == 'junk':
        for p in draw(st.lists(st.sampled_from(PARTS_AUTH), min_size=1, max_size=2, unique=True)):
            edits[p] = draw(junk_client() if p == 'cd' else junk_field())
    elif mode == 'all junk':
        for p in PARTS_AUTH[:3]:
            edits[p] = draw(junk_client() if p == 'cd' else junk_field())
    elif mode == 'bytes':
        p = draw(st.sampled_from(PARTS_AUTH[:3]))
        raw = {'cd': lambda: gen.render_client_data(base['cd']),
               'ad': lambda: gen.render_auth_data(base['ad']),
               'sig': lambda: build_sig(base)}[p]()
        edits[p] = draw(fuzz.mutate_bytes(raw))
    elif mode == 'tree':
        ad = dict(base['ad'])
        if draw(st.booleans()):
            ad['ext'] = draw(fuzz.mutate_tree(ad['ext'] or {'appid': True}))
            ad['flags'] |= gen.ED
        else:
            k = draw(gen.key_spec())
            ad['acd'] = {'aaguid': bytes(16), 'cid': b'cid', 'key': k,
                         'map': draw(fuzz.mutate_tree(gen.cose_map(k)))}
            ad['flags'] |= gen.AT
        edits['ad'] = gen.render_auth_data(ad)
        edits['sign'] = True
    elif mode == 'kind':
        edits['kind'] = draw(st.sampled_from(['attestation', 'none', 'junk', 'base', 'none fields']))
    return {'base': base, 'edits': edits, 'plan': plan if mode != 'kind' else None, 'mode': mode}


def build_sig(base):
    return gen.the_key(base['key']).sign(
        gen.render_auth_data(base['ad']) + sha256(gen.render_client_data(base['cd'])),
        base['key']['alg'])


def call(fn, kw, rec, what):
    """('ok'|'error', name); any exception outside the hierarchy is a violation."""
    from pbt.core import Hang
    try:
        fn(**kw)
        return 'ok', None
    except (KeyboardInterrupt, Hang):
        raise
    except BaseException as e:
        if not gen.is_lib_error(e):
            try:
                text = repr(e)
            except Exception:
                text = type(e).__name__
            rec.fail('an exception that is not a library error escaped', what=what, error=text)
        return 'error', type(e).__name__


@prop(auth_case, quick=14000, thorough=120000)
def authentications(c, rec):
    from webauthn_rp import types as t
    from webauthn_rp.backends import CredentialsBackend
    kw, viol, info = gen.build_authentication(c['base'])
    rec.check(not viol, 'the base case is meant to be honest', violated=viol)
    reg = gen.make_registrar()
    reg.data = info['data']
    be = CredentialsBackend(reg)
    impossible = apply_plan(reg, c['plan'], info['data'])
    cred, e = kw['credential'], c['edits']
    old = (info['raw_ad'], info['raw_cd'], info['sig'])
    new = (e.get('ad', old[0]), e.get('cd', old[1]), e.get('sig', old[2]))
    if e.get('sign'):
        new = (new[0], new[1], gen.the_key(c['base']['key']).sign(
            new[0] + sha256(new[1]), c['base']['key']['alg']))
    r = cred.response
    r.authenticator_data, r.client_data_JSON, r.signature = new
    cred.raw_id = e.get('raw_id', cred.raw_id)
    r.user_handle = e.get('handle', r.user_handle)
    if 'kind' in e:
        impossible = True
        if e['kind'] == 'attestation':
            cred.response = t.AuthenticatorAttestationResponse(client_data_JSON=old[1],
                                                               attestation_object=b'\xa0')
        elif e['kind'] == 'none':
            cred.response = None
        elif e['kind'] == 'junk':
            cred.response = 'junk'
        elif e['kind'] == 'base':
            cred.response = t.AuthenticatorResponse(client_data_JSON=old[1])
        else:
            r.authenticator_data = r.signature = None
    how, name = call(be.handle_credential_assertion, kw, rec, 'authentication')
    rec.label('%s %s' % (c['mode'], name or 'accepted'))
    if how == 'ok':
        rec.check(not impossible, 'accepted although the registrar or the response is unusable',
                  plan=c['plan'], edits=e)
    changed = new != old and not e.get('sign')
    recorded = gen.records(reg)
    if changed:
        rec.check(how == 'error' and not recorded, 'corrupted authentication bytes accepted',
                  edits=e)
    if how == 'ok':
        rec.check(len(recorded) == 1, 'accepted but not recorded')
    if c['mode'] not in ('junk', 'all junk') or c['plan']:
        rec.nt(c)


# --------------------------------------------------------------- registration

def splice(b, i, j, new):
    return b[:i] + new + b[j:]


@st.composite
def mutate_der(draw, b):
    """Byte edits, or one TLV (found by a linear walk) replaced, with the lengths left stale."""
    if draw(st.booleans()):
        return draw(fuzz.mutate_bytes(b))
    i = draw(st.integers(0, max(0, len(b) - 1)))
    new = draw(st.sampled_from([
        b'\x05\x00', b'\x30\x80', b'\x30\x00', b'\x02\x00', b'\x06\x00', b'\x03\x00', b'\x03\x01\x08',
        b'\x0c\x01\xff', b'\x17\x00', b'\xff\xff\xff\xff\xff', b'\x30\x84\xff\xff\xff\xff',
        b'\x1f\x81\x81\x81\x81\x01', b'\xa0\x03\x02\x01\x09', b'\x24\x80\x04\x01a\x00\x00',
        b'\x01\x01\x7f', b'\x0a\x00', b'\x31\x00', b'\xbf\x84\x58\x02\x05\x00', b'\x09\x00',
        b'\x30\x80' * 30]))
    return splice(b, i, min(len(b), i + draw(st.sampled_from([0, 2, len(new)]))), new)


@st.composite
def reg_case(draw):
    base = draw(gen.registration(allow=(), fmts=draw(st.sampled_from(
        [['none'], ['fido-u2f'], ['android-key'], ['android-key']]))))
    plan = draw(registrar_plan().filter(lambda p: p is None or p[0].startswith('record')))
    mode = draw(st.sampled_from(['junk', 'bytes', 'tree', 'stmt', 'cert', 'kd', 'key', 'cd', 'other',
                                 'kind', 'plan']))
    c = {'base': base, 'plan': plan if mode != 'kind' else None, 'mode': mode, 'data': None,
         'i': draw(st.integers(0, 3)), 'spki': 0}
    if mode == 'junk':
        c['data'] = draw(junk_field())
    elif mode == 'cd':
        c['data'] = draw(junk_client())
    elif mode == 'other':  # formats and statements the base does not use
        alg = draw(st.sampled_from([-7, -8, 'ES256']))
        c['data'] = draw(st.sampled_from([
            ('packed', {'alg': alg, 'sig': b's'}), ('packed', {'alg': alg, 'sig': b's', 'x5c': []}),
            ('tpm', {'alg': alg, 'sig': b's', 'ver': '2.0', 'certInfo': b'', 'pubArea': b''}),
            ('android-safetynet', {'ver': '', 'response': b''}), ('fido-u2f', {'sig': b'', 'x5c': []}),
            ('fido-u2f', {'sig': b'', 'x5c': [b'']}), ('android-key', {'alg': alg, 'sig': b'', 'x5c': []}),
            ('android-key', {'alg': alg, 'sig': b'', 'x5c': [b'']})]))
    elif mode == 'kind':
        c['data'] = draw(st.sampled_from(['assertion', 'none', 'junk', 'base', 'none fields']))
    else:
        kw, viol, info = gen.build_registration(base)
        if mode == 'bytes':
            c['data'] = draw(fuzz.mutate_bytes(info['raw_obj']))
        elif mode == 'tree':
            c['data'] = cborx.encode(draw(fuzz.mutate_tree(
                {'fmt': base['att']['fmt'], 'attStmt': info['stmt'], 'authData': info['raw_ad']})))
        elif mode == 'stmt':
            c['data'] = cborx.encode(draw(fuzz.mutate_tree(info['stmt'])))
        elif mode == 'cert' and info['stmt'].get('x5c'):
            c['data'] = draw(mutate_der(info['stmt']['x5c'][0]))
        elif mode == 'cert':
            c['data'] = b''
        elif mode == 'kd':
            kd = dict(base['att'], challenge=info['cdh']) if base['att']['fmt'] == 'android-key' else None
            c['data'] = draw(mutate_der(gen.kd_der(kd) if kd else b'\x30\x00'))
            c['spki'] = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6]))
        elif mode == 'key':
            c['data'] = cborx.encode(draw(fuzz.mutate_tree(gen.cose_map(base['ad']['acd']['key']))))
    return c


def odd_spki(n):
    d = der
    ecpk = d.oid('1.2.840.10045.2.1')
    return [None,
            d.seq(d.seq(ecpk, d.oid('1.3.132.0.10')), d.bits(b'\x04' + bytes(64))),
            d.seq(d.seq(ecpk, d.oid('1.2.840.10045.3.1.7')), d.bits(b'\x04' + b'\x01' * 64)),
            d.seq(d.seq(ecpk, d.oid('1.2.840.10045.3.1.7')), d.bits(b'\x00')),
            d.seq(d.seq(d.oid('1.3.101.110')), d.bits(b'\x09' + bytes(31))),
            d.seq(d.seq(d.oid('1.2.3.4.5')), d.bits(b'zz')),
            d.seq(d.seq(ecpk, d.null()), d.bits(b''))][n]


@prop(reg_case, quick=14000, thorough=120000)
def registrations(c, rec):
    from webauthn_rp import types as t
    from webauthn_rp.backends import CredentialsBackend
    base, mode, data = c['base'], c['mode'], c['data']
    kw, viol, info = gen.build_registration(base)
    rec.check(not viol, 'the base case is meant to be honest', violated=viol)
    fmt = base['att']['fmt']
    reg = gen.make_registrar()
    be = CredentialsBackend(reg)
    impossible = apply_plan(reg, c['plan'], None)
    cred = kw['credential']
    r = cred.response
    stmt = dict(info['stmt'])
    obj = {'fmt': fmt, 'attStmt': stmt, 'authData': info['raw_ad']}
    if mode in ('junk', 'bytes', 'tree'):
        r.attestation_object = data
        impossible = impossible or mode == 'junk'
    elif mode == 'cd':
        r.client_data_JSON = data
        impossible = True
    elif mode == 'stmt':
        obj['attStmt'] = Raw(data)
        r.attestation_object = cborx.encode(obj)
    elif mode == 'other':
        obj['fmt'], obj['attStmt'] = data
        r.attestation_object = cborx.encode(obj)
        impossible = True
    elif mode in ('cert', 'kd') and fmt != 'none':
        x5c = list(stmt['x5c'])
        x5c[0] = data
        if mode == 'kd':
            k = gen.the_key(base['ad']['acd']['key'])
            spki = odd_spki(c['spki']) or k.spki()
            ext = [] if fmt == 'fido-u2f' else [(gen.KD_OID, bool(c['i'] & 1), data)] * (
                2 if c['i'] == 2 else 1)
            x5c[0] = curves.certificate(spki, ext, version=2)
        stmt['x5c'] = x5c
        r.attestation_object = cborx.encode(obj)
    elif mode == 'key':
        ad = dict(base['ad'], acd=dict(base['ad']['acd'], map=Raw(data)))
        obj['authData'] = gen.render_auth_data(ad)
        if fmt == 'none' or c['i']:
            r.attestation_object = cborx.encode(obj)
        else:
            obj['fmt'], obj['attStmt'] = 'none', {}
            r.attestation_object = cborx.encode(obj)
    elif mode == 'kind':
        impossible = True
        if data == 'assertion':
            cred.response = t.AuthenticatorAssertionResponse(
                client_data_JSON=r.client_data_JSON, authenticator_data=info['raw_ad'],
                signature=b'', user_handle=None)
        elif data == 'none':
            cred.response = None
        elif data == 'junk':
            cred.response = 'junk'
        elif data == 'base':
            cred.response = t.AuthenticatorResponse(client_data_JSON=r.client_data_JSON)
        else:
            r.attestation_object = None
    how, name = call(be.handle_credential_attestation, kw, rec, 'registration ' + fmt)
    rec.label('%s %s %s' % (mode, fmt, name or 'accepted'))
    recorded = gen.records(reg)
    if impossible:
        rec.check(how == 'error', 'arbitrary registration bytes accepted', mode=mode, data=data)
    if impossible and not (c['plan'] and c['plan'][0].startswith('record')):
        rec.check(not recorded, 'recorded arbitrary registration bytes', mode=mode, data=data)
    if how == 'ok':
        rec.check(len(recorded) == 1, 'accepted but not recorded')
    if mode != 'junk' or c['plan']:
        rec.nt(c)
