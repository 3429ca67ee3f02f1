"""C29: options JSON has exactly the members the browser API expects."""
import json

from pbt import gen, opts
from pbt.checks.c28 import call
from pbt.core import prop
from pbt.stx import st

RULE = """A case is a set of option values: any subset of optional members, falsy values (0, False, empty text,
empty lists and bytes) included, lists or tuples, algorithms by name or number; brought into the builder
by the constructor, by setters in any order, or overwritten by later setters. The JSON text of the
converted options must be exactly the expected dictionary, written from the WebAuthn specification.
Non-trivial: at least one optional member. Distinct by content."""
ASSUMES = ['None and not given are the same for optional members',
           'members of one list keep their order; members of a dictionary have no order']


@st.composite
def case(draw, create):
    table = opts.CREATE if create else opts.REQUEST
    need = opts.CREATE_NEED if create else opts.REQUEST_NEED
    sparse = draw(st.booleans())
    fields = {}
    for f in sorted(table):
        if f in need and (f in ('rp', 'pub_key_cred_params') or draw(st.booleans())):
            fields[f] = draw(table[f]())
        elif draw(st.integers(0, 4 if sparse else 1)) == 0:
            fields[f] = draw(table[f]()) if f in need or draw(st.integers(0, 5)) else None
    order = draw(st.permutations(sorted(fields)))
    over = {f: draw(table[f]()) for f in sorted(fields) if draw(st.integers(0, 4)) == 0}
    return {'create': create, 'fields': fields, 'order': order, 'ctor': draw(st.integers(0, 2**9)),
            'over': over, 'call': draw(call(create)), 'conv': draw(st.booleans())}


def run(c, rec):
    from webauthn_rp import builders as bl
    from webauthn_rp.converters import jsonify
    create = c['create']
    cls = bl.CredentialCreationOptionsBuilder if create else bl.CredentialRequestOptionsBuilder
    default = opts.CREATE_DEFAULT if create else opts.REQUEST_DEFAULT
    kw, later = {}, []
    for i, f in enumerate(c['order']):
        if c['ctor'] >> i & 1:
            kw[f] = opts.make(f, c['over'].get(f, c['fields'][f]))
            if f in c['over']:
                later.append(f)
        else:
            if f in c['over']:
                later.insert(0, (f, c['over'][f]))
            later.append(f)
    b = cls(**kw)
    for f in later:
        if type(f) is tuple:
            b = getattr(b, f[0])(opts.make(*f))
        else:
            b = getattr(b, f)(opts.make(f, c['fields'][f]))
    o = b.build(**{k: opts.make(k, v) for k, v in c['call'].items()})
    got = jsonify(o) if c['conv'] else jsonify(o, convert_case=True)
    want = opts.expected_json(create, dict(default, **c['fields']), c['call'])
    rec.check(gen.same(got, want), 'JSON value', got=got, want=want)
    back = json.loads(json.dumps(got, allow_nan=False))
    rec.check(gen.same(back, want), 'JSON text', got=back, want=want)
    rec.label('%s %d fields' % ('create' if create else 'request', len(c['fields'])))
    if len(c['fields']) > 2:
        rec.nt((c['fields'], c['call']))


@prop(lambda: case(True), quick=12000, thorough=120000)
def creation(c, rec):
    run(c, rec)


@prop(lambda: case(False), quick=12000, thorough=120000)
def request(c, rec):
    run(c, rec)


# members the constructors of the data classes leave out
@st.composite
def plain(draw):
    return {'rp': draw(opts.rp()), 'user': draw(opts.user()), 'params': draw(opts.params()),
            'challenge': draw(gen.blob(0, 600)), 'create': draw(st.booleans()),
            'opt': {f: draw((opts.CREATE if f in opts.CREATE else opts.REQUEST)[f]())
                    for f in ('timeout', 'extensions', 'authenticator_selection', 'exclude_credentials',
                              'attestation', 'rp_id', 'user_verification', 'mediation')
                    if draw(st.integers(0, 2)) == 0},
            'allow': draw(st.none() | opts.descriptors())}


@prop(plain, quick=8000, thorough=60000)
def without_builder(c, rec):
    """The data classes alone: same members, documented defaults."""
    from webauthn_rp import types as t
    from webauthn_rp.converters import jsonify
    if c['create']:
        fields = {'rp': c['rp'], 'pub_key_cred_params': c['params']}
        names = [f for f in c['opt'] if f in opts.CREATE]
        cl = {'user': c['user'], 'challenge': c['challenge']}
    else:
        fields = {}
        names = [f for f in c['opt'] if f in opts.REQUEST]
        cl = {'challenge': c['challenge']}
        if c['allow'] is not None:
            cl['allow_credentials'] = c['allow']
    fields.update({f: c['opt'][f] for f in names})
    kw = {f: opts.make(f, r) for f, r in list(fields.items()) + list(cl.items()) if f != 'mediation'}
    if c['create']:
        o = t.CredentialCreationOptions(public_key=t.PublicKeyCredentialCreationOptions(**kw))
        default = opts.CREATE_DEFAULT
    else:
        m = {'mediation': opts.make('mediation', fields['mediation'])} if 'mediation' in fields else {}
        o = t.CredentialRequestOptions(public_key=t.PublicKeyCredentialRequestOptions(**kw), **m)
        default = opts.REQUEST_DEFAULT
    want = opts.expected_json(c['create'], dict(default, **fields), cl)
    got = json.loads(json.dumps(jsonify(o), allow_nan=False))
    rec.check(gen.same(got, want), 'JSON text', got=got, want=want)
    rec.label('%s %d' % ('create' if c['create'] else 'request', len(names)))
    if names:
        rec.nt(c)
