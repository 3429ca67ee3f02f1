"""C30: calls do not affect one another, in sequence or interleaved."""
import threading

from pbt import gen, opts, weave
from pbt.core import prop
from pbt.stx import st

RULE = """A case is two to four operations on one shared backend and shared builders (ceremonies honest or
with deviations, under the same or different configurations; batteries of parsing, conversion, JSON,
COSE, verification and attestation calls on the material of a ceremony; option building from one shared
base builder). Interleaved: every operation runs in its own thread under a generated schedule that
switches threads after chosen numbers of executed lines or bytecodes of the package, and also inside
registrar callbacks. Nested: the registrar, while asked by one ceremony, has another operation done. Marathon: up to 500 repetitions
of the operations in generated runs. The registrar of some ceremonies fails in lookup or recording. Sequential: the operations run in one order, then in another, everything returned
earlier is looked at again, argument objects built (and perhaps used) with other content are given the
real content by assignment and must work the same, everything returned is then changed in place by its receiver, and the operations run once more. The
oracle is the model's verdict for ceremonies and the result each operation gave alone. Non-trivial: the
operations differ and (interleaved) at least two switches happened inside them. Distinct by operations
and schedule."""
ASSUMES = ['two operations share no argument object that either side changes']


@st.composite
def operation(draw, cfg):
    kind = draw(st.sampled_from(['reg', 'auth', 'auth', 'reg', 'tools', 'build']))
    if kind == 'build':
        create = draw(st.booleans())
        table = opts.CREATE if create else opts.REQUEST
        need = opts.CREATE_NEED if create else opts.REQUEST_NEED
        steps = []
        for f in draw(st.lists(st.sampled_from(sorted(table)), min_size=1, max_size=5)):
            steps.append((f, draw(table[f]()) if f in need or draw(st.integers(0, 4)) else None))
        return ('build', {'create': create, 'steps': steps, 'challenge': draw(gen.blob(0, 40)),
                          'user': draw(opts.user()), 'allow': draw(st.none() | opts.descriptors())})
    c = draw(cfg) if draw(st.booleans()) else None
    devs = draw(st.sampled_from([0, 0, 0, 1]))
    reg = kind == 'reg' or (kind == 'tools' and draw(st.booleans()))
    if reg:
        case = draw(gen.registration(c, max_devs=1) if devs else gen.registration(c, allow=()))
    else:
        case = draw(gen.authentication(c, max_devs=1) if devs else gen.authentication(c, allow=()))
    fault = None
    if kind != 'tools':
        fault = draw(st.sampled_from([None] * 9 + ['record', 'value'] + ['lookup'] * (not reg)))
    return (kind, 'reg' if reg else 'auth', case, fault)


@st.composite
def cases(draw):
    cfg = st.just(draw(gen.rp_config()))
    n = draw(st.sampled_from([2, 2, 2, 3, 4]))
    return {'ops': [draw(operation(cfg)) for _ in range(n)],
            'order': draw(st.permutations(range(n))),
            'schedule': draw(st.lists(st.one_of(st.integers(1, 30), st.integers(1, 250)),
                                      min_size=1, max_size=10)),
            'callbacks': draw(st.booleans()), 'inner': draw(st.integers(0, 3)), 'opcodes': draw(st.integers(0, 3)) == 0}


class Shared:
    """The backend and builders all operations of a case go through."""

    def __init__(self):
        from webauthn_rp import builders
        from webauthn_rp.backends import CredentialsBackend
        from webauthn_rp.registrars import CredentialsRegistrar
        self.local = threading.local()
        self.pause = None
        self.inner = None
        shared = self

        class Registrar(CredentialsRegistrar):
            def register_credential_attestation(self, credential, att, att_type, user, rp,
                                                trusted_path=None):
                shared.seen('attestation', credential, att, att_type, user, rp, trusted_path)
                return shared.answer('record')

            def register_credential_assertion(self, credential, authenticator_data, user, rp):
                shared.seen('assertion', credential, authenticator_data, user, rp)
                return shared.answer('record')

            def get_credential_data(self, credential_id):
                shared.seen('lookup', credential_id)
                return shared.answer('lookup')

        self.backend = CredentialsBackend(Registrar())
        self.creation = builders.CredentialCreationOptionsBuilder(
            rp=opts.make('rp', {'name': 'n', 'id': 'i'}),
            pub_key_cred_params=opts.make('pub_key_cred_params', ([('ES256', True)], False)))
        self.request = builders.CredentialRequestOptionsBuilder()

    def within(self, what):
        # the registrar itself uses the backend while it is being asked
        (op, where), self.inner = self.inner, None
        if where == what[0]:
            mine = dict(vars(self.local))
            self.found.append(op.run())
            vars(self.local).update(mine)
        else:
            self.inner = (op, where)

    def answer(self, what):
        if self.local.fault == what:
            raise OSError('storage')
        if what == 'lookup':
            return self.local.data
        return 'no' if self.local.fault == 'value' else None

    def seen(self, *what):
        if self.inner is not None:
            self.within(what[0])
        if self.pause is not None:
            self.pause()
        self.local.calls.append(gen.view(list(what)))
        self.local.kept.append(what)
        if self.pause is not None:
            self.pause()


def attempt(kept, fn, *a, **kw):
    try:
        r = fn(*a, **kw)
    except Exception as e:
        return ('error', type(e).__name__)
    kept.append(r)
    return ('ok', picture(r))


def picture(r):
    """gen.view, with cryptography keys and key descriptions shown by content."""
    if hasattr(r, 'public_bytes') and not hasattr(r, 'issuer'):
        from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
        return ('pk', r.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo))
    return gen.view(r)


class Op:
    """One operation with its own argument objects; run() may be called again and again."""

    def __init__(self, spec, shared):
        self.spec, self.shared = spec, shared
        self.viol = None
        if spec[0] != 'build':
            build = gen.build_registration if spec[1] == 'reg' else gen.build_authentication
            self.kw, self.viol, self.info = build(spec[2])
            self.args = gen.view(self.kw)

    def run(self):
        """(picture of everything that came back, objects that came back)."""
        if self.spec[0] == 'build':
            return self.build()
        if self.spec[0] == 'tools':
            return self.tools()
        sh = self.shared
        sh.local.calls, sh.local.kept = [], []
        sh.local.data = self.info.get('data')
        sh.local.fault = self.spec[3]
        be = sh.backend
        fn = (be.handle_credential_attestation if self.spec[1] == 'reg' else
              be.handle_credential_assertion)
        out = gen.outcome(fn, **self.kw)
        ok = 'ok' if out[0] == 'ok' else out[1]
        kept = [x for what in sh.local.kept if what[0] != 'lookup'
                for x in what[1:] if x is not self.kw['credential'] and x is not self.kw.get('user')
                and x is not self.kw.get('rp')]
        return ((ok, out[1] if out[0] == 'ok' else None, sh.local.calls), kept)

    def build(self):
        s = self.spec[1]
        kept = []

        def go():
            b = self.shared.creation if s['create'] else self.shared.request
            for f, v in s['steps']:
                b = getattr(b, f)(opts.make(f, v))
            if s['create']:
                return b.build(user=opts.make('user', s['user']), challenge=s['challenge'])
            return b.build(challenge=s['challenge'],
                           allow_credentials=opts.make('allow_credentials', s['allow']))
        from webauthn_rp.converters import jsonify
        out = attempt(kept, go)
        js = attempt(kept, jsonify, kept[0]) if kept else None
        return ((out, js), kept)

    def tools(self):
        from webauthn_rp import (attesters, converters, parsers, utils, validators, verifiers)
        kept = []
        out = []

        def do(fn, *a, **kw):
            out.append((fn.__name__, attempt(kept, fn, *a, **kw)))
            return kept[-1] if out[-1][1][0] == 'ok' else None
        info, cred = self.info, self.kw['credential']
        do(parsers.parse_client_data, info['raw_cd'])
        eo = self.kw['expected_origin']
        for s in [eo] if isinstance(eo, str) else sorted(eo):
            do(parsers.parse_origin, s)
        j = do(converters.jsonify, cred)
        if j is not None:
            do(parsers.parse_public_key_credential, j)
        do(converters.jsonify, {'a_b': [cred.raw_id, {'c_d': None, 'e_f': (1, None)}]}, False)
        ad = do(parsers.parse_authenticator_data, info['raw_ad'])
        if self.spec[1] == 'reg':
            r = do(parsers.parse_attestation_object, info['raw_obj'])
            if r is not None:
                do(attesters.attest, r[0].att_stmt, r[0], info['raw_ad'], info['cdh'])
            acd = ad and ad.attested_credential_data
            key = acd and acd.credential_public_key
        else:
            key = info['data'] and info['data'].credential_public_key
        if key:
            b = do(converters.cose_key, key)
            if b is not None:
                do(parsers.parse_cose_key, b)
            do(converters.cryptography_public_key, key)
            do(validators.validate, key)
            if self.spec[1] == 'auth':
                do(verifiers.verify, key, info['sig'],
                   info['raw_ad'] + gen.sha256(info['raw_cd']))
                do(verifiers.verify, key, info['sig'], info['raw_ad'] + b'\0' * 32)
        do(utils.url_base64_encode, cred.raw_id)
        do(utils.snake_to_camel_case, 'tx_auth_simple')
        return (out, kept)


def judge_alone(op, result, rec, what):
    """The model's own verdict on a ceremony."""
    if op.spec[0] in ('reg', 'auth'):
        (ok, ret, calls), _ = result
        recorded = [c for c in calls if c[1][0] != ('str', 'lookup')]
        if op.spec[3]:
            rec.check(ok != 'ok', 'accepted in spite of a failing registrar ' + what, outcome=ok)
            rec.check(op.viol or len(recorded) == (op.spec[3] != 'lookup'), 'calls with a failing registrar ' + what,
                      calls=len(recorded))
        elif op.viol:
            rec.check(ok != 'ok' and not recorded, 'accepted in spite of violations ' + what,
                      violated=sorted(op.viol), outcome=ok)
        else:
            rec.check(ok == 'ok' and len(recorded) == 1, 'honest ceremony failed ' + what,
                      outcome=ok, calls=len(recorded))


def key_of(case):
    out = []
    for s in case['ops']:
        if s[0] == 'build':
            out.append(('build', s[1]['create'], tuple(f for f, _ in s[1]['steps'])))
        else:
            c = s[2]
            out.append((s[0], s[1], s[3], c['cfg']['container'], c['cfg']['tb'] and c['cfg']['tb'][0],
                        c['cfg']['uv'], c.get('att') and c['att']['fmt'],
                        c.get('key') and c['key']['crv'], c['ad']['flags']))
    return out


def same(rec, want, got, what, spec):
    rec.check(want == got, 'different result ' + what, operation=spec[:2], alone=want, got=got)


@prop(cases, quick=4800, thorough=60000)
def interleaved(case, rec):
    sh = Shared()
    ops = [Op(s, sh) for s in case['ops']]
    alone = []
    for op in ops:
        r = op.run()
        judge_alone(op, r, rec, 'alone')
        alone.append(r[0])
    w = weave.Weave([op.run for op in ops], case['schedule'], case['opcodes'])
    if case['callbacks']:
        ident = {}

        def starter(i, op):
            def go():
                ident[threading.get_ident()] = i
                return op.run()
            return go
        w.fns = [starter(i, op) for i, op in enumerate(ops)]
        sh.pause = lambda: w.switch(ident[threading.get_ident()])
    results = w.run()
    sh.pause = None
    for op, want, got in zip(ops, alone, results):
        if got is None:
            rec.fail('an operation did not come back')
        if got[0] == 'raised':
            rec.fail('an operation raised', error=repr(got[1]))
        judge_alone(op, got[1], rec, 'interleaved')
        same(rec, want, got[1][0], 'interleaved', op.spec)
    rec.label('switches %s' % (w.switches if w.switches < 8 else '8+'))
    if w.free:
        rec.label('schedule dissolved')
    if case['callbacks']:
        rec.label('switched in callbacks')
    k = key_of(case)
    if w.switches >= 2 and any(a != b for a, b in zip(k, k[1:])):
        rec.nt((k, case['schedule'], case['callbacks'], case['opcodes']), sample=(k, case['schedule']))


def spoil(o, seen):
    """Change everything reachable from a returned object that can be changed."""
    import enum
    if id(o) in seen or o is None or isinstance(
            o, (enum.Enum, type, str, bytes, int, float, frozenset)):
        return
    seen[id(o)] = o
    if isinstance(o, (list, tuple, set)):
        for x in list(o):
            spoil(x, seen)
        if isinstance(o, list):
            o.append('spoilt')
            o.reverse()
        elif isinstance(o, set):
            o.clear()
    elif isinstance(o, dict):
        for x in list(o.values()):
            spoil(x, seen)
        o.clear()
        o['spoilt'] = 1
    elif type(o).__module__.startswith('webauthn_rp') and hasattr(o, '__dict__'):
        for k, v in list(vars(o).items()):
            spoil(v, seen)
            try:
                setattr(o, k, 'spoilt')
            except AttributeError:
                pass


@prop(cases, quick=4800, thorough=60000)
def sequential(case, rec):
    sh = Shared()
    ops = [Op(s, sh) for s in case['ops']]
    first = [op.run() for op in ops]
    for op, r in zip(ops, first):
        judge_alone(op, r, rec, 'at first')
    shown = [[picture(x) for x in r[1]] for r in first]
    for i, op in enumerate(ops):
        if op.spec[0] != 'build' and (len(case['schedule']) + i) % 3:
            other = changed_arguments(op, (len(case['schedule']) + i) % 3 == 1)
            if other is None:
                rec.label('arguments cannot be changed')
                continue
            rec.label('arguments changed after %s' % (
                'use' if (len(case['schedule']) + i) % 3 == 1 else 'construction'))
            same(rec, first[i][0], other.run()[0], 'with arguments assigned after construction', op.spec)
    second = {}
    for i in case['order']:
        second[i] = ops[i].run()
        same(rec, first[i][0], second[i][0], 'the second time', ops[i].spec)
    for op, r, s in zip(ops, first, shown):
        rec.check([picture(x) for x in r[1]] == s, 'a returned object changed later',
                  operation=op.spec[:2])
        if op.spec[0] != 'build':
            rec.check(gen.view(op.kw) == op.args, 'an argument changed', operation=op.spec[:2])
    seen = {}
    for op in ops:
        if op.spec[0] != 'build':
            # what the caller handed in is not the library's to protect
            mark(op.kw, seen)
            mark(op.info, seen)
    for op, r in zip(ops, first):
        if op.spec[0] != 'build':
            for x in r[1]:
                spoil(x, seen)
    for i in reversed(case['order']):
        same(rec, first[i][0], ops[i].run()[0], 'after results were changed by their receiver',
             ops[i].spec)
    k = key_of(case)
    if any(a != b for a, b in zip(k, k[1:])):
        rec.nt((k, case['order']), sample=(k, case['order']))


@prop(cases, quick=4000, thorough=40000)
def nested(case, rec):
    """A registrar that, while it is being asked, has other operations done by the same backend."""
    sh = Shared()
    ops = [Op(s, sh) for s in case['ops']]
    alone = []
    for op in ops:
        r = op.run()
        judge_alone(op, r, rec, 'alone')
        alone.append(r[0])
    done = 0
    for i, outer in enumerate(ops):
        if outer.spec[0] not in ('reg', 'auth'):
            continue
        j = (i + case['inner']) % len(ops)
        inner = Op(case['ops'][j], sh)
        sh.found = []
        sh.inner = (inner, 'la'[case['inner'] % 2])
        got = outer.run()
        sh.inner = None
        judge_alone(outer, got, rec, 'around another')
        same(rec, alone[i], got[0], 'around another', outer.spec)
        if sh.found:
            done += 1
            rec.label('inside ' + ('a lookup' if case['inner'] % 2 == 0 else 'a recording'))
            judge_alone(inner, sh.found[0], rec, 'inside another')
            same(rec, alone[j], sh.found[0][0], 'inside another', inner.spec)
    if done:
        k = (key_of(case), case['inner'])
        rec.nt(k, sample=k)


@st.composite
def marathons(draw):
    case = draw(cases())
    n = len(case['ops'])
    case['plan'] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.one_of(
        st.integers(1, 6), gen.sizes(1, 300), st.sampled_from([100, 128, 129, 256, 257]))), min_size=2, max_size=5))
    return case


@prop(marathons, quick=320, thorough=6000)
def marathon(case, rec):
    """Hundreds of operations through the same objects."""
    sh = Shared()
    ops = [Op(s, sh) for s in case['ops']]
    alone = []
    for op in ops:
        r = op.run()
        judge_alone(op, r, rec, 'alone')
        alone.append(r[0])
    total = 0
    for i, n in case['plan']:
        for _ in range(min(n, 500 - total)):
            total += 1
            same(rec, alone[i], ops[i].run()[0], 'after %d operations' % total, ops[i].spec)
    rec.label('%d operations' % (total // 100 * 100))
    k = (key_of(case), case['plan'])
    if total >= 100:
        rec.nt(k, sample=k)


def junk(v):
    return b'\x00junk' if type(v) is bytes else 'junk' if type(v) is str else v


def remade(o, fix):
    """o built anew with other content; applying fix gives it the content of o."""
    import enum
    import inspect
    if isinstance(o, list):
        return [remade(x, fix) for x in o]
    if isinstance(o, tuple):
        parts = [remade(x, fix) for x in o]
        return type(o)(*parts) if hasattr(o, '_fields') else tuple(parts)
    if isinstance(o, dict):
        return {k: remade(x, fix) for k, x in o.items()}
    if isinstance(o, enum.Enum) or not type(o).__module__.startswith('webauthn_rp') or (
            not hasattr(o, '__dict__')):
        return o
    real = {n: remade(getattr(o, n), fix) for n in inspect.signature(type(o)).parameters}
    donor = type(o)(**{n: junk(v) for n, v in real.items()})
    fix.append((donor, real))
    return donor


def changed_arguments(op, use):
    """The operation on argument objects that were built (and, with use, used) with other content
    and then got theirs by assignment; None where the objects do not allow that."""
    import copy
    fix = []
    other = copy.copy(op)
    try:
        other.kw = remade(op.kw, fix)
        other.info = dict(op.info, data=remade(op.info.get('data'), fix))
    except (AttributeError, TypeError):
        return None
    if use:
        other.run()
    try:
        for donor, real in fix:
            for n, v in real.items():
                setattr(donor, n, v)
    except (AttributeError, TypeError):
        return None
    return other


def mark(o, seen):
    if id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, dict):
        for x in o.values():
            mark(x, seen)
    elif isinstance(o, (list, tuple, set, frozenset)):
        for x in o:
            mark(x, seen)
    elif hasattr(o, '__dict__') and not isinstance(o, type):
        for x in vars(o).values():
            mark(x, seen)
