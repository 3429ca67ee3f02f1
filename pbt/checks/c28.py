"""C28: options builders are immutable and build exactly what was set."""
from pbt import gen, opts
from pbt.core import prop
from pbt.stx import st

RULE = """A case is a history over one builder class: builders made with any subset of constructor
arguments, setters called on any earlier builder (branching, repeated, with None where allowed), builds
from any builder with fresh user, challenge and allow list, and changes made in place to everything
reachable through a builder just returned by a setter (attributes replaced, lists emptied or extended). After every step all
other builders are built again and all values built earlier are looked at again, against a model that is
a plain dictionary per builder. Non-trivial: at least one builder with two setters applied to it, or an
in-place change. Distinct by content."""
ASSUMES = ['a value handed to a setter or constructor and changed in place later by the caller, or a built '
           'value changed in place and the same builder used again, is not judged',
           'None for user, challenge or a setter that requires a value is not judged']


@st.composite
def history(draw, create):
    table = opts.CREATE if create else opts.REQUEST
    need = opts.CREATE_NEED if create else opts.REQUEST_NEED
    fields = sorted(table)

    def value(f, none_ok):
        if none_ok and draw(st.integers(0, 6)) == 0:
            return None
        return draw(table[f]())

    def ctor():
        kind = draw(st.sampled_from([0, 1, 2, 3, 3, 4]))
        fs = [] if kind == 0 else fields if kind == 1 else draw(
            st.lists(st.sampled_from(fields), unique=True, max_size=len(fields)))
        kw = {f: value(f, True) for f in fs}
        if kind == 4:
            # a builder that starts out with nothing required
            kw = {f: v for f, v in kw.items() if f not in need}
        elif kind < 3:
            for f in need:
                if f not in kw or kw[f] is None:
                    if draw(st.integers(0, 7)):
                        kw[f] = draw(table[f]())
        return ('new', kw)

    ops = [ctor()]
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.sampled_from(['new', 'set', 'set', 'set', 'set', 'build', 'build', 'change', 'change']))
        if k == 'new':
            ops.append(ctor())
        elif k == 'set' or k == 'change':
            f = draw(st.sampled_from(fields))
            ops.append((k, draw(st.integers(0, 30)), f, value(f, f not in need), draw(st.integers(0, 99))))
        else:
            ops.append(('build', draw(st.integers(0, 30)), draw(call(create))))
    return {'create': create, 'ops': ops}


@st.composite
def call(draw, create):
    c = {'challenge': draw(gen.blob(0, 600))}
    if create:
        c['user'] = draw(opts.user())
    elif draw(st.integers(0, 2)):
        c['allow_credentials'] = draw(st.one_of(st.none(), opts.descriptors()))
    return c


def loose(v):
    """gen.view with lists and tuples alike."""
    if isinstance(v, tuple) and v and v[0] in ('list', 'tuple') and len(v) == 2 and isinstance(v[1], list):
        return ('seq', [loose(x) for x in v[1]])
    if isinstance(v, (list, tuple)):
        return type(v)([loose(x) for x in v])
    return v


def look(o):
    return loose(gen.view(o))


def expected(create, model, c):
    """Views of every attribute of the options."""
    pk = {f: look(opts.make(f, r)) for f, r in model.items() if f != 'mediation'}
    pk['challenge'] = look(c['challenge'])
    if create:
        pk['user'] = look(opts.make('user', c['user']))
        return {'public_key': pk}
    pk['allow_credentials'] = look(opts.make('allow_credentials', c.get('allow_credentials')))
    return {'public_key': pk, 'mediation': look(opts.make('mediation', model['mediation']))}


def build(b, create, c):
    kw = {k: opts.make(k, v) for k, v in c.items()}
    return b.build(**kw)


def picture(o):
    out = {k: look(v) for k, v in vars(o).items()}
    out['public_key'] = {k: look(v) for k, v in vars(o.public_key).items()}
    return out


def change(rec, o, n, seen, create):
    """Change every mutable thing reachable from o, in place."""
    import enum
    if isinstance(o, enum.Enum) or id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, list):
        for x in o:
            change(rec, x, n, seen, create)
        if n % 3 == 0:
            o.clear()
        elif n % 3 == 1:
            o.append('changed')
        else:
            o.insert(0, None)
    elif isinstance(o, tuple):
        for x in o:
            change(rec, x, n, seen, create)
    elif isinstance(o, dict):
        for x in list(o.values()):
            change(rec, x, n, seen, create)
        o['changed'] = True
    elif hasattr(o, '__dict__'):
        for k, x in list(vars(o).items()):
            if isinstance(x, (list, tuple, dict)) or hasattr(x, '__dict__') and not isinstance(x, enum.Enum):
                change(rec, x, n, seen, create)
            if n % 2 or not isinstance(x, (list, dict)):
                setattr(o, k, 'changed')


STD = {'user': {'name': 'n', 'id': b'i', 'display_name': 'd'}, 'challenge': b'standard'}


def run(c, rec):
    from webauthn_rp import builders as bl
    from webauthn_rp.errors import BuilderError
    create = c['create']
    cls = bl.CredentialCreationOptionsBuilder if create else bl.CredentialRequestOptionsBuilder
    default = opts.CREATE_DEFAULT if create else opts.REQUEST_DEFAULT
    need = opts.CREATE_NEED if create else opts.REQUEST_NEED
    live = []    # (builder, model)
    built = []   # (value, expected picture, builder index)
    std = STD if create else {'challenge': b'standard', 'allow_credentials': ([{'id': b'x', 'tuple': False}], False)}
    depth = {}
    changes = 0

    def attempt(i, call):
        b, m = live[i]
        missing = [f for f in need if m[f] is None]
        try:
            o = build(b, create, call)
        except BuilderError as e:
            rec.check(missing, 'build failed although nothing is missing', error=e, model=m)
            return None
        except Exception as e:
            rec.fail('build raised something else', error=e, model=m)
        rec.check(not missing, 'built although something is missing', missing=missing)
        got, want = picture(o), expected(create, m, call)
        rec.check(got == want, 'built value differs', got=got, want=want)
        return o

    def audit(step):
        for i in range(len(live)):
            attempt(i, std)
        for o, want, _ in built:
            got = picture(o)
            rec.check(got == want, 'a value built earlier changed', step=step, got=got, want=want)

    for op in c['ops']:
        if op[0] == 'new':
            b = cls(**{f: opts.make(f, r) for f, r in op[1].items()})
            live.append((b, dict(default, **op[1])))
        elif op[0] == 'build':
            i = op[1] % len(live)
            o = attempt(i, op[2])
            if o is not None:
                built.append((o, picture(o), i))
        else:
            i = op[1] % len(live)
            b, m = live[i]
            f, r = op[2], op[3]
            nb = getattr(b, f)(opts.make(f, r))
            rec.check(nb is not b, 'setter returned the same builder', field=f)
            rec.check(type(nb) is cls, 'setter returned something else', got=nb)
            nm = dict(m, **{f: r})
            if op[0] == 'set':
                live.append((nb, nm))
                depth[len(live) - 1] = depth.get(i, 0) + 1
            else:
                # change everything the new builder gives access to, then forget it
                changes += 1
                live.append((nb, nm))
                o = attempt(len(live) - 1, std)
                live.pop()
                if o is not None:
                    change(rec, o, op[4], set(), create)
        audit(op[0])
    rec.label('%s %d ops' % ('create' if create else 'request', len(c['ops'])))
    if changes or any(d > 1 for d in depth.values()):
        rec.nt(c)


@prop(lambda: history(True), quick=9000, thorough=100000)
def creation(c, rec):
    run(c, rec)


@prop(lambda: history(False), quick=9000, thorough=100000)
def request(c, rec):
    run(c, rec)
