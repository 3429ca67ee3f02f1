"""C04: a refused authentication raises the documented error for a violated requirement."""
from pbt import gen
from pbt.checks import c03
from pbt.core import prop

RULE = c03.RULE + """ The error class must be that of a violated requirement."""
ASSUMES = c03.ASSUMES


def judge(rec):
    from webauthn_rp import errors

    def j(i, c, kw, viol, info, out, reg):
        if not viol:
            rec.check(out[0] == 'ok', 'error raised although every requirement holds', step=i,
                      error=out[2])
            return
        rec.check(out[0] == 'error', 'no error although requirements are violated',
                  violated=sorted(viol))
        want = tuple(getattr(errors, gen.ERRORS[v]) for v in viol)
        rec.check(isinstance(out[2], want), 'error of a requirement that is not violated',
                  error=out[2], violated=sorted(viol))
    return j


@prop(c03.histories, quick=8000, thorough=60000)
def error_class(case, rec):
    c03.run_history(case, rec, judge(rec))


@prop(c03.singles, quick=12000, thorough=100000)
def single_error_class(case, rec):
    c03.run_history(case, rec, judge(rec))


@prop(c03.look_alikes, quick=6000, thorough=60000)
def look_alike_error_class(case, rec):
    c03.run_history(case, rec, judge(rec))
