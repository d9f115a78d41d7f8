"""Run a reference-AST program on the real DSL and compare with the reference."""
from mc import dslref as R
from mc.core import Out, require


def real(src, cmd, params, limit=None):
    from yapcad.dsl.runtime.interpreter import compile_and_run

    return compile_and_run(src, cmd, params, recursion_limit=limit)


def compare(cmds, name, params, limit=100, note=""):
    """Raises Violation unless the real outcome is the reference outcome."""
    src = R.source(cmds)
    res = real(src, name, params, limit)
    where = "%s with %r%s" % (name, params, note)
    if not R.well_typed(cmds):
        require(not res.success and res.emit_result is None and res.error_message, "an ill-typed program ran (%s): %r\n%s" % (where, res.geometry, src))
        require("rror" in res.error_message, "rejection without a diagnostic: %r" % res.error_message)
        return "rejected"
    m = R.Machine(cmds, limit)
    try:
        want, failed = m.run(name, params)
    except R.RunErr as e:
        require(not res.success and res.emit_result is None, "%s should fail (%s) but gave %r\n%s" % (where, e, res.geometry, src))
        require(res.error_message and not res.error_message.startswith("Type errors"), "a well-typed program was rejected: %s\n%s" % (res.error_message, src))
        return "runerr"
    require(not (res.error_message or "").startswith("Type errors"), "a well-typed program was rejected: %s\n%s" % (res.error_message, src))
    require(res.success == (not failed), "%s: success is %s, broken contracts are %r, error %r\n%s" % (where, res.success, failed, res.error_message, src))
    require(R.same(res.geometry, want), "%s emits %r, expected %r (%s)\n%s" % (where, res.geometry, want, res.error_message, src))
    ret = next(c for c in cmds if c["name"] == name)["ret"]
    require(R.has_type(res.geometry, ret), "%s emits %r, not a %s\n%s" % (where, res.geometry, R.tstr(ret), src))
    require(len(res.require_failures) == len(failed), "%s: %d broken contracts reported, expected %d\n%s" % (where, len(res.require_failures), len(failed), src))
    for got, msg in zip(res.require_failures, failed):
        if msg:
            require(got.message == msg, "contract message is %r, expected %r" % (got.message, msg))
    return "contract" if failed else "ok"


def judged(cmds, name, params, limit=100):
    return Out(compare(cmds, name, params, limit))
