"""Common part of the checks that compare histories with the model."""
from . import classify, env, sim
from .runner import Outcome

env.load()


def run(prop, case, nontrivial, without=None):
    """'without' derives from a case the same case without what the property
    is about. A divergence which is not to be seen then is attributed to the
    property."""
    stats, d = sim.run_history(case)
    failure = None
    if d is not None:
        if prop in classify.tags(d) or \
           (without is not None and
                sim.run_history(without(case))[1] is None):
            failure = (classify.signature(d), "%s: %s" % (d.kind, d.detail))
        else:
            stats["divergences of other properties"] = 1
    return Outcome(failure, bool(nontrivial(stats)) and d is None or
                   failure is not None, stats)
