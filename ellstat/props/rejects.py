"""Rule shared by C06, C07, C08: a call that violates a documented requirement raises the library's ValueError."""
from ..run import Sc
from ..badcalls import BAD
from ..lab import Skip


def make(prop, floor):
    def scenarios(tier):
        for label, f in BAD[prop]:
            for how in ('', ' (sub-box)'):
                def run(b, f=f, label=label, how=how):
                    b.narrow = 1e-4 if how else 0.0
                    g = f(b)
                    if g is None:
                        raise Skip
                    b.must_raise('rejected', g, label)
                yield Sc(label + how, run, 16, 8)
    rule = ('Exception-flow analysis: for every class of calls violating one documented requirement (named by the '
            'scenario), every path of the abstract execution ends in the ValueError raised by the library; a path that '
            'returns, or ends in another exception, is the violation.')
    return rule, floor, scenarios
