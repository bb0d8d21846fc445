"""P08: interrupted formatting never leaves a snapshot that passes for complete."""
import random

from .. import core, synth
from . import fmt


class P08:
    def generate(self, rng, tier, i):
        spec = synth.gen_spec(rng)
        ops = []
        for k in range(rng.randint(1, 4)):
            o = fmt.gen_format(rng, spec)
            if rng.random() < 0.75:
                o['want'] = {'kinds': fmt.FAULTS, 'n': rng.choice([1, 1, 1, 2])}
            ops.append(o)
        if not any('want' in o for o in ops):
            ops[-1]['want'] = {'kinds': fmt.FAULTS}
        return {'config': {'spec': spec}, 'ops': ops}

    def execute(self, run):
        s, m = fmt.prepare(run)
        rng = random.Random(core.stable_hash('p08', run.plan['wseed']))
        for i, op in run.steps():
            out = m.format(op)
            if out.ok:
                m.check_readers(rng)
                continue
            for f in out.fired:
                run.probe('stopped at ' + f['point'])
            if out.status == 'killed' or rng.random() < 0.4:
                s.start()
                m.cat = None
            m.check_readers(rng, listed_only=True)
            # the same call again, now without faults
            again = {k: v for k, v in op.items() if k not in ('faults', 'want')}
            out = m.format(again, faultable=False)
            run.check(out.ok, 'retry-fails', lambda: 'repeating the call after the fault: %s %r' % (out.brief(), out.exc))
            m.check_readers(rng)
            run.probe('retried')


PROP = P08()
