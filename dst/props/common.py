"""Shared pieces of the property workloads."""
import os

import numpy as np

from .. import core
from ..runner import Violation  # noqa: F401

WEIRD = ['data', 'my data', "it's", 'a;b', 'x&&y', 'a$HOME', 'q"uote', 'per%cent', '#hash', 'star*', 'back\\slash',
         'tab\there', 'ünï', '-dash', ' lead', 'trail ', 'two  spaces', '(p)', 'a|b', 'semi; rm x', '~tilde',
         '{br}', '[ab]', 'q?', 'new\rline', '$(x)', '`y`', 'y', 'auto', 'a>b', '=', '\udcff', 'a:b', ',']


def name(rng, weird=0.7):
    if rng.random() > weird:
        return 'd%d' % rng.randrange(4)
    n = rng.choice(WEIRD)
    if rng.random() < 0.3:
        n += rng.choice(WEIRD[:12])
    return n


def fsenc(s):
    return s.encode('utf8', 'surrogateescape').decode('utf8', 'surrogateescape')


class Sess:
    """The current simulated session of a run."""

    def __init__(self, run):
        self.run = run
        self.alive = False

    def start(self, op=None, must=True, cls='session-start'):
        """Start a session; with must, failing to start without a fault is a violation."""
        run = self.run
        if op is not None:
            out = run.call_session(op)
        else:
            out = run.w.session()
        self.alive = out.ok
        if must and not out.ok and not out.fired:
            run.fail(cls, 'a fault-free session does not start: %r\n%s' % (out.exc, getattr(run.w, 'last_tb', '')))
        return out

    def setup(self, root, cls='setup'):
        """First-time set-up of a data directory, without faults."""
        import simim
        out = self.run.w.op('setupsimim', simim.setupsimim, answers=[root, 'y', 'y', 'y'])
        self.run.expect_ok(out, cls, 'setting up the data directory %r' % root)


def mkroot(run, rel='data'):
    p = os.path.join(run.w.base, rel)
    os.makedirs(p, exist_ok=True)
    return p


def ready(run, rel='data'):
    """A started session on a freshly set-up data directory; restarts so that start-up work is done."""
    s = Sess(run)
    s.start()
    root = mkroot(run, rel)
    s.setup(root)
    s.start()
    s.root = root
    return s


def same(a, b):
    """Equal arrays, NaN equal to NaN, shape included."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def close(a, b, rtol=1e-6, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
