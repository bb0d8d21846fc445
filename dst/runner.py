"""Plans, their execution, fault placement and minimisation."""
import copy
import json
import os
import random
import traceback

from . import core


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__('%s: %s' % (cls, msg))
        self.cls, self.msg = cls, msg


class StopAt(Exception):
    pass


class Run:
    """One execution of a plan in a fresh World."""

    def __init__(self, world, plan, stop_at=None):
        self.w = world
        self.plan = plan
        self.cfg = plan['config']
        self.stop_at = stop_at
        self.points = {}            # op index -> points of its faultable call
        self.fired = {}             # op index -> faults that fired
        self.probes = {}            # rare conditions reached
        self.states = set()         # digests of states reached, by the property's own measure
        self.checks = 0             # oracle evaluations
        self.i = None

    def steps(self):
        for i, op in enumerate(self.plan['ops']):
            self.i = i
            yield i, op
            if self.stop_at is not None and i >= self.stop_at:
                raise StopAt()

    def call(self, label, fn, op=None, answers=()):
        """The faultable call of the current operation."""
        i = self.i
        faults = (op or {}).get('faults', ())
        if i in self.points:          # only the first faultable call of an op takes the faults
            faults = ()
        out = self.w.op(label, fn, faults=faults, answers=answers)
        if i not in self.points:
            self.points[i] = out.points
            self.fired[i] = out.fired
            if self.stop_at is not None and i >= self.stop_at:
                raise StopAt()
        return out

    def call_session(self, op=None):
        """Starting a session as the faultable call of the current operation."""
        i = self.i
        faults = (op or {}).get('faults', ())
        if i in self.points:
            faults = ()
        out = self.w.session(faults=faults)
        if i not in self.points:
            self.points[i] = out.points
            self.fired[i] = out.fired
            if self.stop_at is not None and i >= self.stop_at:
                raise StopAt()
        return out

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        self.states.add(core.stable_hash(repr(parts).replace(self.w.base, '')) & 0xffffffffffff)

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def check(self, cond, cls, msg):
        self.checks += 1
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    def expect_ok(self, out, cls, what):
        self.checks += 1
        if not out.ok:
            raise Violation(cls, '%s: %s %r\n%s' % (what, out.brief(), out.exc, getattr(self.w, 'last_tb', '')))
        return out.value


class Env:
    """Where runs happen: a copy of the package and a scratch area."""

    def __init__(self, pkg, scratch):
        self.pkg, self.scratch = pkg, scratch
        self.n = 0

    def world(self, wseed, name=None):
        self.n += 1
        base = os.path.join(self.scratch, 'w')
        if os.path.exists(base):
            core._rm(base)
        cwd = os.getcwd()
        w = core.World(self.pkg, base, wseed)
        os.environ['HOME'] = os.path.join(base, 'home')
        return w


def execute(env, prop, plan, stop_at=None, keep_trace=False):
    """Run a concrete plan.  Returns (Run, Violation or None)."""
    w = env.world(plan['wseed'])
    w.keep_trace = keep_trace
    run = Run(w, plan, stop_at)
    v = None
    os.chdir(w.base)
    try:
        prop.execute(run)
    except Violation as e:
        v = e
    except StopAt:
        pass
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
        # what the code left behind or returned is not even of the kind the oracle reads
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        v = Violation('malformed', 'an output cannot be read: %s: %s (%s:%d)\n%s' % (
            type(e).__name__, e, os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno, traceback.format_exc()[-1500:]))
    finally:
        w.log('result', v.cls if v else 'ok')
        run.digest = w.digest()
        os.chdir(env.scratch)
        w.close()
    return run, v


def concretise(env, prop, plan, rng):
    """Place the faults the plan asks for ('want') at real points, one op after another."""
    plan = copy.deepcopy(plan)
    for i, op in enumerate(plan['ops']):
        want = op.pop('want', None)
        if not want:
            continue
        for k in range(want.get('n', 1)):
            if k:
                # a second fault later in the same operation (after the first was survived)
                pass
            run, v = execute(env, prop, plan, stop_at=i)
            if v is not None:
                return plan, v           # violated before any further fault
            pts = run.points.get(i)
            if not pts:
                break
            if any(f['kind'] in ('kill', 'interrupt') for f in op.get('faults', ())):
                break
            lo = max([f['at'] for f in op.get('faults', ())] or [-1])
            only = None
            kinds = want.get('kinds')
            pre = want.get('points')
            sub = [p for p in pts]

            def only(p, pre=pre):
                return pre is None or p[0].startswith(tuple(pre))
            f = core.choose_fault(rng, pts, kinds, only)
            if f is None or f['at'] <= lo:
                break
            op.setdefault('faults', []).append(f)
    return plan, None


def make_run(env, prop, pid, seed, tier, i):
    rng = random.Random(core.stable_hash('run', seed, pid, i))
    plan = prop.generate(rng, tier, i)
    plan['property'] = pid
    plan.setdefault('wseed', rng.getrandbits(48))
    plan.setdefault('config', {})
    return concretise(env, prop, plan, random.Random(core.stable_hash('faults', seed, pid, i)))


# -- minimisation -----------------------------------------------------------------
def shrink(env, prop, plan, cls, budget_s=100, clock=None):
    """Smaller plan with the same violation class."""
    import time
    t0 = time.monotonic()
    tried = 0

    def bad(p):
        nonlocal tried
        tried += 1
        try:
            _, v = execute(env, prop, p)
        except core.HarnessError:
            return False
        except Exception:
            return False
        return v is not None and v.cls == cls

    def left():
        return time.monotonic() - t0 < budget_s

    best = plan
    changed = True
    while changed and left():
        changed = False
        # whole operations, in chunks
        n = len(best['ops'])
        size = max(1, n // 2)
        while size >= 1 and left():
            i = 0
            while i < len(best['ops']) and left():
                p = copy.deepcopy(best)
                del p['ops'][i:i + size]
                if p['ops'] and bad(p):
                    best, changed = p, True
                else:
                    i += size
            size //= 2
        # faults
        for i in range(len(best['ops'])):
            fs = best['ops'][i].get('faults')
            if fs and left():
                p = copy.deepcopy(best)
                p['ops'][i]['faults'] = []
                if bad(p):
                    best, changed = p, True
                elif len(fs) > 1:
                    for j in range(len(fs)):
                        p = copy.deepcopy(best)
                        del p['ops'][i]['faults'][j]
                        if bad(p):
                            best, changed = p, True
                            break
        # the property's own simplifications
        for p in getattr(prop, 'simplify', lambda p: [])(best):
            if not left():
                break
            if bad(p):
                best, changed = p, True
                break
    return best, tried


def load_prop(pid):
    import importlib
    mod = importlib.import_module('dst.props.%s' % pid.lower())
    return mod.PROP


def dumps(o):
    return json.dumps(o, sort_keys=True)
