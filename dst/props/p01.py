"""P01: recorded data locations are exact, last-wins and survive crashes."""
import copy
import os

from .common import Sess, name, fsenc

KINDS = ('sims', 'lcs', 'props')
SIMS = ['TNG100-1', 'Illustris-3', 'UniverseMachine-SMDPL', '_testbox', 'UniverseMachine-uchuu']
NAMES = {'sims': SIMS, 'lcs': SIMS, 'props': ['behroozi13', 'other', 'tables2']}
FORMS = ['abs', 'abs', 'rel', 'slash', 'dots']
FAULT = ('interrupt', 'eio', 'enospc', 'kill')


class P01:
    def generate(self, rng, tier, i):
        nroots = rng.choice([1, 1, 2, 3])
        cfg = {'roots': [], 'weird': rng.choice([0.0, 0.6, 1.0])}
        seen = set()
        for k in range(nroots):
            n = 'r%d' % k + ('/' + fsenc(name(rng, cfg['weird'])) if rng.random() < 0.7 else '')
            cfg['roots'].append(n)
        pool = []
        for k in range(rng.randint(2, 6)):
            p = 'loc/%d' % k if rng.random() < 0.4 else 'loc'
            p = p + '/' + fsenc(name(rng, cfg['weird']))
            if p not in seen:
                seen.add(p)
                pool.append(p)
        cfg['locs'] = pool
        ops = [{'op': 'setup', 'root': 0, 'how': rng.choice(['public', 'direct']), 'form': rng.choice(FORMS)}]
        faulty = rng.random() < 0.8
        n = rng.randint(2, 9)
        for k in range(n):
            r = rng.random()
            if r < 0.62:
                kind = rng.choice(['sims', 'sims', 'lcs', 'props'])
                o = {'op': 'record', 'kind': kind, 'name': rng.choice(NAMES[kind]),
                     'loc': rng.choice(['auto'] + list(range(len(pool)))), 'inst': rng.choice(['new', 'new', 'old']),
                     'form': rng.choice(['abs', 'abs', 'rel', 'slash', 'ask']),
                     'check': rng.random() < 0.4}
            elif r < 0.75:
                o = {'op': 'session', 'cwd': rng.choice([None, None] + list(range(len(pool))))}
            elif r < 0.88:
                o = {'op': 'setup', 'root': rng.randrange(nroots), 'how': rng.choice(['public', 'direct']), 'form': rng.choice(FORMS)}
            else:
                o = {'op': 'catalog', 'loc': rng.choice(list(range(len(pool))))}
            ops.append(o)
        if faulty:
            for j in rng.sample(range(len(ops)), min(len(ops), rng.choice([1, 1, 2, 3]))):
                if ops[j]['op'] != 'session':
                    ops[j]['want'] = {'kinds': FAULT, 'points': ('file.', 'os.')}
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg = run.w, run.cfg
        for p in cfg['roots'] + cfg['locs']:
            os.makedirs(os.path.join(w.base, p), exist_ok=True)
        s = Sess(run)
        m = self.model = {'root': {None}, 'reg': {}}
        insts = {}
        cwd = [w.base]
        s.start()

        def paths():
            return w.mod('simim._paths')._SimIMPaths()

        def rootabs(k):
            return os.path.abspath(os.path.join(w.base, cfg['roots'][k]))

        def observe(why):
            """A new session; everything it sees must be allowed by the model."""
            insts.clear()
            os.chdir(cwd[0])
            s.start(cls='session-start')
            out = w.op('look', paths)
            p = run.expect_ok(out, 'session-start', 'reading the registry (%s)' % why)
            run.check(p.root in m['root'], 'wrong-root', lambda: 'data directory is %r, expected one of %r (%s)' % (p.root, m['root'], why))
            m['root'] = {p.root}
            if p.root is None:
                return
            reg = m['reg'].setdefault(p.root, {k: {} for k in KINDS})
            for k in KINDS:
                seen = dict(getattr(p, k))
                if k == 'props':
                    auto = os.path.join(p.root, 'simim_resources', 'galprops', 'behroozi13')
                    reg[k].setdefault('behroozi13', {auto})      # recorded by the start itself
                for n in set(reg[k]) | set(seen):
                    allowed = reg[k].get(n, {None})
                    run.check(seen.get(n) in allowed, 'wrong-location',
                              lambda: '%s[%r] is %r, expected one of %r (%s)' % (k, n, seen.get(n), sorted(map(str, allowed)), why))
                    if seen.get(n) is None:
                        reg[k].pop(n, None)
                    else:
                        reg[k][n] = {seen[n]}
            run.state(p.root, [(k, sorted((n, tuple(v)) for n, v in reg[k].items())) for k in KINDS])

        def after(out, i, why):
            for f in run.fired.get(i, ()):
                run.probe('fault:%s' % f['point'])
            if out.status == 'killed':
                s.alive = False
                observe('after the process died while %s' % why)

        for i, op in run.steps():
            if not s.alive:
                s.start()
            kind = op['op']
            if kind == 'session':
                run.points[i] = []
                # the user may work in another directory from now on
                cwd[0] = w.base if op.get('cwd') is None else os.path.join(w.base, cfg['locs'][op['cwd']])
                observe('new session')
                continue
            if kind == 'setup':
                root = rootabs(op['root'])
                typed = {'rel': os.path.relpath(root), 'slash': root + '/', 'dots': os.path.join(os.path.dirname(root), '.', os.path.basename(root), '')}.get(
                    op.get('form'), root)
                if typed.startswith('~'):
                    typed = './' + typed            # a leading ~ means the home directory
                cur = next(iter(m['root'])) if len(m['root']) == 1 else '?'
                ans = ['y'] * 3
                if op['how'] == 'public':
                    ans = [typed] + ans
                    if op['root'] == 0 and len(cfg['roots']) == 1 and 0:
                        ans = [''] + ans
                    fn = w.mod('simim').setupsimim
                else:
                    def fn():
                        paths()._setuppath(root=typed)
                out = run.call('setup', fn, op, answers=ans)
                if out.ok:
                    m['root'] = {root}
                    m['reg'].setdefault(root, {k: {} for k in KINDS})
                else:
                    run.check(bool(out.fired), 'setup-failed', lambda: 'setting up %r failed without a fault: %r\n%s' % (root, out.exc, getattr(w, 'last_tb', '')))
                    m['root'] = m['root'] | {root}
                insts.clear()
                after(out, i, 'setting up the data directory')
                if s.alive:
                    observe('after setting up the data directory')
                continue
            if kind == 'record':
                out0 = None
                if op['inst'] == 'old' and 'p' in insts:
                    p = insts['p']
                else:
                    out0 = w.op('paths', paths)
                    p = run.expect_ok(out0, 'registry-unreadable', 'opening the registry')
                    insts['p'] = p
                if p.root is None:
                    run.points[i] = []
                    continue
                reg = m['reg'].setdefault(p.root, {k: {} for k in KINDS})[op['kind']]
                sub = {'sims': 'simulations', 'lcs': 'lightcones', 'props': 'galprops'}[op['kind']]
                nm = op['name']
                before = reg.get(nm, {None})
                ans = []
                if op['loc'] == 'auto':
                    arg, new = 'auto', os.path.join(p.root, 'simim_resources', sub, nm)
                else:
                    raw = os.path.join(w.base, cfg['locs'][op['loc']])
                    new = os.path.abspath(raw)
                    arg = {'abs': raw, 'slash': raw + '/', 'rel': os.path.relpath(raw), 'ask': None}[op['form']]
                    if op['form'] == 'rel' and arg == 'auto':
                        arg = './auto'
                    if arg is None:
                        ans = [raw]
                fnname = {'sims': '_newsimpath', 'lcs': '_newlcpath', 'props': '_newproppath'}[op['kind']]
                if op['check']:
                    ans = ['y'] + ans if nm in getattr(p, op['kind']) else ans
                out = run.call('record', lambda: getattr(p, fnname)(nm, arg, checkoverwrite=op['check']), op, answers=ans)
                if out.ok:
                    reg[nm] = {new}
                    got = getattr(w.mod('simim._paths')._SimIMPaths(), op['kind']).get(nm) if False else None
                    cur = getattr(p, op['kind']).get(nm)
                    run.check(cur == new, 'wrong-location', lambda: 'recorded %r but the session now has %r' % (new, cur))
                else:
                    run.check(bool(out.fired), 'record-failed', lambda: 'recording %r failed without a fault: %r\n%s' % (new, out.exc, getattr(w, 'last_tb', '')))
                    reg[nm] = set(before) | {new}
                after(out, i, 'recording a location')
                continue
            if kind == 'catalog':
                # a location recorded through the public catalogue class
                raw = os.path.join(w.base, cfg['locs'][op['loc']])
                pr = w.op('paths', paths)
                p = run.expect_ok(pr, 'registry-unreadable', 'opening the registry')
                if p.root is None:
                    run.points[i] = []
                    continue
                si = w.mod('simim.siminterface')
                reg = m['reg'].setdefault(p.root, {k: {} for k in KINDS})['sims']
                before = reg.get('_testbox', {None})
                new = os.path.abspath(raw)
                out = run.call('catalog', lambda: si.UniversemachineCatalogs('_testbox', path=raw, updatepath=True), op,
                               answers=['y', 'y'])
                if out.ok:
                    run.check(os.path.abspath(out.value.path) == new, 'wrong-location', lambda: 'catalogue path %r, expected %r' % (out.value.path, new))
                    reg['_testbox'] = {new}
                else:
                    run.check(bool(out.fired), 'record-failed', lambda: 'recording through a catalogue failed: %r\n%s' % (out.exc, getattr(w, 'last_tb', '')))
                    reg['_testbox'] = set(before) | {new}
                after(out, i, 'recording a location')
        observe('at the end')
        observe('at the end, again')


PROP = P01()
