"""P02: nothing is deleted, overwritten or re-pointed without an explicit yes."""
import os

from .. import core, synth
from . import fmt
from .common import Sess, name, fsenc  # noqa: F401

GARBAGE = ['', ' ', 'maybe', '0', '?', 'later', 'x', '\t', 'nn', 'q', '-', 'dunno', 'stop', '1', 'auto', '../', '*',
           'ok?', 'n o', 'what', 'e', 's']
ENDS = ['n', 'n', '<eof>', '<interrupt>']


def answers(rng, yes):
    a = [rng.choice(GARBAGE) for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))]
    return a + (['y'] if yes else [rng.choice(ENDS)])


class P02:
    def generate(self, rng, tier, i):
        spec = synth.gen_spec(rng)
        spec['sim'] = rng.choice(['TNG100-1', '_testbox', 'UniverseMachine-SMDPL'])
        cfg = {'spec': spec, 'weird': rng.choice([0.0, 0.8]), 'formatted': rng.random() < 0.9}
        cfg['root'] = 'r/' + fsenc(name(rng, cfg['weird']))
        cfg['locs'] = ['loc%d/%s' % (k, fsenc(name(rng, cfg['weird']))) for k in range(2)]
        cfg['simdir'] = None if rng.random() < 0.5 else 'sd/' + fsenc(name(rng, cfg['weird']))
        # the sets as left by their owner: whole, or with only some of their light cones
        cfg['cones'] = rng.choice([[0, 1, 2], [0, 1, 2], [0], [1, 3], [7]])
        ops = []
        for k in range(rng.randint(2, 7)):
            kind = rng.choice(['clean', 'clean', 'format', 'format', 'record', 'record', 'catalog', 'setup', 'setup', 'lc', 'lc'])
            yes = rng.random() < (0.15 if kind in ('clean', 'format') else 0.3)
            o = {'op': kind, 'yes': yes, 'ans': answers(rng, yes)}
            if kind == 'record':
                o.update(kind=rng.choice(['sims', 'lcs', 'props']), loc=rng.choice(['auto', 'ask', 0, 1]))
            elif kind == 'catalog':
                o['loc'] = rng.choice([0, 1])
            elif kind == 'setup':
                o['how'] = rng.choice(['public', 'direct'])
                o['other'] = rng.random() < 0.8
                o['ans2'] = answers(rng, rng.random() < 0.5)
            elif kind == 'format':
                o.update(fmt.gen_format(rng, spec), clean=True, op='format')
            elif kind == 'lc':
                o['mode'] = rng.choice(['check', 'check', False, False, True])
                o['cls'] = rng.choice(['LCMaker', 'LCMaker', 'SphereMaker'])
                o['which'] = rng.choice([0, 0, 1])
            if rng.random() < 0.25:
                o['want'] = {'kinds': ('interrupt', 'eio', 'memerr'), 'points': ('file.open-r', 'h5.open-r', 'os.', 'h5.read')}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w, cfg, spec = run.w, run.cfg, run.cfg['spec']
        s, m = fmt.prepare(run)
        sim = spec['sim']
        for l in cfg['locs']:
            os.makedirs(os.path.join(w.base, l), exist_ok=True)
        other = os.path.join(w.base, 'other root')
        os.makedirs(other)
        raw = os.path.join(m.path, 'raw')

        def paths():
            return w.mod('simim._paths')._SimIMPaths()

        def must(label, fn, answers=()):
            return run.expect_ok(w.op(label, fn, answers=answers), 'setup', label)

        # everything in place: recorded locations, formatted catalogue, an existing light-cone set
        def rec():
            p = paths()
            p._newlcpath(sim, checkoverwrite=False)
            p._newproppath('tab', checkoverwrite=False)
            if sim not in p.sims:
                p._newsimpath(sim, m.path, checkoverwrite=False)
            return dict(p.lcs)
        lcs = must('record', rec)
        if cfg['formatted']:
            cat = m.catalog('all')
            must('format', lambda: cat.format())
        sets = [os.path.join(lcs[sim], n) for n in ('mine', 'my set')]
        for d in sets:
            os.mkdir(d)
            for k in cfg.get('cones', (0, 1, 2)):
                with core._real['open'](os.path.join(d, 'lc_%04d.hdf5' % k), 'wb') as f:
                    f.write(b'precious %d' % k)
        s.start()
        m.cat = None
        names = ['mine', 'my set']

        def look():
            out = w.op('look', lambda: (lambda p: (p.root, dict(p.sims), dict(p.lcs), dict(p.props)))(paths()))
            return run.expect_ok(out, 'session-start', 'reading the recorded locations')

        for i, op in run.steps():
            kind, yes = op['op'], op['yes']
            ans = list(op['ans'])
            tree, rec0 = w.snapshot_tree(), look()
            changed = None          # what an explicit yes may change; None: nothing
            if rec0[0] != s.root:   # another data directory is in force; go back first
                must('back', lambda: paths()._setuppath(s.root), ['y', 'y'])
                tree, rec0 = w.snapshot_tree(), look()
            have_raw = os.path.exists(raw)
            if kind == 'clean':
                cat = m.catalog('all')
                out = run.call('clean_raw', cat.clean_raw, op, answers=ans)
                if yes and out.ok:
                    run.check(not os.path.exists(raw), 'not-done', 'clean_raw was confirmed but the raw data is still there')
                changed = lambda: None                                                 # noqa: E731
            elif kind == 'format':
                cat = m.catalog(op['snaps'])
                fn = lambda: cat.format(remake=op['remake'], overwrite=op['overwrite'], basic=op['basic'],  # noqa: E731
                                        realtime_clean_raw=True)
                out = run.call('format', fn, op, answers=ans)
            elif kind == 'record':
                nm = 'tab' if op['kind'] == 'props' else sim
                fnn = {'sims': '_newsimpath', 'lcs': '_newlcpath', 'props': '_newproppath'}[op['kind']]
                j = {'sims': 1, 'lcs': 2, 'props': 3}[op['kind']]
                loc = op['loc'] if op['loc'] == 'auto' else os.path.join(w.base, cfg['locs'][0 if op['loc'] == 'ask' else op['loc']])
                arg = None if op['loc'] == 'ask' else loc
                if op['loc'] == 'ask' and yes:
                    ans = ans + [loc]
                new = os.path.join(s.root, 'simim_resources', {'sims': 'simulations', 'lcs': 'lightcones', 'props': 'galprops'}[op['kind']], nm) if loc == 'auto' else os.path.abspath(loc)
                p = must('paths', paths)
                out = run.call('record', lambda: getattr(p, fnn)(nm, arg), op, answers=ans)
                if yes and out.ok:
                    run.check(look()[j].get(nm) == new, 'not-done', lambda: 'replacing %s was confirmed but it is %r' % (nm, look()[j].get(nm)))
            elif kind == 'catalog':
                C = synth.catalogs_class(w.mod('simim.siminterface._rawsiminterface').SimCatalogs, spec)
                loc = os.path.join(w.base, cfg['locs'][op['loc']])
                out = run.call('catalog', lambda: C(sim, path=loc), op, answers=ans)
                if yes and out.ok:
                    run.check(look()[1].get(sim) == os.path.abspath(loc), 'not-done', 'replacing the recorded location was confirmed')
            elif kind == 'setup':
                root = other if op['other'] else s.root
                a = (ans if op['other'] else []) + (op['ans2'] if op['how'] == 'public' else [])
                yes2 = op['how'] == 'direct' or (op['ans2'] and op['ans2'][-1] == 'y')
                if op['other'] and not yes and ans[-1] == 'n':
                    yes2 = False            # declined: nothing may change whatever follows
                yes = (yes or not op['other']) and yes2
                fn = w.mod('simim').setupsimim if op['how'] == 'public' else (lambda: paths()._setuppath(root))
                out = run.call('setup', fn, op, answers=([root] if op['how'] == 'public' else []) + a)
                if yes and out.ok:
                    run.check(look()[0] == os.path.abspath(root), 'not-done', lambda: 'the data directory is %r, %r was confirmed' % (look()[0], root))
            else:
                if not cfg['formatted']:
                    run.points.setdefault(i, [])
                    continue
                lc = w.mod('simim.lightcone')
                nm, mode = names[op['which']], op['mode']
                kw = dict(overwrite=mode, minimum_mass=1e9)
                if op['cls'] == 'LCMaker':
                    fn = lambda: lc.LCMaker(sim, nm, redshift_min=0, redshift_max=spec['zs'][0], openangle=0.001, **kw)   # noqa: E731
                else:
                    fn = lambda: lc.SphereMaker(sim, nm, 'sphere', 0, min(1e-4, spec['zs'][0] / 2), **kw)                     # noqa: E731
                yes = mode is True or (mode == 'check' and yes)
                if not spec['zs'][0]:
                    continue
                if not os.path.exists(m.file):
                    run.points.setdefault(i, [])
                    continue
                out = run.call('maker', fn, op, answers=ans if mode == 'check' else [])
                if not yes:
                    run.check(not out.ok, 'accepted', lambda: 'a light-cone maker for a name in use was created (overwrite=%r, answers %r)' % (mode, ans))
            # ---- afterwards
            if yes:
                run.probe('confirmed ' + kind)
                moved = kind in ('record', 'catalog') and rec0[1] != look()[1]
                if not out.ok and kind in ('clean', 'record', 'catalog', 'setup'):
                    run.check(bool(out.fired), 'confirmed-fails', lambda: '%s after a yes: %s %r\n%s' % (kind, out.brief(), out.exc, getattr(w, 'last_tb', '')))
                # put things back for the following operations
                if moved:
                    must('back', lambda: paths()._newsimpath(sim, m.path, checkoverwrite=False))
                if kind == 'clean' or (kind == 'format' and have_raw):
                    synth.write_raw(spec, m.path)
                if kind == 'record' and op['kind'] == 'lcs':
                    must('back', lambda: paths()._newlcpath(sim, 'auto', checkoverwrite=False))
                m.cat = None
            else:
                run.probe('declined ' + kind)
                t2, rec2 = w.snapshot_tree(), look()
                diff = sorted(k for k in set(tree) | set(t2) if tree.get(k) != t2.get(k))
                run.check(not diff, 'changed-without-yes', lambda: '%s with answers %r (%s): changed %s' % (kind, op['ans'], out.brief(), diff[:6]))
                run.check(rec2 == rec0, 'repointed-without-yes', lambda: '%s with answers %r: %r became %r' % (kind, op['ans'], rec0, rec2))
                if not out.ok and not out.fired and op['ans'][-1] == 'n' and kind in ('clean', 'format', 'record', 'catalog'):
                    run.fail('decline-fails', '%s declined with a no: %s %r\n%s' % (kind, out.brief(), out.exc, getattr(w, 'last_tb', '')))
            run.state(kind, yes, op['ans'][-1], out.brief(), len(op['ans']), sorted(t[:30] for t in w.snapshot_tree())[-3:])
            s.start()
            m.cat = None


PROP = P02()
