"""P22: operating on a set of light cones equals operating on each one."""
import copy
import os
import shutil

import numpy as np

from .. import core
from . import hnd

STRAY = ['lc_0001.hdf5.part', 'notes.txt', 'lc_backup.hdf5', 'lc_0000_old.hdf5', 'lc_0002.bak.hdf5', 'lc_.hdf5', 'old/lc_0007.hdf5',
         '.lc_0000.hdf5.swp', 'lc_0001.hdf5~', 'mylc_0003.hdf5']
FAULTS = ('interrupt', 'eio', 'memerr', 'enospc')
VARY = ['angle', 'aspect', 'zlo', 'zhi', 'shape', 'h', 'om']


class P22:
    def generate(self, rng, tier, i):
        cfg = hnd.gen_catalog(rng, lc=1.1)
        n = rng.choice([1, 2, 2, 3, 3, 4])
        cfg['numbers'] = sorted(rng.sample([0, 1, 2, 3, 4, 11, 100, 10000, 12345], n)) if rng.random() < 0.4 else list(range(n))
        cfg['stray'] = rng.sample(STRAY, rng.choice([0, 0, 1, 2]))
        cfg['shape'] = rng.choice(['box', 'box', 'circle', 'sphere'])
        cfg['vary'] = {str(rng.choice(cfg['numbers'])): rng.choice(VARY) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))}
        cfg['lacks'] = {str(rng.choice(cfg['numbers'])): rng.choice(['inv', 'old_p', 'pos_x']) for _ in range(rng.choice([0, 0, 1]))}
        pool = ['mass', 'pos_x', 'inv', 'old_p', 'halo_id', 'redshift', 'mass', 'p0', 'p1', 'p0']
        ops, made = [], []
        for k in range(rng.randint(4, 10 if tier == 'quick' else 14)):
            kind = 'open' if k == 0 else rng.choice(['make', 'make', 'make', 'make', 'write', 'write', 'delete', 'return', 'select', 'seth', 'stat', 'evo',
                                                     'volume', 'single', 'single'] + ['volume', 'open'] * bool(cfg['vary']) + ['open'] * (rng.random() < 0.5))
            o = {'op': kind}
            if kind == 'open':
                o.update(which=rng.choice(['all', 'all', 'all', 'all', 'some', 'some', 'one', 'missing', 'twice']), form=rng.choice(['list', 'tuple', 'array']),
                         strict=rng.random() < (0.2 if cfg['vary'] else 0.7), in_h=rng.random() < 0.3, session=rng.random() < 0.6, pick=rng.getrandbits(16))
                if rng.random() < 0.3:
                    o['want'] = {'kinds': ('interrupt', 'eio', 'memerr'), 'points': ('h5.', 'dir.')}
            else:
                o.update(self.one(rng, kind if kind != 'single' else rng.choice(['make', 'write', 'delete', 'select', 'seth', 'load']), pool))
                if kind == 'make' and o['fail'] is None:
                    made += o['p']['names']
                elif made and kind in ('write', 'delete', 'return', 'select') and rng.random() < 0.6:
                    o['name'] = rng.choice(made)
                if kind == 'single':
                    o.update(op='single', what=o['kind'], cone=rng.getrandbits(16))
                elif rng.random() < 0.2:
                    o['want'] = {'kinds': FAULTS if kind in ('make', 'write', 'delete') else ('interrupt', 'eio', 'memerr'), 'points': ('h5.', 'user.')}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def one(self, rng, kind, pool):
        o = {'op': kind, 'kind': kind, 'name': rng.choice(pool), 'in_h': rng.choice([None, True, False]), 'all': rng.random() < 0.5}
        if kind == 'make':
            p = hnd.gen_prop(rng, None, multi=0.2, fail=0, args=['mass', 'pos_x', 'halo_id', 'inv', 'mass', 'halo_id'] + ['p0', 'old_p'] * (rng.random() < 0.3))
            if len(p['names']) == 1 and rng.random() < 0.7:
                p['names'] = [rng.choice(['p0', 'p0', 'p1', 'inv'])]
            o.update(p=p, overwrite=rng.random() < 0.7, disk=rng.random() < 0.4, odisk=rng.random() < 0.7, fail=rng.choice([None] * 8 + [0, 1, 2]),
                     kws=rng.random() < 0.3)
            if o['disk']:
                o['all'] = True
        elif kind == 'write':
            o.update(overwrite=rng.random() < 0.7, dtype=rng.choice([None, None, 'f4']), name=rng.choice(['p0', 'p1', 'p0', 'inv', 'p0']))
        elif kind == 'delete':
            o['name'] = rng.choice(['p0', 'p1', 'p0', 'inv', 'old_p'])
        elif kind == 'select':
            o.update(q=rng.random(), q2=rng.random(), reset=rng.random() < 0.6, clear=rng.random() < 0.2)
        elif kind == 'seth':
            o['v'] = rng.random() < 0.5
        elif kind in ('stat', 'evo'):
            o.update(names=sorted(set(rng.choice(pool) for _ in range(rng.choice([1, 2])))), fail=rng.choice([None] * 7 + [0, 1, 3]),
                     edges=rng.choice([[0.2, 0.6, 1.0], [0.3, 0.9], [0.25, 0.5, 0.7, 0.9]]), zmin=rng.random() < 0.5, vol=rng.random() < 0.3,
                     scribble=rng.random() < 0.2, kws=rng.random() < 0.4)
        elif kind == 'volume':
            o.update(number=rng.choice([None, None, None, 'in', 'out']), pick=rng.getrandbits(16), zmax=rng.choice([None, 0.7]))
        return o

    def execute(self, run):
        w, cfg = run.w, run.cfg
        g = hnd.Ground(run, cones=0)
        spec = cfg['spec']
        numbers = cfg['numbers']
        A, B = os.path.join(g.lcdir, 'set A'), os.path.join(g.lcdir, 'twin')

        def setting(j):
            """The parameters of a cone."""
            v = cfg['vary'].get(str(j))
            s = {'shape': cfg['shape'], 'angle': 0.03, 'aspect': 1.0, 'zlo': 0.2, 'zhi': 1.0, 'attrs': {}}
            if v in ('angle', 'aspect', 'zlo', 'zhi'):
                s[v] *= 0.5 if v in ('angle', 'zlo') else 0.8 if v == 'aspect' else 1.25
            elif v == 'shape':
                s['shape'] = 'circle' if cfg['shape'] == 'box' else 'box'
            elif v == 'h':
                s['attrs'] = {'cosmo_h': spec['h'] + 0.01}
            elif v == 'om':
                s['attrs'] = {'cosmo_omega_matter': 0.25}
            if s['shape'] == 'sphere' and v in ('angle', 'aspect'):
                s = {k: x for k, x in s.items() if k not in ('angle', 'aspect')}
                return dict(s, angle=0.03, aspect=1.0)
            return s
        with core.seams_off(w):
            r = np.random.RandomState(cfg['dseed'] % (2**32))
            for j in numbers:
                n = int(r.choice([1, 4, 9, 9, 17]))
                props = hnd.lc_props(spec, j, cfg['dseed'], n)
                props.pop(cfg['lacks'].get(str(j)), None)
                hnd.write_lc(spec, A, j, props, **setting(j))
            shutil.copytree(A, B)
            for s in cfg['stray']:
                fn = os.path.join(A, s)
                os.makedirs(os.path.dirname(fn), exist_ok=True)
                with open(fn, 'w') as f:
                    f.write('not a light cone')
        L = w.mod('simim.lightcone')
        it, twin, last = None, {}, None

        def f_of(path, j):
            return os.path.join(path, 'lc_%04d.hdf5' % j)

        dumps = {}

        def dump(fn):
            with open(fn, 'rb') as f:
                raw = f.read()
            if raw not in dumps:
                dumps[raw] = repr(core.h5_dump(fn))
            return dumps[raw]
        at = [0]                    # now and then every value is read, else those in memory; the file is always compared

        def probe(hd, fn):
            d = {'lists': {k: sorted(hd.extract_keys(k)) for k in ('any', 'loaded', 'saved', 'generated')}, 'h': bool(hd.default_in_h_units),
                 'inds': [int(x) for x in hd.inds_active], 'n': int(hd.nhalos_active), 'all': [int(x) for x in hd.inds_all],
                 'units': {k: (str(hd.properties_units[k]), float(hd.properties_h_dependence[k])) for k in hd.extract_keys('any')}}
            vals = {}
            mem = set(hd.extract_keys('loaded')) | set(hd.extract_keys('generated'))
            for k in sorted(mem) if at[0] % 3 else sorted(hd.extract_keys('any')):
                out = w.op('return', lambda: hd.return_property(k, use_all_inds=True, in_h_units=True))
                v = np.asarray(out.value) if out.ok else None
                vals[k] = (str(v.dtype), v.shape, v.tobytes()) if out.ok else repr(out.exc)
            d['values'] = vals
            with core.seams_off(w):
                d['file'] = dump(fn)
            return d

        def diff(a, b):
            for k in a:
                if repr(a[k]) != repr(b[k]):
                    if isinstance(a[k], dict):
                        q = [x for x in set(a[k]) | set(b[k]) if repr(a[k].get(x)) != repr(b[k].get(x))]
                        return '%s: %s' % (k, [(x, str(a[k].get(x))[:150], str(b[k].get(x))[:150]) for x in q[:2]])
                    return '%s: %s and %s' % (k, str(a[k])[:300], str(b[k])[:300])
            return None

        def same(x, y):
            if isinstance(x, dict) and isinstance(y, dict):
                return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                x, y = np.asarray(x), np.asarray(y)
                return x.shape == y.shape and x.dtype == y.dtype and (x.tobytes() == y.tobytes() or bool(np.array_equal(x, y)))
            return x is y or x == y or (x != x and y != y)

        ran = [0]                   # how often the user's function ran

        def action(op, hd, kind, fail):
            """The call a user makes, on a set or on one light cone."""
            calls = [0] if fail is None else ran
            calls[0] = 0

            def trip():
                calls[0] += 1
                if fail is not None and calls[0] == fail + 1:
                    raise hnd.UserError('call %d' % calls[0])

            def stat(**kw):
                trip()
                w.point('user.fn', 'stat', lambda: None)
                v = [(k, float(np.sum(np.asarray(kw[k], dtype='f8')))) for k in sorted(kw)]
                if op['scribble']:
                    for x in kw.values():
                        if isinstance(x, np.ndarray) and x.ndim:
                            x[...] = 3
                return v
            if kind == 'make':
                p = op['p']
                def wrap(f):
                    def g(**kw):
                        trip()
                        return f(**kw)
                    return g
                q = hnd.make_prop(w, dict(p), None, wrap)
                kw = {'overwrite': op['overwrite'], 'use_all_inds': op['all']}
                if op['disk']:
                    kw.update(write_to_disk=True, overwrite_to_disk=op['odisk'])
                if op['kws']:
                    kw['other_kws'] = {'extra': 3}
                return hd.make_property(q, **kw)
            if kind == 'write':
                return hd.write_property(op['name'], overwrite=op['overwrite'], dtype=op['dtype'])
            if kind == 'delete':
                return hd.delete_property(op['name'])
            if kind == 'return':
                return hd.return_property(op['name'], use_all_inds=op['all'], in_h_units=op['in_h'])
            if kind == 'load':
                return hd.load_property(op['name'])
            if kind == 'select':
                if op['clear']:
                    return hd.set_property_range()
                a, b = sorted([op['q'], op['q2']])
                top = {'mass': 1e14, 'pos_x': spec['box'], 'redshift': 1., 'halo_id': 2.**41}.get(op['name'], 9.)
                return hd.set_property_range(op['name'], a * top, b * top, reset=op['reset'], in_h_units=op['in_h'])
            if kind == 'seth':
                return hd.set_in_h_units(op['v'])
            extra = {'other_kws': {'k': 2.}} if op['kws'] else {}
            if op['in_h'] is not None:
                extra['give_args_in_h_units'] = op['in_h']
            if kind == 'stat':
                return hd.eval_stat(stat, list(op['names']), use_all_inds=op['all'], **extra)
            return hd.eval_stat_evo(list(op['edges']), stat, list(op['names']), zmin_kw=op['zmin'], volume_kw=op['vol'], **extra)

        def pair(in_h):
            """The same cones, opened one by one."""
            twin.clear()
            with core.seams_off(w):
                for j in numbers:
                    shutil.copyfile(f_of(A, j), f_of(B, j))
            for j in sorted(int(x) for x in it.lc_handlers):
                twin[j] = run.expect_ok(w.op('LCHandler', lambda: L.LCHandler(spec['sim'], 'twin', j, in_h_units=in_h)), 'open', 'opening a light cone')
                run.check(os.path.realpath(it.lc_handlers[str(j)].path) == os.path.realpath(f_of(A, j)), 'covers', 'cone %d is another file' % j)

        def mixed(chosen):
            """Whether cones differ in geometry or cosmology."""
            s = [repr(sorted(setting(j).items())) for j in chosen]
            return len(set(s)) > 1

        def match_all(what, states):
            """Every cone of the set as its twin, or as one of the states given for it."""
            for j in twin:
                mine = probe(it.lc_handlers[str(j)], f_of(A, j))
                p = [diff(s, mine) for s in states[j]]
                run.check(None in p, 'cone', lambda: 'after %s: cone %d against the same operations on it alone: %s' % (what, j, p))
                yield j, p.index(None)

        def untouched(what, files):
            with core.seams_off(w):
                for j in numbers:
                    if j not in twin:
                        run.check(dump(f_of(A, j)) == files[j], 'others', lambda: '%s changed cone %d, which is not in the set' % (what, j))

        kept = []
        for k, op in run.steps():
            kind, at[0] = op['op'], k
            out = None
            if it is None and kind != 'open':
                last = last or {'numbers': None, 'in_h_units': False, 'require_consistent': False}
                out = w.op('open again', lambda: L.LCIterator(spec['sim'], 'set A', **last))
                if not out.ok:
                    run.points[k] = []
                    continue
                it = out.value
                run.check(sorted(int(x) for x in it.lc_handlers) == numbers or last['numbers'] is not None, 'covers', lambda: 'the set holds cones %s' % list(it.lc_handlers))
                pair(last['in_h_units'])
                out = None
            with core.seams_off(w):
                files = {j: dump(f_of(A, j)) for j in numbers}
            if kind == 'open':
                if op['session']:
                    run.expect_ok(g.s.start(), 'session-start', 'a new session')
                    L = w.mod('simim.lightcone')
                it, last = None, None
                twin.clear()
                r = np.random.RandomState(op['pick'])
                some = [int(x) for x in r.permutation(numbers)[:r.randint(1, len(numbers) + 1)]]
                ask = {'all': None, 'some': some, 'one': some[:1], 'missing': some + [77], 'twice': some + some[:1]}[op['which']]
                chosen = numbers if ask is None else sorted(set(ask))
                given = None if ask is None else {'list': list, 'tuple': tuple, 'array': np.array}[op['form']](ask)
                out = run.call('open', lambda: L.LCIterator(spec['sim'], 'set A', numbers=given, in_h_units=op['in_h'],
                                                            require_consistent=op['strict']), op)
                if not out.ok:
                    if not out.fired:
                        run.check(op['which'] == 'missing' or (op['strict'] and mixed(chosen)), 'fails', lambda: 'opening the cones %s (%s) fails: %r\n%s' % (
                            ask, cfg['stray'], out.exc, getattr(w, 'last_tb', '')))
                    run.probe('set refused')
                else:
                    run.check(op['which'] != 'missing', 'covers', 'a set with a cone that does not exist was opened')
                    run.check(not (op['strict'] and mixed(chosen)), 'consistent', lambda: 'cones of different geometry or cosmology were accepted: %s' % cfg['vary'])
                    it = out.value
                    run.check(sorted(int(x) for x in it.lc_handlers) == chosen, 'covers', lambda: 'the set holds cones %s, expected %s' % (
                        list(it.lc_handlers), chosen))
                    if op['which'] != 'twice':
                        run.check(it.n_lcs == len(chosen) and sorted(int(x) for x in it.lc_numbers) == chosen, 'covers',
                                  lambda: 'the set has %d cones, numbers %s, expected %s' % (it.n_lcs, it.lc_numbers, chosen))
                    pair(op['in_h'])
                    last = {'numbers': given, 'in_h_units': op['in_h'], 'require_consistent': op['strict']}
                    if not mixed(chosen):
                        for a in ('cosmo', 'minimum_redshift', 'maximum_redshift') + (('open_angle', 'aspect_ratio') if cfg['shape'] != 'sphere' else ()):
                            if chosen:
                                run.check(getattr(it, a) == getattr(twin[chosen[0]], a), 'attributes', 'the set has another %s' % a)
                    list(match_all('opening', {j: [probe(twin[j], f_of(B, j))] for j in twin}))
                run.probe('sets opened')
            elif kind == 'single':
                run.points[k] = []
                js = sorted(twin)
                j = js[op['cone'] % len(js)]
                ra = w.op('single', lambda: action(op, it.lc_handlers[str(j)], op['what'], None))
                rb = w.op('single', lambda: action(op, twin[j], op['what'], None))
                run.check(ra.ok == rb.ok, 'single', lambda: '%s of one cone: %s, of its twin: %s' % (op['what'], ra.brief(), rb.brief()))
                list(match_all('an operation on cone %d' % j, {q: [probe(twin[q], f_of(B, q))] for q in twin}))
            elif kind == 'volume':
                run.points[k] = []
                js = sorted(twin)
                num = {None: None, 'in': js[op['pick'] % len(js)], 'out': 78}[op['number']]
                kw = {} if op['zmax'] is None else {'redshift_max': op['zmax']}
                ra = w.op('volume', lambda: it.volume(number=num, in_h_units=op['in_h'], **kw))
                if num == 78 or (num is None and mixed(js)):
                    run.check(not ra.ok, 'volume', lambda: 'the volume of an unspecified or absent cone is %r' % ra.value)
                else:
                    # which cone's own choice of units counts is open when none is asked for
                    rbs = [w.op('volume', lambda: twin[j].volume(in_h_units=op['in_h'], **kw)) for j in (js if num is None else [num])]
                    run.check(any(ra.ok == rb.ok and (not ra.ok or same(ra.value, rb.value)) for rb in rbs), 'volume', lambda: 'the volume is %s, of the cones alone %s' % (
                        ra.brief() if not ra.ok else ra.value, [rb.brief() if not rb.ok else rb.value for rb in rbs]))
            else:
                before = {j: probe(twin[j], f_of(B, j)) for j in twin}
                fail = op.get('fail')
                out = run.call(kind, lambda: action(op, it, kind, fail), op)
                if out.ok:
                    vals = {}
                    for j in twin:
                        rb = w.op(kind, lambda: action(op, twin[j], kind, None))
                        run.check(rb.ok, 'alone', lambda: '%s of the set succeeds, on cone %d alone it fails: %r' % (kind, j, rb.exc))
                        vals[j] = rb.value
                    run.check(isinstance(out.value, dict) and sorted(int(x) for x in out.value) == sorted(twin), 'numbers',
                              lambda: '%s gives results under %s for cones %s' % (kind, list(out.value), sorted(twin)))
                    for x in out.value:
                        run.check(same(out.value[x], vals[int(x)]), 'results', lambda: '%s: cone %s gives %r, alone %r' % (kind, x, out.value[x], vals[int(x)]))
                    list(match_all(kind, {j: [probe(twin[j], f_of(B, j))] for j in twin}))
                    # what earlier operations returned belongs to the caller
                    for q, old, was in kept:
                        run.check(list(old) == list(was) and all(same(old[x], was[x]) for x in was), 'results',
                                  lambda: '%s changed what %s had returned: %r, was %r' % (kind, q, old, was))
                    kept[:] = kept[-5:] + [(kind, out.value, copy.deepcopy(dict(out.value)))]
                    run.probe('%s done' % kind)
                    if kind == 'make' and len(twin) > 1 and [x for x in op['p']['names'] if x in before[min(twin)]['lists']['any']]:
                        run.probe('made again')
                else:
                    # the cones done before, the one it stopped at, and those not reached
                    odd, stop, bad = [], None, False
                    for j in [int(x) for x in it.lc_handlers]:
                        mine = probe(it.lc_handlers[str(j)], f_of(A, j))
                        same_as_before = diff(before[j], mine) is None
                        if stop is not None:
                            run.check(same_as_before, 'goes-on', lambda: '%s stopped at cone %d (%r), cone %d after it was changed: %s' % (
                                kind, stop, out.exc, j, diff(before[j], mine)))
                            continue
                        rb = w.op(kind, lambda: action(op, twin[j], kind, None))
                        p = diff(probe(twin[j], f_of(B, j)), mine)
                        if p is not None or not rb.ok:
                            stop, bad = j, not rb.ok
                        if p is not None and not same_as_before:
                            odd.append((j, p))
                            with core.seams_off(w):
                                now = dump(f_of(A, j))
                                done = dump(f_of(B, j))
                            several = kind == 'write' and op['overwrite'] or kind == 'make' and op['disk'] and (
                                op['odisk'] or len(op['p']['names']) > 1)          # replaced, or several, in steps (P10)
                            run.check(several or now in (files[j], done), 'file', lambda: 'after %s stopped the file of cone %d is neither as before nor as after' % (kind, j))
                    if fail is not None and not out.fired and isinstance(out.exc, hnd.UserError):
                        run.check(ran[0] == fail + 1, 'goes-on', lambda: 'the function of %s raised when called for the %d. time and was called %d times' % (kind, fail + 1, ran[0]))
                    run.check(len(odd) <= (1 if out.fired else 0), 'cone', lambda: 'after %s stopped (%s): %s' % (kind, out.exc, odd))
                    if not out.fired and fail is None:
                        # the cone it stopped at must refuse by itself
                        run.check(bad, 'fails', lambda: '%s of the set fails at cone %s: %r, on the cone alone it does not\n%s' % (kind, stop, out.exc, getattr(w, 'last_tb', '')))
                    run.probe('%s stopped' % kind)
                    if odd or any(diff(before[j], probe(h, f_of(p, j))) for j in twin for h, p in ((it.lc_handlers[str(j)], A), (twin[j], B))):
                        it = None               # opened again, from the files, before it is used further
            if twin:
                untouched(kind, files)
            run.state(kind, None if out is None else out.status, sorted(twin), op.get('which'), sorted(cfg['vary'].values()), sorted(cfg['stray'])[:1],
                      None if out is None or not out.fired else out.fired[0]['point'])
            for f in out.fired if out is not None else ():
                run.probe('%s at %s' % (f['kind'], f['point']))


PROP = P22()
