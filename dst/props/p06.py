"""P06: catalogue listings and metadata are cached only when whole and always agree."""
import os

import numpy as np

from .. import core, sites, synth
from .common import ready

KINDS = ('connerr', 'timeout', 'http500', 'http404', 'errpage', 'shortlist', 'reset', 'truncate', 'interrupt', 'kill',
         'eio', 'enospc')


class P06:
    def generate(self, rng, tier, i):
        site = sites.gen_site(rng, kinds=('um', 'uchuu', 'ill', 'um', 'uchuu', 'ill', 'test'))
        ops = []
        for k in range(rng.randint(2, 6)):
            r = rng.random()
            if r < 0.45:
                o = {'op': 'open'}
            elif r < 0.9:
                o = {'op': 'meta', 're': rng.random() < 0.4}
            else:
                o = {'op': 'session'}
            n = rng.choice([1, 2, 5, 12])
            o['snaps'] = 'all' if rng.random() < 0.04 else n
            o['sseed'] = rng.getrandbits(20)
            if o['op'] != 'session' and rng.random() < 0.7:
                o['want'] = {'kinds': KINDS, 'n': rng.choice([1, 1, 2])}
                if rng.random() < 0.6:
                    o['want']['points'] = ('net.', 'file.open-w', 'file.write', 'file.close', 'os.')
            ops.append(o)
        return {'config': {'site': site}, 'ops': ops}

    def execute(self, run):
        import random
        w = run.w
        site = sites.Site(run.cfg['site'])
        srv = site.publish(w)
        s = ready(run)
        path = os.path.join(s.root, 'simim_resources', 'simulations', site.sim)
        cat = None
        recorded = {None}           # snapshot sets the stored metadata may describe

        def choose(op):
            if op['snaps'] == 'all':
                return 'all'
            r = random.Random(op['sseed'])
            base = [i for i in site.cfg['snaps'] if r.random() < 0.7]
            return sorted(set(base + r.sample(site.all, min(op['snaps'], len(site.all)))))

        def inspect(why):
            """What a fault-free session sees."""
            nonlocal recorded
            probe = [i for i in site.cfg['snaps']]
            c = site.open(run, probe, cls='session-broken')
            allowed = recorded
            if c.snap_meta is None and c.metadata is None:
                run.check(None in allowed, 'metadata-lost', lambda: 'metadata recorded earlier is gone (%s)' % why)
                recorded = {None}
            else:
                run.check(c.snap_meta is not None and c.metadata is not None, 'metadata-partial', 'only part of the metadata is there (%s)' % why)
                idx = tuple(int(x) for x in c.snap_meta['index'])
                run.check(idx in allowed, 'wrong-metadata', lambda: 'metadata describes snapshots %s, expected %s (%s)' % (
                    idx[:20], [a if a is None else a[:20] for a in allowed], why))
                want = site.snap_meta(idx)
                p = synth.meta_problem(c.snap_meta, want)
                run.check(p is None, 'wrong-metadata', lambda: '%s (%s)' % (p, why))
                m = c.snap_meta
                for lo, hi in (('redshift_min', 'redshift_max'), ('distance_min', 'distance_max'),
                               ('transverse_distance_min', 'transverse_distance_max')):
                    run.check(np.all(np.abs(m[lo][:-1] - m[hi][1:]) <= 1e-6 * (1 + np.abs(m[lo][:-1]))) and np.all(m[hi] >= m[lo]),
                              'gaps', lambda: '%s and %s leave gaps or overlap (%s)' % (lo, hi, why))
                run.check(np.all(np.abs(m['time_end'][:-1] - m['time_start'][1:]) <= 1e-5), 'gaps', 'times leave gaps')
                for k, v in site.metadata().items():
                    run.check(c.metadata.get(k) == v, 'wrong-metadata', lambda: '%s is %r, published %r (%s)' % (k, c.metadata.get(k), v, why))
                recorded = {idx}
            run.state(sorted(map(str, recorded)), os.path.exists(os.path.join(path, 'web_paths.npy')))
            return c

        def file_check(c, why):
            """Which published file a snapshot number stands for."""
            if site.kind == 'ill':
                return
            import shutil
            with core.seams_off(w):
                raw = os.path.join(path, 'raw')
                if os.path.exists(raw):
                    core._real['rmtree'](raw)
            n0 = len(srv.requests)
            out = w.op('download', lambda: c.download())
            run.expect_ok(out, 'download-fails', 'a download after %s' % why)
            for i in site.cfg['snaps']:
                for f in site.needed(i):
                    run.check(os.path.exists(os.path.join(raw, f)), 'wrong-file', lambda: 'snapshot %d at redshift %.4f should be %s; downloaded %s (%s)' % (
                        i, site.z[i], f, sorted(os.listdir(raw)), why))

        for i, op in run.steps():
            if op['op'] == 'session':
                run.points[i] = []
                s.start()
                cat = None
                inspect('in a later session')
                continue
            snaps = choose(op)
            full = tuple(site.all) if snaps == 'all' else tuple(snaps)
            if op['op'] == 'open':
                out = site.open(run, snaps, op=op)
                cat = (snaps, out.value) if out.ok else None
                what = 'opening the catalogue'
            else:
                if cat is None or cat[0] != snaps:
                    cat = (snaps, site.open(run, snaps))
                out = run.call('meta', lambda: cat[1].download_meta(redownload=op['re']), op)
                what = 'fetching metadata'
                if out.ok:
                    if recorded == {None} or op['re']:
                        recorded = {full}
                elif None in recorded or op['re']:
                    recorded = recorded | {full}
            for f in out.fired:
                run.probe('fault: %s at %s' % (f['kind'], f['point']))
            run.check(out.ok or out.fired, 'fails', lambda: '%s without faults: %s %r\n%s' % (what, out.brief(), out.exc, getattr(w, 'last_tb', '')))
            if out.status == 'killed' or not out.ok and op['sseed'] % 2:
                s.start()
                cat = None
            if not out.ok:
                c = inspect('after %s was stopped by %s' % (what, '; '.join('%s at %s' % (x['kind'], x['point']) for x in out.fired)))
                if None in recorded:
                    o2 = w.op('meta', lambda: c.download_meta())
                    run.expect_ok(o2, 'retry-fails', 'fetching metadata again')
                    recorded = {tuple(site.cfg['snaps'])}
                    inspect('after fetching metadata again')
        s.start()
        c = inspect('at the end')
        if recorded == {None}:
            run.expect_ok(w.op('meta', lambda: c.download_meta()), 'retry-fails', 'fetching metadata without faults')
            recorded = {tuple(site.cfg['snaps'])}
            c = inspect('at the end')
        file_check(c, 'the history')
        s.start()
        file_check(inspect('once more'), 'a restart')


PROP = P06()
