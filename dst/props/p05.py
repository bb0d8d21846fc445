"""P05: downloads converge to complete, correct files after any transfer faults."""
import os

from .. import core, sites
from .common import ready, name, fsenc

KINDS = ('connerr', 'timeout', 'http500', 'http404', 'errpage', 'reset', 'truncate', 'interrupt', 'kill', 'eio',
         'enospc')


class P05:
    def generate(self, rng, tier, i):
        site = sites.gen_site(rng)
        ops = []
        for k in range(rng.randint(1, 4)):
            sub = sorted(rng.sample(site['snaps'], rng.randint(1, len(site['snaps']))))
            o = {'op': 'download', 'snaps': sub, 'redownload': rng.random() < 0.2, 'new': rng.random() < 0.5,
                 'meta': rng.random() < 0.6}
            if site['sim'] == 'UniverseMachine-uchuu' and rng.random() < 0.2:
                o['datafiles'] = [1, 2, 3, 5]
            if rng.random() < 0.8:
                o['want'] = {'kinds': KINDS, 'n': rng.choice([1, 1, 2, 3])}
                if rng.random() < 0.8:
                    o['want']['points'] = ('net.', 'file.open-w', 'file.write', 'file.close', 'os.', 'shell.')
            ops.append(o)
        cfg = {'site': site}
        if rng.random() < 0.5:
            cfg['root'] = 'r/' + fsenc(name(rng))
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w = run.w
        site = sites.Site(run.cfg['site'])
        srv = site.publish(w)
        s = ready(run, run.cfg.get('root', 'data'))
        path = os.path.join(s.root, 'simim_resources', 'simulations', site.sim)
        raw = os.path.join(path, 'raw')
        cat = None

        def state(snaps):
            """{file: (inode, mtime)} of the complete files of the snapshots."""
            out = {}
            for i in snaps:
                for f, b in site.files(i).items():
                    p = os.path.join(raw, f)
                    if os.path.exists(p):
                        with core._real['open'](p, 'rb') as g:
                            if g.read() == b:
                                st = os.stat(p)
                                out[f] = (st.st_ino, st.st_mtime_ns)
            return out

        def fetched(n0):
            return {u.split('?')[0].rstrip('/').rsplit('/', 1)[-1] for u in srv.requests[n0:]}

        def snapshot_ok(i, why, datafiles=None):
            want = site.files(i) if datafiles else site.needed(i)
            for f, b in want.items():
                p = os.path.join(raw, f)
                run.check(os.path.exists(p), 'not-downloaded', lambda: '%s: %s is not there' % (why, f))
                with core._real['open'](p, 'rb') as g:
                    d = g.read()
                run.check(d == b, 'wrong-file', lambda: '%s: %s has %d bytes, the published file %d%s' % (
                    why, f, len(d), len(b), '' if len(d) != len(b) else ', contents differ'))

        def plain(snaps, why, redownload=False, datafiles=None):
            """One ordinary download without faults."""
            nonlocal cat
            if cat is None or cat[0] != snaps:
                cat = (snaps, site.open(run, snaps))
            before, n0 = state(snaps), len(srv.requests)
            kw = {'redownload': redownload}
            if datafiles:
                kw['datafiles'] = datafiles
            out = w.op('download', lambda: cat[1].download(**kw))
            run.expect_ok(out, 'download-fails', 'an ordinary download (%s)' % why)
            for i in snaps:
                snapshot_ok(i, why, datafiles)
            got = fetched(n0)
            if redownload:
                for i in snaps if site.kind != 'test' else ():
                    for f in (site.files(i) if datafiles else site.needed(i)):
                        run.check(os.path.basename(f) in got, 'not-refetched', lambda: '%s was not fetched again though a re-download was asked for' % f)
            else:
                after = state(snaps)
                for f, st in before.items():
                    run.check(after.get(f) == st, 'rewritten', lambda: '%s was complete and has been rewritten' % f)
                    run.check(os.path.basename(f) not in got, 'refetched', lambda: '%s was complete and has been fetched again' % f)
            run.state(sorted(state(site.cfg['snaps'])))

        for i, op in run.steps():
            snaps = op['snaps']
            if op['new'] or cat is None or cat[0] != snaps:
                out = site.open(run, snaps, op=None)
                cat = (snaps, out)
            c = cat[1]
            if op['meta'] and site.kind == 'ill':
                run.expect_ok(w.op('meta', c.download_meta), 'metadata-fails', 'fetching metadata without faults')
            kw = {'redownload': op['redownload']}
            if op.get('datafiles'):
                kw['datafiles'] = op['datafiles']
            before, n0 = state(snaps), len(srv.requests)
            out = run.call('download', lambda: c.download(**kw), op)
            for f in out.fired:
                run.probe('fault in transfer: %s at %s' % (f['kind'], f['point']))
            run.check(out.ok or out.fired, 'download-fails', lambda: 'a download without faults: %s %r\n%s' % (out.brief(), out.exc, getattr(w, 'last_tb', '')))
            if out.ok and not out.fired:
                for j in snaps:
                    snapshot_ok(j, 'after a download', op.get('datafiles'))
                if op['redownload']:
                    for j in snaps if site.kind != 'test' else ():
                        for f in site.needed(j):
                            run.check(os.path.basename(f) in fetched(n0), 'not-refetched', lambda: '%s was not fetched again though a re-download was asked for' % f)
            if not op['redownload']:
                after, got = state(snaps), fetched(n0)
                if out.status == 'killed':       # the restored machine has new inodes
                    after = {f: before[f] for f in before if f in after}
                bad = [f for f in before if after.get(f) != before[f] or os.path.basename(f) in got]
                # an unreadable file may be fetched again; nothing else may
                if not any(x['kind'] in ('eio',) for x in out.fired):
                    run.check(not bad, 'rewritten', lambda: 'complete files fetched or rewritten by a download: %s' % bad)
            if out.status == 'killed' or (not out.ok and op['new']):
                s.start()
                cat = None
            plain(snaps, 'after %s (%s)' % ('; '.join('%s at %s' % (x['kind'], x['point']) for x in out.fired) or 'no fault', out.brief()),
                  datafiles=op.get('datafiles'))
        s.start()
        cat = None
        plain(site.cfg['snaps'], 'at the end')
        run.check(not w.escapes, 'escape', lambda: 'touched files outside the data directory: %s' % w.escapes)


PROP = P05()
