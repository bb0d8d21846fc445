"""Formatting histories: the workload shared by P03, P04, P07 and P08."""
import os

import numpy as np

from .. import core, synth
from .common import ready, name, fsenc

FAULTS = ('interrupt', 'eio', 'enospc', 'kill', 'memerr')


def gen_format(rng, spec, clean=False):
    idx = synth.indices(spec)
    snaps = 'all' if rng.random() < 0.35 else sorted(rng.sample(idx, rng.randint(1, len(idx))))
    if snaps != 'all' and rng.random() < 0.3:
        rng.shuffle(snaps)
    return {'op': 'format', 'snaps': snaps, 'remake': rng.random() < 0.15, 'overwrite': rng.random() < 0.3,
            'basic': rng.random() < 0.3, 'clean': clean and rng.random() < 0.75,
            'ask': rng.random() < 0.5, 'new': rng.random() < 0.4}


class FormatModel:
    """Executes formatting operations and compares the catalogue with what it must hold."""

    def __init__(self, run, spec, sess, path):
        self.run, self.w, self.spec, self.s, self.path = run, run.w, spec, sess, path
        self.have = {}              # snapshot -> basic?
        self.removal_problem = None
        self.cat = None

    # -- reading -----------------------------------------------------------
    @property
    def file(self):
        return os.path.join(self.path, 'data.hdf5')

    def read(self, cls='unreadable'):
        with core.seams_off(self.w):
            if not os.path.exists(self.file):
                return {}, {}
            try:
                return synth.read_groups(self.file)
            except (OSError, KeyError, RuntimeError, ValueError) as e:
                self.run.fail(cls, 'the formatted catalogue cannot be read: %r' % e)

    def raw_complete(self, i):
        ref = self.ref_raw[i]
        for f, h in ref.items():
            p = os.path.join(self.path, 'raw', f)
            if not os.path.exists(p) or core.file_digest(p) != h:
                return False
        return True

    def note_raw(self):
        self.ref_raw = {}
        for i in synth.indices(self.spec):
            self.ref_raw[i] = {f: core.file_digest(os.path.join(self.path, 'raw', f))
                               for f in synth.raw_part_files(self.spec, i)}

    def dump(self):
        with core.seams_off(self.w):
            if not os.path.exists(self.file):
                return {}
            try:
                return core.h5_dump(self.file)
            except Exception:
                return {}

    # -- operations ----------------------------------------------------------
    def catalog(self, snaps, fresh=True):
        if fresh or self.cat is None or self.cat[0] != snaps:
            C = synth.catalogs_class(self.w.mod('simim.siminterface._rawsiminterface').SimCatalogs, self.spec)
            out = self.w.op('catalog', lambda: C(self.spec['sim'], snaps=snaps if snaps == 'all' else list(snaps)))
            self.run.expect_ok(out, 'catalogue-fails', 'opening the raw catalogue')
            self.cat = (snaps, out.value)
        return self.cat[1]

    def format(self, op, faultable=True, retry=False):
        """One formatting call; returns (outcome, requested)."""
        run, w, spec = self.run, self.w, self.spec
        cat = self.catalog(op['snaps'], op.get('new', True))
        req = synth.indices(spec) if op['snaps'] == 'all' else sorted(op['snaps'])
        kw = {'remake': op['remake'], 'overwrite': op['overwrite'], 'basic': op['basic']}
        answers = []
        if op['clean']:
            kw['realtime_clean_raw'] = True
            kw['realtime_clean_raw_check'] = op['ask']
            answers = ['y'] if op['ask'] else []
        groups, _ = self.read()
        before = self.dump()
        rawok = {i: self.raw_complete(i) for i in synth.indices(spec)}
        have0 = dict(self.have)
        case1 = not groups or op['remake']
        if case1:
            todo = list(req)
            basic = op['basic']
        else:
            basic = all(set(g['data']) == set(synth.expected_fields(spec, True)) for g in groups.values() if g)
            todo = [i for i in req if i not in groups] + ([i for i in req if i in groups] if op['overwrite'] else [])
        call = (lambda l, f: run.call(l, f, op, answers=answers)) if faultable else \
            (lambda l, f: w.op(l, f, answers=answers))
        out = call('format', lambda: cat.format(**kw))
        legit = (not out.fired) and any(not rawok[i] for i in todo)     # raw data deleted earlier
        self.observe(op, out, req, todo, basic, case1, have0, before, rawok, legit)
        return out

    def observe(self, op, out, req, todo, basic, case1, have0, before, rawok, legit):
        run, spec = self.run, self.spec
        what = 'format(%s)' % ', '.join('%s=%r' % (k, op[k]) for k in ('snaps', 'remake', 'overwrite', 'basic', 'clean'))
        groups, att = self.read()
        if out.ok:
            want = {i: basic for i in todo}
            if not case1:
                want = {**have0, **want}
            run.check(set(groups) == set(want), 'wrong-snapshots',
                      lambda: 'after %s the catalogue holds snapshots %s, expected %s' % (what, sorted(groups, key=str), sorted(want)))
            for i in want:
                p = synth.snap_problem(spec, i, groups[i], want[i])
                run.check(p is None, 'wrong-snapshot', lambda: 'after %s snapshot %d: %s' % (what, i, p))
            self.have = want
        else:
            run.check(bool(out.fired) or legit, 'format-failed',
                      lambda: '%s failed without a fault: %s %r\n%s' % (what, out.brief(), out.exc, getattr(run.w, 'last_tb', '')))
            for i in groups:
                p = synth.snap_problem(spec, i, groups[i])
                run.check(p is None, 'partial-snapshot',
                          lambda: 'after %s stopped (%s, %r, faults %s) snapshot %s passes for complete but: %s' % (
                              what, out.brief(), out.exc, out.fired, i, p))
            self.have = {i: set(g['data']) == set(synth.expected_fields(spec, True)) for i, g in groups.items()}
        # snapshots the call was not asked to write
        keep = [i for i in have0 if i not in todo and not case1]
        after = self.dump()
        for i in keep:
            pre = 'Snapshot %d/' % i
            a = {k: v for k, v in before.items() if k.startswith(pre)}
            b = {k: v for k, v in after.items() if k.startswith(pre)}
            run.check(a == b, 'other-snapshot-changed', lambda: 'after %s snapshot %d, not among those to write, changed' % (what, i))
        # the list readers go by
        if groups:
            meta = synth.snap_meta(spec)
            idx = sorted(i for i in groups)
            lst = att.get('snapshots')
            run.check(lst is not None, 'no-snapshot-list', 'after %s the catalogue has no list of snapshots' % what)
            listed = sorted(int(x) for x in lst['index'])
            extra = [i for i in listed if i not in groups]
            run.check(not extra, 'listed-but-absent',
                      lambda: 'after %s (%s) snapshots %s are listed for readers but not in the catalogue' % (what, out.brief(), extra))
            if out.ok:
                mp = synth.meta_problem(np.atleast_1d(lst), meta[np.isin(meta['index'], idx)])
                run.check(mp is None, 'wrong-metadata', lambda: 'after %s: %s' % (what, mp))
            if out.ok or listed:
                self.check_attrs(att, what)
        run.state(sorted(self.have.items()), [self.raw_complete(i) for i in synth.indices(spec)], out.brief())

    def check_attrs(self, att, what):
        for k, v in synth.metadata(self.spec).items():
            if k == 'number_snaps':
                continue
            self.run.check(k in att and att[k] == v, 'wrong-metadata',
                           lambda: 'after %s attribute %s is %r, expected %r' % (what, k, att.get(k), v))

    def check_readers(self, rng, listed_only=False):
        """A handler opened by the current session finds every snapshot."""
        run, w, spec = self.run, self.w, self.spec
        groups, att = self.read()
        if not groups:
            return
        si = w.mod('simim.siminterface')

        def look():
            sh = si.SimHandler(spec['sim'])
            res = {}
            for i in [int(x) for x in sh.snap_meta['index']]:
                s = sh.get_snap(i)
                props = list(s.extract_keys())
                vals = s.return_property('mass', in_h_units=True)
                res[i] = (props, vals, float(s.redshift))
            return sh, res
        if len(np.atleast_1d(att['snapshots'])) == 0:
            return
        out = w.op('handlers', look)
        sh, res = run.expect_ok(out, 'reader-fails', 'opening the formatted catalogue')
        if not listed_only:
            run.check(sorted(res) == sorted(self.have), 'reader-snapshots',
                      lambda: 'readers find snapshots %s, the catalogue holds %s' % (sorted(res), sorted(self.have)))
        for i, (props, vals, z) in res.items():
            run.check(set(props) == set(groups[i]['data']), 'reader-properties', lambda: 'snapshot %d: readers see %s' % (i, props))
            run.check(np.array_equal(vals, groups[i]['data']['mass'].ravel()), 'reader-values', lambda: 'snapshot %d masses differ' % i)
            run.check(abs(z - spec['zs'][i - spec['first']]) < 1e-5, 'reader-redshift', lambda: 'snapshot %d has redshift %r' % (i, z))
        meta = synth.snap_meta(spec)
        for i in res:
            row = meta[meta['index'] == i][0]
            lo, hi = float(row['redshift_min']), float(row['redshift_max'])
            zz = [lo + (hi - lo) * f for f in (0.001, rng.random() * 0.98 + 0.01, 0.999)]
            if i == max(res, key=lambda j: spec['zs'][j - spec['first']]):
                zz.append(np.float32(row['redshift_max']))
            for z in zz:
                out = w.op('z_to_snap', lambda: sh.z_to_snap(z))
                got = run.expect_ok(out, 'redshift-lookup', 'z_to_snap(%r), within the interval of snapshot %d' % (z, i))
                run.check(int(got) == i, 'redshift-lookup', lambda: 'z=%r resolves to snapshot %s, its interval belongs to %d' % (z, got, i))


def prepare(run, rel=None):
    """A data directory with the raw data of the plan's simulation in place."""
    spec = run.cfg['spec']
    root = rel or run.cfg.get('root', 'data')
    s = ready(run, root)
    path = os.path.join(s.root, 'simim_resources', 'simulations', spec['sim'])
    if run.cfg.get('simdir'):
        path = os.path.join(run.w.base, run.cfg['simdir'])
    os.makedirs(path, exist_ok=True)
    synth.write_meta(spec, path)
    synth.write_raw(spec, path)
    if run.cfg.get('simdir'):
        mod = run.w.mod('simim._paths')
        out = run.w.op('record', lambda: mod._SimIMPaths()._newsimpath(spec['sim'], path, checkoverwrite=False))
        run.expect_ok(out, 'record-failed', 'recording the simulation path')
    m = FormatModel(run, spec, s, path)
    m.note_raw()
    return s, m
