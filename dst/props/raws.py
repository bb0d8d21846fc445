"""Raw catalogues in place and ready to format: synthetic ones and those of the simulated publishers."""
import os

import numpy as np

from .. import core, sites, synth
from . import fmt
from .common import ready, name, fsenc


def gen_raw(rng, weird=0.6, site=0.4):
    cfg = {'root': 'r/' + fsenc(name(rng, weird)) if rng.random() < 0.7 else 'data'}
    if rng.random() < site:
        cfg['site'] = sites.gen_site(rng)
    else:
        cfg['spec'] = synth.gen_spec(rng)
    if rng.random() < 0.5:
        cfg['simdir'] = 'sd/' + fsenc(name(rng, weird))
    if rng.random() < 0.2:
        # the metadata was fetched when only some snapshots were wanted
        cfg['meta_snaps'] = pick(rng, snaps_of(cfg))
    return cfg


class Raw:
    def __init__(self, run):
        self.run, self.w, cfg = run, run.w, run.cfg
        self.spec = cfg.get('spec')
        self.site = sites.Site(cfg['site']) if 'site' in cfg else None
        self.s = ready(run, cfg.get('root', 'data'))
        self.sim = self.spec['sim'] if self.spec else self.site.sim
        self.path = os.path.join(self.s.root, 'simim_resources', 'simulations', self.sim)
        if cfg.get('simdir'):
            self.path = os.path.join(self.w.base, cfg['simdir'])
        os.makedirs(self.path, exist_ok=True)
        if cfg.get('simdir'):
            out = self.w.op('record', lambda: self.w.mod('simim._paths')._SimIMPaths()._newsimpath(self.sim, self.path, checkoverwrite=False))
            run.expect_ok(out, 'setup', 'recording the simulation path')
        self.raw = os.path.join(self.path, 'raw')
        if self.spec:
            self.snaps = synth.indices(self.spec)
            synth.write_meta(self.spec, self.path)
            self.covered = set(cfg.get('meta_snaps', self.snaps))
            if len(self.covered) < len(self.snaps):
                rows = synth.snap_meta(self.spec)
                with core.seams_off(self.w):
                    np.save(os.path.join(self.path, 'meta_snaps.npy'), rows[np.isin(rows['index'], sorted(self.covered))])
            synth.write_raw(self.spec, self.path)
        else:
            self.snaps = list(self.site.cfg['snaps'])
            self.site.publish(self.w)
            cat = self.catalog(self.snaps)
            self.covered = set(cfg.get('meta_snaps', self.snaps))
            some = self.catalog(sorted(self.covered))
            run.expect_ok(self.w.op('meta', some.download_meta), 'setup', 'fetching the metadata')
            cat = self.catalog(self.snaps)
            run.expect_ok(self.w.op('download', cat.download), 'setup', 'downloading')
        self.ref = {i: {f: core.file_digest(os.path.join(self.raw, f)) for f in self._names(i)} for i in self.snaps}
        with core.seams_off(self.w):
            self._bytes = {}
            for i in self.snaps:
                for f in self.ref[i]:
                    with core._real['open'](os.path.join(self.raw, f), 'rb') as g:
                        self._bytes[f] = g.read()

    def cover(self):
        """Fetch the metadata again, for all snapshots."""
        if self.spec:
            with core.seams_off(self.w):
                synth.write_meta(self.spec, self.path)
        else:
            cat = self.catalog(self.snaps)
            self.run.expect_ok(self.w.op('meta', lambda: cat.download_meta(redownload=True)), 'setup', 'fetching the metadata again')
        self.covered = set(self.snaps)

    def _names(self, i):
        if self.spec:
            return [f for f in synth.raw_part_files(self.spec, i) if os.path.exists(os.path.join(self.raw, f))]
        return [f for f in self.site.files(i) if os.path.exists(os.path.join(self.raw, f))]

    def restore(self, snaps=None):
        """Put the raw files back (the user fetched them again)."""
        with core.seams_off(self.w):
            for i in self.snaps if snaps is None else snaps:
                for f in self.ref[i]:
                    p = os.path.join(self.raw, f)
                    if not os.path.exists(p):
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with core._real['open'](p, 'wb') as g:
                            g.write(self._bytes[f])

    def complete(self, i):
        """Are all raw files of the snapshot there, unchanged?"""
        for f in self.ref[i]:
            p = os.path.join(self.raw, f)
            if not os.path.exists(p):
                return False
            with core._real['open'](p, 'rb') as g:
                if g.read() != self._bytes[f]:
                    return False
        return True

    def catalog(self, snaps):
        if self.site:
            return self.site.open(self.run, snaps)
        C = synth.catalogs_class(self.w.mod('simim.siminterface._rawsiminterface').SimCatalogs, self.spec)
        out = self.w.op('catalog', lambda: C(self.sim, snaps=snaps if snaps == 'all' else list(snaps)))
        return self.run.expect_ok(out, 'catalogue-fails', 'opening the raw catalogue')

    @property
    def file(self):
        return os.path.join(self.path, 'data.hdf5')

    def groups(self):
        with core.seams_off(self.w):
            if not os.path.exists(self.file):
                return {}, {}
            try:
                return synth.read_groups(self.file)
            except (OSError, KeyError, RuntimeError, ValueError) as e:
                return {}, {'error': repr(e)}

    def problem(self, i, got, basic=None):
        if got is None:
            return 'not a snapshot'
        if self.spec:
            return synth.snap_problem(self.spec, i, got, basic)
        if basic is None:
            basic = set(got['data']) == set(self.site.expected(i, True))
        return self.site.problem(i, got, basic)


def pick(rng, snaps):
    return sorted(rng.sample(snaps, rng.randint(1, len(snaps))))


def snaps_of(cfg):
    return synth.indices(cfg['spec']) if 'spec' in cfg else list(cfg['site']['snaps'])


FAULTS = fmt.FAULTS
