"""P03: raw clean-up deletes exactly that simulation's raw files and nothing else."""
import os
import random

from .. import core
from . import raws

FAULTS = ('interrupt', 'eio', 'kill')


def put(path, text='decoy'):
    try:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.lexists(path):
            with core._real['open'](path, 'w') as f:
                f.write(text)
    except OSError:
        pass


class P03:
    def generate(self, rng, tier, i):
        cfg = raws.gen_raw(rng, weird=rng.choice([0.2, 0.9, 0.9]))
        cfg.pop('meta_snaps', None)
        cfg['link'] = rng.random() < 0.3
        snaps = raws.snaps_of(cfg)
        ops = []
        for k in range(rng.randint(1, 4)):
            if rng.random() < 0.45:
                o = {'op': 'clean', 'snaps': raws.pick(rng, snaps)}
            else:
                o = {'op': 'format', 'snaps': raws.pick(rng, snaps), 'clean': rng.random() < 0.75,
                     'overwrite': rng.random() < 0.4, 'remake': rng.random() < 0.2, 'basic': rng.random() < 0.7,
                     'ask': rng.random() < 0.5}
            if rng.random() < 0.6:
                o['want'] = {'kinds': FAULTS, 'points': ('os.', 'file.', 'shell.') if rng.random() < 0.8 else None}
            ops.append(o)
        return {'config': cfg, 'ops': ops}

    def execute(self, run):
        w = run.w
        r = raws.Raw(run)
        rng = random.Random(core.stable_hash('p03', run.plan['wseed']))
        # bystanders: neighbours of the raw directory, and what mangled forms of its path would name
        up = os.path.dirname(r.path)
        for d in (r.path, up):
            for n in ('raw2/x', 'raw.old', 'rawx', 'Raw/y', 'ra', 'raw copy/z', 'raw;', '*', 'raw*', ' '):
                if '/' in n or not os.path.exists(os.path.join(d, n)):
                    put(os.path.join(d, n))
        for o in ('TNG300-1', 'Illustris-2', r.sim + ' old', r.sim + '2'):
            put(os.path.join(r.s.root, 'simim_resources', 'simulations', o, 'raw', 'precious'))
        put(os.path.join(r.s.root, 'raw', 'mine'))
        put(os.path.join(w.base, 'raw', 'mine'))
        for q in (r.raw, ) + tuple(os.path.join(r.raw, f) for f in list(r.ref[r.snaps[0]])[:2]):
            for ch in ' ;&|\n\t':
                for tok in q.split(ch)[:-1]:
                    tok = tok.rstrip()
                    if tok and ch in q:
                        p = os.path.join(w.base, tok)
                        if w.contained(p) and not os.path.exists(p):
                            put(p)
                for tok in q.split(ch)[1:]:
                    tok = tok.split(ch)[0].strip()
                    if tok and ch in q and not os.path.isabs(tok) and '..' not in tok:
                        put(os.path.join(w.base, tok))
        for c in '*?[':
            if c in r.path:
                put(os.path.join(r.path.replace(c, 'q'), 'raw', 'glob bystander'))
        if r.site is None or r.site.kind in ('um', 'test', 'uchuu'):
            put(os.path.join(r.raw, 'notes of mine.txt'))
        # files of the user's own whose names resemble raw files, as backups and notes beside them do
        tops = sorted({f.split('/')[0] for j in r.snaps for f in r.ref[j]})
        for f in tops:
            stem, ext = os.path.splitext(f)
            for n in rng.sample([f + '.bak', f + '~', stem + '_my_notes' + ext, stem + ' copy' + ext, 'my_' + f, stem, f + '0', stem + 'a' + ext, f[1:], f[:-1],
                                 '.' + f, f.upper(), stem + '.txt', f + '.old/x'], rng.randint(1, 6)):
                if n.split('/')[0] not in tops:
                    put(os.path.join(r.raw, n))
        if run.cfg['link']:
            put(os.path.join(w.base, 'linked', 'target'))
            os.symlink(os.path.join(w.base, 'linked'), os.path.join(r.raw, 'link'))
        pre = os.path.join('run', os.path.relpath(r.raw, w.base))

        def inraw(k):
            return k == pre + '/' or k.startswith(pre + '/')

        def compare(t0, t1, allowed, why):
            diff = sorted(k for k in set(t0) | set(t1) if t0.get(k) != t1.get(k))
            bad = [k for k in diff if not allowed(k)]
            run.check(not bad, 'other-file-touched', lambda: '%s: changed or removed %s' % (why, bad[:6]))
            run.check(not w.escapes, 'escape', lambda: '%s: tried to touch %s outside' % (why, w.escapes[:3]))
            return diff

        def clean(op, why):
            cat = r.catalog(op['snaps'])
            t0 = w.snapshot_tree()
            call = (lambda: run.call('clean_raw', cat.clean_raw, op, answers=['y'])) if op.get('op') == 'clean' else \
                (lambda: w.op('clean_raw', cat.clean_raw, answers=['y']))
            out = call()
            t1 = w.snapshot_tree()
            compare(t0, t1, lambda k: inraw(k) and k not in t1, '%s (%s)' % (why, out.brief()))
            if out.ok and not out.fired:
                run.check(not os.path.lexists(r.raw), 'raw-left', lambda: '%s reported success but left %s' % (why, [k for k in t1 if inraw(k)][:5]))
            else:
                run.check(bool(out.fired), 'clean-fails', lambda: '%s: %s %r\n%s' % (why, out.brief(), out.exc, getattr(w, 'last_tb', '')))
            return out

        def retry(out, why):
            if out.status == 'killed' or rng.random() < 0.3:
                r.s.start()
            o2 = clean({'snaps': r.snaps}, 'clean_raw again after %s' % why)
            run.check(o2.ok, 'retry-fails', lambda: 'the remaining raw files cannot be deleted after %s' % why)
            run.probe('retried a failed deletion')

        for i, op in run.steps():
            if op['op'] == 'clean':
                out = clean(op, 'clean_raw')
                if out.fired:
                    retry(out, 'clean_raw failed (%s)' % out.fired)
            else:
                cat = r.catalog(op['snaps'])
                groups, att = r.groups()
                listed = set(att['snapshots']['index'].tolist()) if 'snapshots' in att else set()
                case1 = not groups or op['remake']
                todo = [j for j in op['snaps'] if case1 or j not in groups or op['overwrite']]
                # one whose entry was made but not listed by a stopped run may be written again
                again = [j for j in op['snaps'] if j not in todo and j not in listed]
                kw = {k: op[k] for k in ('remake', 'overwrite', 'basic')}
                ans = []
                if op['clean']:
                    kw.update(realtime_clean_raw=True, realtime_clean_raw_check=op['ask'])
                    ans = ['y'] if op['ask'] else []
                t0 = w.snapshot_tree()
                out = run.call('format', lambda: cat.format(**kw), op, answers=ans)
                t1 = w.snapshot_tree()
                must = {os.path.join(pre, f) for j in todo for f in r.ref[j]} if op['clean'] else set()
                may = must | ({os.path.join(pre, f) for j in again for f in r.ref[j]} if op['clean'] else set())
                dirs = {os.path.dirname(f) + '/' for f in may} - {pre + '/'}
                data = os.path.join('run', os.path.relpath(r.file, w.base))

                def allowed(k):
                    return k == data or ((k in may or k in dirs) and k not in t1)
                why = 'format(%s)' % ', '.join('%s=%r' % (k, op[k]) for k in ('snaps', 'overwrite', 'remake', 'clean'))
                compare(t0, t1, allowed, '%s (%s)' % (why, out.brief()))
                if out.ok and not out.fired:
                    left = sorted(k for k in must if k in t1)
                    run.check(not left, 'raw-left', lambda: '%s left raw files %s' % (why, left))
                elif not out.ok:
                    run.check(bool(out.fired), 'format-fails', lambda: '%s: %s %r\n%s' % (why, out.brief(), out.exc, getattr(w, 'last_tb', '')))
                    retry(out, '%s stopped (%s)' % (why, out.fired))
            run.state(op['op'], sorted(k for k in w.snapshot_tree() if inraw(k)), out.brief())
            for f in out.fired:
                run.probe('fault at %s' % f['point'])
            if any(not r.complete(j) for j in r.snaps) or not os.path.exists(r.raw):
                r.restore()
        run.check(not w.escapes, 'escape', lambda: 'touched files outside: %s' % w.escapes[:3])


PROP = P03()
