"""Deterministic simulator: the world a simim session runs in.

One World = one simulated machine: a scratch file system, a user at a prompt, a
shell, a network, a clock and a source of entropy.  The code under test is the
real simim package (a copy of the working tree, so that the files it writes
into itself stay in the scratch area); everything it touches outside itself
goes through the seams installed here.  Every seam event is one numbered
"point" of the current operation; a fault is "at point k of this operation, do
X", so a plan (a JSON document) fixes one execution completely.

Faults at a point
  interrupt   KeyboardInterrupt, before or after the effect
  eio         OSError(EIO) instead of the effect
  enospc      OSError(ENOSPC); a write puts a prefix down first
  memerr      MemoryError instead of the effect
  kill        the process dies here: what is on disk at this instant survives
              (a file being written survives as a prefix), nothing else happens
"""
import builtins
import contextlib
import datetime as _dt
import errno
import gc
import weakref
import hashlib
import importlib
import io
import os
import random
import shutil
import sys
import tempfile
import time
import warnings

import h5py
import numpy as np

_real = {}


class SimKill(BaseException):
    """The simulated process has died."""


class SimHang(BaseException):
    """The operation made more environment calls than any terminating run would."""


class HarnessError(Exception):
    """The harness (not the code under test) met something it cannot simulate."""


class Outcome:
    __slots__ = ('status', 'value', 'exc', 'fired', 'points', 'prompts', 'label')

    def __init__(self, label):
        self.label = label
        self.status = 'ok'        # ok | exc | killed | hang
        self.value = None
        self.exc = None
        self.fired = []           # faults that actually happened
        self.points = []          # [(kind, write?, killable?)]
        self.prompts = 0

    @property
    def ok(self):
        return self.status == 'ok'

    def brief(self):
        if self.status == 'exc':
            return 'exc:' + type(self.exc).__name__
        return self.status


_current = None      # the World whose operation is running


def stable_hash(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


# ---------------------------------------------------------------------------
# file proxy: every write to a scratch file is a fault point
# ---------------------------------------------------------------------------
class SimFile:
    def __init__(self, world, f, path, mode):
        self._w, self._f, self._path, self._mode = world, f, path, mode
        try:
            self._base = 0 if 'w' in mode or 'x' in mode else os.path.getsize(path)
        except OSError:
            self._base = 0
        self._task = world.conc.cur if world.conc is not None else None
        world._open_files.append(self)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def write(self, data):
        w = self._w

        def partial(frac):
            n = int(len(data) * frac)
            if n:
                self._f.write(data[:n])
                self._f.flush()
        return w.point('file.write', self._path, lambda: self._f.write(data), write=True,
                       partial=partial)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def truncate(self, *a):
        return self._w.point('file.truncate', self._path, lambda: self._f.truncate(*a), write=True)

    def close(self):
        if self._f.closed:
            return
        try:
            if self._w is _current and not self._w.dead:
                self._w.point('file.close', self._path, lambda: None, write=True)
        finally:
            self._f.close()
            if self in self._w._open_files:
                self._w._open_files.remove(self)


class World:
    """One simulated machine; see the module docstring."""

    def __init__(self, pkg, base, wseed):
        self.pkg = pkg                      # directory holding the simim copy
        self.base = base                    # scratch for this run
        self.wseed = wseed
        self.entropy = random.Random(stable_hash('entropy', wseed))
        self.generators = []            # made with numpy.random.default_rng by anyone
        self.clock = _dt.datetime(2024, 1, 1) + _dt.timedelta(seconds=self.entropy.randrange(10**7))
        self.clock0 = self.clock
        self.sim_seconds = 0.0
        self.active = False
        self.dead = False
        self.answers = []
        self.escapes = []                   # attempts to delete/change outside the scratch
        self.removed = []                   # every removal that happened, in order
        self.shell_log = []
        self.net = None                     # a net.Server
        self.wget = None                    # callable for the simulated wget
        self.on_remove = None               # callback before a removal takes effect
        self._open_files = []
        self._h5_writers = []
        self._depth = 0
        self.conc = None                    # processes running together
        self._cur = None
        self._faults = []
        self._list_calls = {}
        self._image = None
        self.trace = hashlib.sha256()
        self.trace_len = 0
        self.keep_trace = False
        self.trace_lines = []
        self.fault_counts = {}
        self.point_counts = {}
        self.list_order = True
        self.max_points = 60000
        self.sessions = 0
        os.makedirs(base)
        os.makedirs(os.path.join(base, 'home'))
        self._state_dirs = [base]
        self.resources = os.path.join(pkg, 'simim', 'resources')
        for n in list(os.listdir(self.resources)):
            if n not in _STATIC_RESOURCES:
                _rm(os.path.join(self.resources, n))

    # -- trace ---------------------------------------------------------------
    def log(self, *parts):
        s = '|'.join(str(p) for p in parts)
        s = s.replace(self.base, '<run>').replace(self.pkg, '<pkg>')
        self.trace.update(s.encode('utf8', 'replace') + b'\n')
        self.trace_len += 1
        if self.keep_trace:
            self.trace_lines.append(s)

    def digest(self):
        return self.trace.hexdigest()[:16]

    # -- paths ---------------------------------------------------------------
    def inside(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.base or p.startswith(self.base + os.sep) or \
            p.startswith(self.resources + os.sep)

    def contained(self, path):
        """Like inside, for destructive effects: the real target must be in the scratch."""
        p = os.path.abspath(os.fspath(path))
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        parent = os.path.realpath(os.path.dirname(p))
        p = os.path.join(parent, os.path.basename(p))
        return p.startswith(self.base + os.sep) or p.startswith(self.resources + os.sep)

    def require_contained(self, what, path):
        if not self.contained(path):
            self.escapes.append((what, os.fsdecode(os.fspath(path))))
            self.log('ESCAPE', what)
            raise PermissionError(errno.EPERM, 'simulator: refused outside the scratch area', str(path))

    # -- points and faults -----------------------------------------------------
    def point(self, kind, path, effect, write=False, partial=None, custom=None):
        if not self.active or self._cur is None:
            return effect()
        if self.dead:
            raise SimKill()
        if self._depth:
            return effect()
        if self.conc is not None:
            self.conc.turn(kind, write)
        cur = self._cur
        idx = len(cur.points)
        if idx >= self.max_points:
            raise SimHang()
        killable = not self.writers()
        cur.points.append((kind, write, killable))
        self.point_counts[kind] = self.point_counts.get(kind, 0) + 1
        self.log('pt', idx, kind, _short(path))
        self.tick(0.001)
        fault = None
        for f in self._faults:
            if f.get('at') == idx and not f.get('done'):
                fault = f
                break
        if fault is None:
            self._depth += 1
            try:
                return effect()
            finally:
                self._depth -= 1
        fault['done'] = True
        fk, phase = fault['kind'], fault.get('phase', 'before')
        frac = fault.get('frac', 0.5)
        if fk == 'kill' and self.writers():
            self.log('fault-skipped', fk, kind)
            self._depth += 1
            try:
                return effect()
            finally:
                self._depth -= 1
        if custom is not None and fk in custom:
            key = '%s@%s' % (fk, kind)
            self.fault_counts[key] = self.fault_counts.get(key, 0) + 1
            cur.fired.append({'kind': fk, 'at': idx, 'point': kind, 'phase': phase})
            self.log('FAULT', fk, phase, kind, idx)
            return custom[fk](fault)
        if fk not in STD_KINDS:              # a fault meant for another kind of point
            self.log('fault-skipped', fk, kind)
            self._depth += 1
            try:
                return effect()
            finally:
                self._depth -= 1
        if phase == 'after' and fk in ('interrupt', 'kill'):
            self._depth += 1
            try:
                effect()
            finally:
                self._depth -= 1
            if fk == 'kill' and self.writers():
                self.log('fault-skipped', fk, kind)
                return None
        elif fk in ('enospc', 'kill') and partial is not None:
            self._depth += 1
            try:
                partial(frac)
            finally:
                self._depth -= 1
        key = '%s@%s' % (fk, kind)
        self.fault_counts[key] = self.fault_counts.get(key, 0) + 1
        cur.fired.append({'kind': fk, 'at': idx, 'point': kind, 'phase': phase})
        self.log('FAULT', fk, phase, kind, idx)
        if fk == 'interrupt':
            raise KeyboardInterrupt('simulated')
        if fk == 'eio':
            raise OSError(errno.EIO, 'simulated I/O error')
        if fk == 'enospc':
            raise OSError(errno.ENOSPC, 'simulated: no space left on device')
        if fk == 'memerr':
            raise MemoryError('simulated')
        if fk == 'kill' and self.conc is not None:
            self.conc.die(frac if phase == 'before' else 1.0)
        if fk == 'kill':
            self._take_image(frac if phase == 'before' else 1.0)
            self.dead = True
            raise SimKill()
        raise HarnessError('unknown fault kind %r' % fk)

    # -- process death -----------------------------------------------------------
    def _image_dirs(self):
        return [(self.base, None), (self.resources, _STATIC_RESOURCES)]

    def _take_image(self, frac):
        with _seams_off(self):
            for f in list(self._open_files):
                try:
                    f._f.flush()
                except (OSError, ValueError):
                    pass
            img = os.path.join(self.pkg, 'image')
            _rm(img)
            os.makedirs(img)
            for i, (d, skip) in enumerate(self._image_dirs()):
                dst = os.path.join(img, str(i))
                os.makedirs(dst)
                for n in sorted(_real['listdir'](d)):
                    if skip and n in skip:
                        continue
                    _copy(os.path.join(d, n), os.path.join(dst, n))
            # a file that was being written survives as a prefix of what was written
            for f in list(self._open_files):
                for i, (d, skip) in enumerate(self._image_dirs()):
                    rel = os.path.relpath(f._path, d)
                    p = os.path.join(img, str(i), rel)
                    if not rel.startswith('..') and os.path.exists(p):
                        size = os.path.getsize(p)
                        keep = f._base + int((size - f._base) * frac)
                        with _real['open'](p, 'r+b') as g:
                            g.truncate(max(min(keep, size), 0))
            self._image = img

    def _restore_image(self):
        with _seams_off(self):
            for f in list(self._open_files):
                try:
                    f._f.close()
                except (OSError, ValueError):
                    pass
            self._open_files.clear()
            for i, (d, skip) in enumerate(self._image_dirs()):
                for n in list(_real['listdir'](d)):
                    if skip and n in skip:
                        continue
                    _rm(os.path.join(d, n))
                src = os.path.join(self._image, str(i))
                for n in _real['listdir'](src):
                    _copy(os.path.join(src, n), os.path.join(d, n))
            _rm(self._image)
            self._image = None
        self._h5_writers.clear()

    def writers(self):
        """HDF5 files open for writing."""
        live = [(r, r()) for r in self._h5_writers]
        self._h5_writers[:] = [r for r, f in live if f is not None and f]
        return [f for r, f in live if f is not None and f]

    # -- running code under test ---------------------------------------------------
    def op(self, label, fn, faults=(), answers=()):
        """Run one call into the code under test under the given faults."""
        global _current
        out = Outcome(label)
        if _current is not None:
            raise HarnessError('nested operation')
        self._cur, self._faults = out, [dict(f) for f in faults]
        self.answers = list(answers)
        self.dead = False
        self.active = True
        _current = self
        self.log('op', label)
        self.tick(1.0)
        sink = io.StringIO()
        seed = self.entropy.getrandbits(32)
        np.random.seed(seed)
        random.seed(seed)
        try:
            with contextlib.redirect_stdout(sink), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    out.value = fn()
        except SimKill:
            out.status = 'killed'
        except SimHang:
            out.status = 'hang'
        except HarnessError:
            raise
        except KeyboardInterrupt as e:
            if not (e.args and e.args[0] == 'simulated'):
                raise
            out.status, out.exc = 'exc', e
        except BaseException as e:
            out.status, out.exc = 'exc', e
        finally:
            _current = None
            self.active = False
            self._cur = None
            self._faults = []
        if self.dead:
            out.status = 'killed'
            out.value = None
            self._restore_image()
            self.dead = False
        if out.exc is not None:
            tb = out.exc.__traceback__
            out.exc.__traceback__ = None
            self.last_tb = _format_tb(out.exc, tb)
            del tb
            out.exc.__context__ = None
            out.exc.__cause__ = None
        for f in list(self._open_files):     # files left open by an exception
            try:
                f._f.close()
            except (OSError, ValueError):
                pass
        self._open_files.clear()
        if self.writers():
            gc.collect()
            self.writers()
        out.prompts = len(answers) - len(self.answers)
        self.log('end', label, out.brief())
        return out

    def tick(self, seconds):
        self.sim_seconds += seconds
        self.clock += _dt.timedelta(seconds=seconds)

    def jump_clock(self, seconds):
        self.clock += _dt.timedelta(seconds=seconds)

    def restart(self):
        """A new session: a fresh import of the package (itself an operation)."""
        for m in [m for m in sys.modules if m == 'simim' or m.startswith('simim.')]:
            del sys.modules[m]
        self._h5_writers.clear()
        self.sessions += 1

    def session(self, faults=(), mods=('simim', 'simim.siminterface', 'simim.lightcone', 'simim.galprops',
                                       'simim.map', 'simim.instrument')):
        """Start a session: returns the Outcome of importing the package."""
        self.restart()

        def load():
            for m in mods:
                importlib.import_module(m)
            import simim
            return simim
        out = self.op('import', load, faults=faults)
        if out.ok and not out.value.__file__.startswith(self.pkg):
            raise HarnessError('imported the wrong package: %s' % out.value.__file__)
        return out

    def mod(self, name):
        return importlib.import_module(name)

    # -- summaries -----------------------------------------------------------------
    def snapshot_tree(self, path=None, skip=()):
        """{relative path: content hash}; HDF5 files by their logical content."""
        res = {}
        with _seams_off(self):
            tops = [(path, '')] if path else [(self.base, 'run'), (self.resources, 'res')]
            for top, tag in tops:
                for dp, dns, fns in os.walk(top):
                    dns.sort()
                    rel = os.path.join(tag, os.path.relpath(dp, top))
                    if top == self.resources:
                        dns[:] = [d for d in dns if d not in _STATIC_RESOURCES]
                    res[rel + '/'] = 'dir'
                    for n in sorted(fns):
                        if top == self.resources and n in _STATIC_RESOURCES:
                            continue
                        res[os.path.join(rel, n)] = file_digest(os.path.join(dp, n))
        return res

    def close(self):
        with _seams_off(self):
            self.restart()
            _rm(self.base)
            for n in list(os.listdir(self.resources)):
                if n not in _STATIC_RESOURCES:
                    _rm(os.path.join(self.resources, n))


_STATIC_RESOURCES = {'_testbox', 'behroozi13_release.dat', '__init__.py', '__pycache__'}


def set_static_resources(names):
    _STATIC_RESOURCES.update(names)


def _format_tb(e, tb):
    import traceback
    return ''.join(traceback.format_exception(type(e), e, tb))[-3000:]


def _short(path):
    try:
        p = os.fspath(path)
    except TypeError:
        return str(path)
    return os.fsdecode(p)


@contextlib.contextmanager
def _seams_off(world):
    global _current
    cur, act = _current, world.active
    _current, world.active = None, False
    try:
        yield
    finally:
        _current, world.active = cur, act


def seams_off(world):
    return _seams_off(world)


def _rm(path):
    if os.path.islink(path) or os.path.isfile(path):
        _real['remove'](path)
    elif os.path.isdir(path):
        _real['rmtree'](path)


def _copy(src, dst):
    if os.path.islink(src):
        os.symlink(os.readlink(src), dst)
    elif os.path.isdir(src):
        os.mkdir(dst)
        for n in _real['listdir'](src):
            _copy(os.path.join(src, n), os.path.join(dst, n))
    else:
        with _real['open'](src, 'rb') as a, _real['open'](dst, 'wb') as b:
            b.write(a.read())


def h5_dump(path, values=True):
    """Logical content of an HDF5 file: {path: (shape, dtype, attrs, data)}; raises if unreadable."""
    out = {}

    def attrs(o):
        return {k: _val(o.attrs[k]) for k in sorted(o.attrs)}

    with h5py.File(path, 'r') as f:
        out['/'] = attrs(f)

        def visit(g, prefix):
            for n in sorted(g):
                o = g[n]
                p = prefix + n
                if isinstance(o, h5py.Group):
                    out[p + '/'] = attrs(o)
                    visit(o, p + '/')
                else:
                    out[p] = (o.shape, str(o.dtype), attrs(o), _val(o[()]))
        visit(f, '')
    return out


def _val(v):
    if isinstance(v, h5py.Empty):
        return 'empty'
    if isinstance(v, np.ndarray):
        return (str(v.dtype), v.shape, hashlib.sha256(v.tobytes()).hexdigest()[:20]
                if v.dtype.kind != 'O' else repr(v.tolist()))
    if isinstance(v, np.generic):
        return (str(v.dtype), v.tobytes())
    return v


def file_digest(path):
    if os.path.islink(path):
        return 'link:' + os.readlink(path)
    if path.endswith(('.hdf5', '.h5')):
        try:
            return 'h5:' + hashlib.sha256(repr(sorted(h5_dump(path).items())).encode()).hexdigest()[:20]
        except Exception as e:
            pass
    with _real.get('open', open)(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()[:20]


# ---------------------------------------------------------------------------
# seams (installed once per worker process; inert outside World.op)
# ---------------------------------------------------------------------------
def _w():
    w = _current
    return w if (w is not None and w.active) else None


def _memo_units():
    """Cosmology objects convert the same few units again and again (40 ms each): remember them."""
    from astropy.units import core as uc
    orig, memo = uc.UnitBase.to_system, {}

    def to_system(self, system):
        key = (type(self), self.scale, tuple(b.name if hasattr(b, 'name') else str(b) for b in self.bases),
               tuple(self.powers), system.__name__)
        if key not in memo:
            memo[key] = orig(self, system)
        return list(memo[key])
    uc.UnitBase.to_system = to_system


def install():
    if _real:
        return
    from . import shell as _shell
    _memo_units()
    _real['open'] = builtins.open
    _real['listdir'] = os.listdir
    _real['scandir'] = os.scandir
    _real['remove'] = os.remove
    _real['rmdir'] = os.rmdir
    _real['rmtree'] = shutil.rmtree
    _real['mkdir'] = os.mkdir
    _real['rename'] = os.rename
    _real['replace'] = os.replace
    _real['input'] = builtins.input
    _real['default_rng'] = np.random.default_rng
    _real['move'] = shutil.move

    def sim_open(file, mode='r', *a, **k):
        w = _w()
        if w is None or isinstance(file, int) or not isinstance(file, (str, bytes, os.PathLike)):
            return _real['open'](file, mode, *a, **k)
        writing = any(c in mode for c in 'wax+')
        if not w.inside(file):
            if writing and os.fspath(file) not in ('/dev/null',):
                w.require_contained('open for writing', file)
            return _real['open'](file, mode, *a, **k)
        path = os.path.abspath(os.fspath(file))
        if not writing:
            if path.endswith(('.py', '.pyc')):
                return _real['open'](file, mode, *a, **k)
            return w.point('file.open-r', path, lambda: _real['open'](file, mode, *a, **k))
        w.require_contained('open for writing', file)
        f = w.point('file.open-w', path, lambda: _real['open'](file, mode, *a, **k), write=True)
        if f is None:
            return f
        return SimFile(w, f, path, mode)
    builtins.open = sim_open
    io.open = sim_open

    def wrap_fs(name, kind, destructive):
        orig = getattr(os, name)

        def fn(*a, **k):
            w = _w()
            if w is None or not a or k.get('dir_fd') is not None or isinstance(a[0], int):
                return orig(*a, **k)
            if destructive:
                for p in (a[:2] if name in ('rename', 'replace') else a[:1]):
                    w.require_contained(name, p)
            elif not w.inside(a[0]):
                if name == 'mkdir' and not os.path.exists(a[0]):
                    w.require_contained(name, a[0])
                return orig(*a, **k)
            if destructive and name in ('remove', 'unlink', 'rmdir'):
                def eff():
                    if w.on_remove is not None:
                        with _seams_off(w):
                            w.on_remove(os.path.abspath(os.fspath(a[0])))
                    r = orig(*a, **k)
                    w.removed.append(os.path.abspath(os.fspath(a[0])))
                    return r
            else:
                def eff():
                    return orig(*a, **k)
            return w.point(kind, a[0], eff, write=True)
        fn.__name__ = name
        setattr(os, name, fn)
    wrap_fs('mkdir', 'os.mkdir', False)
    wrap_fs('remove', 'os.remove', True)
    wrap_fs('unlink', 'os.remove', True)
    wrap_fs('rmdir', 'os.rmdir', True)
    wrap_fs('rename', 'os.rename', True)
    wrap_fs('replace', 'os.rename', True)
    wrap_fs('truncate', 'os.truncate', True)
    wrap_fs('chmod', 'os.chmod', True)
    wrap_fs('symlink', 'os.symlink', False)
    wrap_fs('link', 'os.link', False)

    def order(w, path, names):
        names = sorted(names)
        if w.list_order:
            key = os.path.abspath(os.fspath(path)).replace(w.base, '')
            n = w._list_calls.get(key, 0)
            w._list_calls[key] = n + 1
            random.Random(stable_hash('ls', w.wseed, key, n)).shuffle(names)
        return names

    def sim_listdir(path='.'):
        w = _w()
        if w is None or isinstance(path, int) or not w.inside(path):
            return _real['listdir'](path)
        return order(w, path, w.point('os.listdir', path, lambda: _real['listdir'](path)))
    os.listdir = sim_listdir

    class _Scan:
        def __init__(self, entries):
            self._e = iter(entries)

        def __iter__(self):
            return self._e

        def __next__(self):
            return next(self._e)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def sim_scandir(path='.'):
        w = _w()
        if w is None or isinstance(path, int) or not w.inside(path):
            return _real['scandir'](path)
        with _real['scandir'](path) as it:
            d = {e.name: e for e in it}
        return _Scan([d[n] for n in order(w, path, list(d))])
    os.scandir = sim_scandir

    def sim_rmtree(path, ignore_errors=False, onerror=None, *, onexc=None, dir_fd=None):
        w = _w()
        if w is None:
            return _real['rmtree'](path, ignore_errors, onerror, onexc=onexc, dir_fd=dir_fd)
        w.require_contained('rmtree', path)

        def handle(func, p, e):
            if ignore_errors:
                return
            if onexc is not None:
                return onexc(func, p, e)
            if onerror is not None:
                return onerror(func, p, sys.exc_info())
            raise e

        def rec(p):
            try:
                if os.path.islink(p):
                    raise OSError("Cannot call rmtree on a symbolic link")
                names = os.listdir(p)
            except OSError as e:
                handle(os.listdir, p, e)
                return
            for n in names:
                q = os.path.join(p, n)
                if os.path.isdir(q) and not os.path.islink(q):
                    rec(q)
                else:
                    try:
                        os.remove(q)
                    except OSError as e:
                        handle(os.remove, q, e)
            try:
                os.rmdir(p)
            except OSError as e:
                handle(os.rmdir, p, e)
        rec(os.fspath(path))
    shutil.rmtree = sim_rmtree
    shutil._USE_CP_SENDFILE = False

    def sim_input(prompt=''):
        w = _w()
        if w is None:
            return _real['input'](prompt)
        if w.dead:
            raise SimKill()
        w.log('prompt')
        w.tick(5.0)
        if not w.answers:
            raise EOFError('simulated end of input')
        a = w.answers.pop(0)
        if a == '<interrupt>':
            raise KeyboardInterrupt('simulated')
        if a == '<eof>':
            raise EOFError('simulated end of input')
        return a
    builtins.input = sim_input

    def sim_default_rng(seed=None):
        w = _w()
        if seed is None and w is not None:
            seed = w.entropy.getrandbits(64)
        g = _real['default_rng'](seed)
        if w is not None:
            w.generators.append(g)
        return g
    np.random.default_rng = sim_default_rng

    class SimDateTime(_dt.datetime):
        @classmethod
        def today(cls):
            w = _w()
            return w.clock if w is not None else _realdt.today()

        @classmethod
        def now(cls, tz=None):
            w = _w()
            if w is None:
                return _realdt.now(tz)
            return w.clock if tz is None else w.clock.replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            w = _w()
            return w.clock if w is not None else _realdt.now(_dt.timezone.utc).replace(tzinfo=None)
    _realdt = _dt.datetime
    _real['datetime'] = _realdt
    _dt.datetime = SimDateTime

    import fcntl
    _real['flock'] = fcntl.flock

    def sim_flock(fd, op, *range_):
        w = _w()
        if w is None or not w.active:
            return _real['flock'](fd, op)
        n = fd if isinstance(fd, int) else fd.fileno()
        if op & fcntl.LOCK_UN:
            w.point('os.unlock', '', lambda: None)
            _real['flock'](n, op)
            if w.conc is not None:
                w.conc.cur.held.discard(n)
                w.conc.released()
            return None
        while True:
            w.point('os.lock', '', lambda: None)
            try:
                _real['flock'](n, op | fcntl.LOCK_NB)
            except BlockingIOError:
                if op & fcntl.LOCK_NB:
                    raise
                if w.conc is None:
                    raise SimHang()
                w.conc.wait()
                continue
            if w.conc is not None:
                w.conc.cur.held.add(n)
            return None
    fcntl.flock = fcntl.lockf = sim_flock

    _real['osclose'], _real['osopen'], _real['getpid'], _real['sleep'] = os.close, os.open, os.getpid, time.sleep

    def sim_osopen(path, flags, *a, **k):
        w = _w()
        if w is None or not flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR) or k.get('dir_fd') is not None or not w.inside(path):
            return _real['osopen'](path, flags, *a, **k)
        return w.point('os.open', path, lambda: _real['osopen'](path, flags, *a, **k), write=True)
    os.open = sim_osopen

    def sim_osclose(fd):
        w = _w()
        r = _real['osclose'](fd)
        if w is not None and w.conc is not None and fd in w.conc.cur.held:
            w.conc.cur.held.discard(fd)
            w.conc.released()
        return r
    os.close = sim_osclose

    def sim_getpid():
        w = _w()
        if w is None:
            return _real['getpid']()
        return 4000 + 10 * w.sessions + (w.conc.cur.k if w.conc is not None else 0)
    os.getpid = sim_getpid

    def sim_sleep(s):
        w = _w()
        if w is None:
            return _real['sleep'](s)
        w.tick(s)
        if w.conc is not None and not w._depth and w.conc.others():
            w.point('sleep', '', lambda: None)
            o = w.conc.others()
            if o:
                w.conc.give(o[0])
        elif w.active and not w._depth:
            w.point('sleep', '', lambda: None)
    time.sleep = sim_sleep

    # deterministic temporary names
    class _Names:
        def __iter__(self):
            return self

        def __next__(self):
            w = _w()
            r = w.entropy if w is not None else random.Random()
            return 'tmp%08x' % r.getrandbits(32)
    tempfile._name_sequence = _Names()

    _install_h5()
    _shell.install(_w)
    from . import net as _net
    _net.install(_w)


def _install_h5():
    File, Group, Dataset = h5py.File, h5py.Group, h5py.Dataset
    AM = h5py.AttributeManager

    o_init, o_close = File.__init__, File.close

    def f_init(self, name, mode='r', *a, **k):
        w = _w()
        if w is None or not isinstance(name, (str, bytes, os.PathLike)) or not w.inside(name):
            if w is not None and mode != 'r' and isinstance(name, (str, bytes, os.PathLike)):
                w.require_contained('HDF5 open for writing', name)
            return o_init(self, name, mode, *a, **k)

        def eff():
            r = o_init(self, name, mode, *a, **k)
            if mode != 'r':
                w._h5_writers.append(weakref.ref(self))
            return r
        writing = mode != 'r'
        return w.point('h5.open-w' if writing else 'h5.open-r', name, eff, write=writing)
    File.__init__ = f_init

    def f_close(self):
        w = _current
        if w is not None and any(f is self for f in w.writers()):
            w._h5_writers[:] = [f for f in w._h5_writers if f() is not self]
            valid = bool(self)
            o_close(self)
            if w.active and valid and not w.dead and not w._depth:
                w.point('h5.closed', 'h5', lambda: None, write=True)
            return None
        return o_close(self)
    File.close = f_close

    def wrap(cls, name, kind, write, partial=None):
        orig = cls.__dict__[name]

        def fn(self, *a, **k):
            w = _w()
            if w is None or w._depth:
                return orig(self, *a, **k)
            p = None
            if partial is not None:
                def p(frac):
                    partial(orig, self, frac, *a, **k)
            detail = a[0] if a and isinstance(a[0], str) else ''
            return w.point(kind, detail, lambda: orig(self, *a, **k), write=write, partial=p)
        fn.__name__ = name
        fn.__doc__ = orig.__doc__
        setattr(cls, name, fn)

    def partial_set(orig, ds, frac, args, val):
        try:
            if ds.ndim != 1 or len(ds) == 0:
                return
            key = args if not isinstance(args, tuple) else (args[0] if len(args) == 1 else None)
            if isinstance(key, slice):
                idx = range(*key.indices(len(ds)))
                n = int(len(idx) * frac)
                if n and idx.step == 1:
                    v = np.asarray(val)
                    v = v[:n] if v.ndim else v
                    orig(ds, slice(idx[0], idx[0] + n), v)
        except Exception:
            pass

    wrap(Group, 'create_group', 'h5.create_group', True)
    wrap(Group, 'create_dataset', 'h5.create_dataset', True)
    wrap(Group, '__setitem__', 'h5.link', True)
    wrap(Group, '__delitem__', 'h5.delete', True)
    wrap(Group, 'move', 'h5.move', True)
    if 'copy' in Group.__dict__:
        wrap(Group, 'copy', 'h5.copy', True)
    wrap(Dataset, '__setitem__', 'h5.write', True, partial_set)
    wrap(Dataset, 'resize', 'h5.resize', True)
    wrap(Dataset, '__getitem__', 'h5.read', False)
    wrap(AM, '__setitem__', 'h5.attr', True)
    wrap(AM, 'create', 'h5.attr', True)
    wrap(AM, 'modify', 'h5.attr', True)
    wrap(AM, '__delitem__', 'h5.attr-del', True)


# ---------------------------------------------------------------------------
# choosing faults
# ---------------------------------------------------------------------------
STD_KINDS = ('interrupt', 'eio', 'enospc', 'memerr', 'kill')
READ_KINDS = ('interrupt', 'eio', 'memerr')
WRITE_KINDS = ('interrupt', 'eio', 'enospc', 'kill', 'kill', 'interrupt')


# kinds of fault particular to a kind of point (filled by net.py)
POINT_KINDS = {}


def choose_fault(rng, points, kinds=None, only=None):
    """Pick one fault for an operation whose points (from a dry run) are known."""
    cand = [i for i, p in enumerate(points) if only is None or only(p)]
    if not cand:
        return None
    # favour writes, and spread over the kinds of point rather than their number
    bykind = {}
    for i in cand:
        bykind.setdefault(points[i][0], []).append(i)
    writes = [k for k in bykind if points[bykind[k][0]][1] or k.startswith('net.')]
    pool = writes if writes and rng.random() < 0.85 else sorted(bykind)
    k = rng.choice(sorted(pool))
    lst = bykind[k]
    r = rng.random()
    i = lst[0] if r < 0.12 else lst[-1] if r < 0.3 else rng.choice(lst)
    kind_, write, killable = points[i]
    opts = [x for x in (WRITE_KINDS if write else READ_KINDS)]
    if kind_ in POINT_KINDS:
        opts = list(POINT_KINDS[kind_])
    if write:
        opts += ['memerr'] if kind_.startswith('h5.') else []
    if not killable and kind_ != 'h5.closed':
        opts = [o for o in opts if o != 'kill']
    if not write and killable and kind_.startswith(('file.open', 'h5.open', 'net', 'os.')):
        opts += ['kill']
    if kinds is not None:
        opts = [o for o in opts if o in kinds]
    if not opts:
        return None
    fk = rng.choice(opts)
    f = {'at': i, 'kind': fk}
    if fk in ('interrupt', 'kill') and write and rng.random() < 0.5:
        f['phase'] = 'after'
    if fk in ('enospc', 'kill', 'truncate', 'shortlist') and f.get('phase') != 'after':
        f['frac'] = rng.choice([0.0, 0.3, 0.6, 0.9, 1.0])
    return f
