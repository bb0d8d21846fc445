"""The simulated shell: os.system and subprocess calls of the code under test are
interpreted here, on the scratch area only.  Nothing is ever handed to a real shell."""
import errno
import glob as _glob
import os
import shlex
import shutil
import subprocess

from . import core


def _words(cmd):
    """Split a command line the way a shell does, keeping which words may glob."""
    lex = shlex.shlex(cmd, posix=True, punctuation_chars=';&|<>()')
    lex.whitespace_split = True
    lex.commenters = ''
    return list(lex)


def _split(words):
    cur, out = [], []
    for w in words:
        if w and all(c in ';&|' for c in w):
            out.append((cur, w))
            cur = []
        else:
            cur.append(w)
    out.append((cur, ''))
    return [(c, s) for c, s in out if c]


def run_line(w, cmd):
    w.shell_log.append(cmd)
    w.log('shell', cmd)
    try:
        words = _words(cmd)
    except ValueError:
        return 2 << 8
    rc = 0
    prev = ''
    for argv, sep in _split(words):
        if prev == '&&' and rc != 0:
            prev = sep
            continue
        if prev == '||' and rc == 0:
            prev = sep
            continue
        rc = run_argv(w, argv, glob=True)
        prev = sep
    return rc << 8


def _expand(args):
    out = []
    for a in args:
        if a.startswith('~'):
            a = os.path.expanduser(a)
        if any(c in a for c in '*?['):
            hits = sorted(_glob.glob(a))
            out += hits or [a]
        else:
            out.append(a)
    return out


def run_argv(w, argv, glob=False):
    argv = [os.fsdecode(os.fspath(a)) for a in argv]
    while argv and '=' in argv[0] and not argv[0].startswith(('/', '-')) and len(argv) > 1:
        argv = argv[1:]
    name = os.path.basename(argv[0])
    rest = argv[1:]
    if '>' in rest or '<' in rest or '>>' in rest:
        i = next(i for i, a in enumerate(rest) if a in ('>', '<', '>>'))
        rest = rest[:i] + rest[i + 2:]
    if name == 'wget':
        if w.wget is None:
            return 4
        return w.wget(rest)
    if glob:
        rest = _expand(rest)
    opts, args, dd = set(), [], False
    for a in rest:
        if not dd and a == '--':
            dd = True
        elif not dd and a.startswith('--'):
            opts.add(a)
        elif not dd and a.startswith('-') and a != '-':
            opts.update(a[1:])
        else:
            args.append(a)
    rec = bool(opts & {'r', 'R', '--recursive'})
    force = bool(opts & {'f', '--force'})
    rc = 0
    if name in ('rm', 'unlink', 'rmdir'):
        if not args and not force:
            return 1
        for a in args:
            try:
                if not w.contained(a):
                    if os.path.lexists(a) or not force:
                        w.escapes.append((name, a))
                        w.log('ESCAPE', name)
                    rc = 1
                    continue
                if os.path.isdir(a) and not os.path.islink(a):
                    if name == 'rmdir':
                        os.rmdir(a)
                    elif rec:
                        shutil.rmtree(a)
                    else:
                        rc = 1
                elif os.path.lexists(a):
                    os.remove(a)
                elif not force:
                    rc = 1
            except OSError:
                rc = 1
        return rc
    if name in ('mv', 'cp'):
        if len(args) < 2:
            return 1
        for a in args[:-1]:
            dst = args[-1]
            if os.path.isdir(dst):
                dst = os.path.join(dst, os.path.basename(a))
            try:
                if name == 'mv':
                    os.replace(a, dst)
                elif os.path.isdir(a):
                    if not rec:
                        rc = 1
                        continue
                    shutil.copytree(a, dst)
                else:
                    shutil.copyfile(a, dst)
            except OSError:
                rc = 1
        return rc
    if name == 'mkdir':
        for a in args:
            try:
                if 'p' in opts:
                    os.makedirs(a, exist_ok=True)
                else:
                    os.mkdir(a)
            except OSError:
                rc = 1
        return rc
    if name in ('echo', 'true', ':', 'sync', 'cd'):
        return 0
    if name == 'test':
        return 0 if args and os.path.exists(args[-1]) else 1
    if name == 'false':
        return 1
    w.log('unknown-command', name)
    return 127


def install(_w):
    o_system, o_popen = os.system, os.popen
    o_run, o_call = subprocess.run, subprocess.call
    o_cc, o_co, o_Popen = subprocess.check_call, subprocess.check_output, subprocess.Popen

    def point(w, fn):
        # the command itself may fail to start
        return w.point('shell.start', 'sh', lambda: None) or fn()

    def system(cmd):
        w = _w()
        if w is None:
            return o_system(cmd)
        return point(w, lambda: run_line(w, os.fsdecode(cmd)))
    os.system = system

    def _go(w, args, k):
        if isinstance(args, (str, bytes)):
            if k.get('shell'):
                return run_line(w, os.fsdecode(args)) >> 8
            args = [args]
        args = [os.fsdecode(os.fspath(a)) for a in args]
        if k.get('shell'):
            return run_line(w, args[0]) >> 8
        w.shell_log.append(args)
        w.log('shell', args)
        return run_argv(w, args)

    def run(args, **k):
        w = _w()
        if w is None:
            return o_run(args, **k)
        rc = point(w, lambda: _go(w, args, k))
        if rc and k.get('check'):
            raise subprocess.CalledProcessError(rc, args)
        out = '' if k.get('text') or k.get('universal_newlines') or k.get('encoding') else b''
        return subprocess.CompletedProcess(args, rc, out, out)
    subprocess.run = run

    def call(args, **k):
        w = _w()
        if w is None:
            return o_call(args, **k)
        return run(args, **{x: k[x] for x in k if x in ('shell',)}).returncode
    subprocess.call = call

    def check_call(args, **k):
        w = _w()
        if w is None:
            return o_cc(args, **k)
        run(args, check=True, **{x: k[x] for x in k if x in ('shell',)})
        return 0
    subprocess.check_call = check_call

    def check_output(args, **k):
        w = _w()
        if w is None:
            return o_co(args, **k)
        return run(args, check=True, **{x: k[x] for x in k if x in ('shell', 'text')}).stdout
    subprocess.check_output = check_output

    class Popen(o_Popen):
        def __init__(self, *a, **k):
            if _w() is not None:
                raise core.HarnessError('Popen is not simulated: %r' % (a[:1],))
            super().__init__(*a, **k)
    subprocess.Popen = Popen

    def popen(cmd, *a, **k):
        w = _w()
        if w is None:
            return o_popen(cmd, *a, **k)
        import io
        point(w, lambda: run_line(w, cmd))
        return io.StringIO('')
    os.popen = popen
