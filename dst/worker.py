"""A worker process: executes the runs it is told to, or shrinks / replays one plan."""
import json
import os
import signal
import sys
import time
import traceback


def main():
    job = json.loads(sys.stdin.read())
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)

    def emit(o):
        out.write(json.dumps(o) + '\n')
        out.flush()

    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.path.insert(0, job['verif'])
    sys.path.insert(0, job['pkg'])
    sys.dont_write_bytecode = False
    from dst import core, runner
    import importlib
    for m in ('matplotlib.pyplot', 'astropy.cosmology', 'scipy.interpolate', 'scipy.integrate', 'requests',
              'requests.adapters', 'h5py', 'subprocess', 'tempfile', 'scipy.ndimage', 'scipy.stats',
              'astropy.units', 'scipy.optimize', 'scipy.signal', 'importlib.resources'):
        importlib.import_module(m)
    if '__pycache__' not in core._STATIC_RESOURCES:
        pass
    core.install()
    env = runner.Env(job['pkg'], job['scratch'])
    prop = runner.load_prop(job['property'])
    if hasattr(prop, 'setup'):
        prop.setup(env)
    emit({'t': 'ready'})

    def alarm(sig, frame):
        emit({'t': 'error', 'i': cur, 'msg': 'run exceeded its wall-clock limit\n' +
              ''.join(traceback.format_stack(frame)[-6:])})
        os._exit(3)
    signal.signal(signal.SIGALRM, alarm)
    limit = job.get('run_limit', 240)

    cur = None
    try:
        if job['mode'] == 'runs':
            for i in job['indices']:
                cur = i
                signal.alarm(limit)
                emit({'t': 'begin', 'i': i})
                t0 = time.monotonic()
                plan, v = runner.make_run(env, prop, job['property'], job['seed'], job['tier'], i)
                run, v = runner.execute(env, prop, plan)
                signal.alarm(0)
                fired = sum(len(f) for f in run.fired.values())
                r = {'t': 'run', 'i': i, 'digest': run.digest, 'points': run.w.trace_len,
                     'sim_s': run.w.sim_seconds, 'sessions': run.w.sessions,
                     'faults': run.w.fault_counts, 'pts': run.w.point_counts, 'probes': run.probes,
                     'states': sorted(run.states), 'checks': run.checks, 'fired': fired,
                     'ops': len(plan['ops']), 'wall': time.monotonic() - t0}
                if i < job.get('samples_below', 3) or v is not None:
                    r['plan'] = plan
                if v is not None:
                    r['violation'] = {'cls': v.cls, 'msg': v.msg}
                emit(r)
        elif job['mode'] == 'shrink':
            signal.alarm(job.get('budget', 100) + 300)
            plan, tried = runner.shrink(env, prop, job['plan'], job['cls'], job.get('budget', 100))
            run, v = runner.execute(env, prop, plan)
            emit({'t': 'shrunk', 'plan': plan, 'tried': tried, 'digest': run.digest,
                  'violation': {'cls': v.cls, 'msg': v.msg} if v else None})
        elif job['mode'] == 'replay':
            signal.alarm(600)
            run, v = runner.execute(env, prop, job['plan'], keep_trace=True)
            emit({'t': 'replayed', 'digest': run.digest, 'trace': run.w.trace_lines if job.get('trace') else None,
                  'violation': {'cls': v.cls, 'msg': v.msg} if v else None, 'probes': run.probes})
    except BaseException:
        emit({'t': 'error', 'i': cur, 'msg': traceback.format_exc()[-6000:]})
        out.flush()
        os._exit(3)
    emit({'t': 'done'})
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
