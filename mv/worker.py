"""Worker process: runs a list of cases against the real modred, on one rank.

argv: workdir.  workdir/spec.pickle holds {cases: [(id, fn, args)], tier, seed,
opts}.  Every rank appends pickled (id, obs) records to workdir/out.<rank> and
its state to workdir/prog.<rank>."""
import faulthandler
import importlib
import os
import pickle
import shutil
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    work = sys.argv[1]
    with open(os.path.join(work, 'spec.pickle'), 'rb') as f:
        spec = pickle.load(f)
    opts = spec['opts']
    if opts.get('nodes'):
        # Simulate several nodes: host names are decided before modred is imported.
        import socket
        r = int(os.environ.get('PMI_RANK', '0'))
        n = int(os.environ.get('PMI_SIZE', '1'))
        name = 'node%d' % (r * opts['nodes'] // n)
        socket.gethostname = lambda: name
    if opts.get('mixed_cpus'):
        # Simulate nodes with different processors: linear algebra kernels that
        # round differently, chosen before numpy is imported.
        r = int(os.environ.get('PMI_RANK', '0'))
        os.environ['OPENBLAS_CORETYPE'] = ['Haswell', 'Prescott', 'Nehalem', 'Sandybridge'][r % 4]
    from mpi4py import MPI
    comm = MPI.COMM_WORLD.Dup()
    rank, size = comm.Get_rank(), comm.Get_size()
    prog = open(os.path.join(work, 'prog.%d' % rank), 'a')

    def progress(msg):
        prog.write(msg + '\n')
        prog.flush()
    progress('pid %d' % os.getpid())
    dump = open(os.path.join(work, 'stack.%d' % rank), 'a')
    faulthandler.register(signal.SIGUSR1, file=dump, all_threads=False)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import modred
    src = os.path.realpath(os.path.dirname(modred.__file__))
    if src != os.path.realpath('/repo/modred'):
        progress('badimport ' + src)
        os._exit(7)
    from mv.core import Env, Stop
    scratch = os.path.join(work, 'scratch')
    if rank == 0 and not os.path.isdir(scratch):
        os.mkdir(scratch)
    comm.Barrier()
    out = open(os.path.join(work, 'out.%d' % rank), 'ab')
    env = Env(rank, size, None, spec['tier'], spec['seed'], comm)
    for cid, fn, args in spec['cases']:
        progress('start %s' % cid)
        env.reset()
        cdir = os.path.join(scratch, str(cid))
        if rank == 0:
            os.mkdir(cdir)
        comm.Barrier()
        env.scratch = cdir
        os.chdir(cdir)
        modname, funcname = fn.split(':')
        func = getattr(importlib.import_module('mv.' + modname), funcname)
        exc = None
        try:
            func(env, **args)
        except Stop:
            pass
        except Exception as e:
            exc = (type(e).__name__, str(e)[:500], traceback.format_exc()[-3000:])
        obs = dict(counts=env.counts, sigs=env.sigs, samples=env.samples, viols=env.viols,
                   value=env.value, exc=exc, rank=rank, sub=env.sub, desc=repr(env.desc)[:1000])
        try:
            rec = pickle.dumps((cid, obs), protocol=4)
        except Exception as e:
            obs['value'] = None
            obs['exc'] = ('PickleError', str(e), traceback.format_exc()[-2000:])
            rec = pickle.dumps((cid, obs), protocol=4)
        out.write(rec)
        out.flush()
        if size > 1 and (exc is not None or env.viols and len(env.viols) >= 20):
            # Other ranks may now wait for this one forever: end the job, the parent resumes.
            progress('abort %s' % cid)
            os.fsync(out.fileno())
            import time
            time.sleep(0.5)
            MPI.COMM_WORLD.Abort(9)
            time.sleep(60)      # the end comes from outside
            os._exit(9)
        progress('done %s' % cid)
        if size > 1:
            comm.Barrier()
            status = MPI.Status()
            if MPI.COMM_WORLD.Iprobe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=status):
                msg = MPI.COMM_WORLD.recv(source=status.Get_source(), tag=status.Get_tag())
                out.write(pickle.dumps((cid, dict(leftover=repr(msg)[:300], rank=rank)), protocol=4))
                out.flush()
            comm.Barrier()
        os.chdir(work)
        if rank == 0:
            shutil.rmtree(cdir, ignore_errors=True)
    progress('end')
    out.close()
    if size > 1:
        comm.Barrier()


if __name__ == '__main__':
    main()
