"""Runs cases in worker processes (plain or under mpiexec) and collects what
every rank observed.  Decides crashes and missing progress."""
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

PY = '/opt/venv/bin/python'
MPIEXEC = '/opt/venv/bin/mpiexec'
HERE = os.path.dirname(os.path.abspath(__file__))
CORES = 8
STALL = float(os.environ.get('MV_STALL', '40'))
MAX_FAIL = 4          # restarts of a job after failing cases


def child_env():
    e = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH',)}
    e.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
             PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', HOME='/root', LANG='C.UTF-8')
    e.setdefault('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    return e


HUNG = []             # jobs that ended in confirmed missing progress


class Job(object):
    """A list of cases with the same number of processes and options."""

    def __init__(self, np_, cases, tier, seed, opts):
        self.np, self.cases, self.tier, self.seed, self.opts = np_, cases, tier, seed, opts
        self.results = {}      # case id -> {'ranks': {rank: obs}, 'status': ...}

    # one launch -------------------------------------------------------------
    def launch(self, cases, stall):
        work = tempfile.mkdtemp(prefix='mv-')
        try:
            return self._launch(work, cases, stall)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def _launch(self, work, cases, stall):
        with open(os.path.join(work, 'spec.pickle'), 'wb') as f:
            pickle.dump(dict(cases=cases, tier=self.tier, seed=self.seed, opts=self.opts), f)
        cmd = [PY, os.path.join(HERE, 'worker.py'), work]
        if self.np > 1:
            cmd = [MPIEXEC, '-launcher', 'fork', '-n', str(self.np)] + cmd
        log = open(os.path.join(work, 'log'), 'wb')
        proc = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                env=child_env(), cwd=work, start_new_session=True)
        last, last_t = None, time.time()
        stuck = None
        while proc.poll() is None:
            time.sleep(0.05)
            state = tuple(
                os.path.getsize(p) if os.path.exists(p) else 0
                for p in (os.path.join(work, 'prog.%d' % r) for r in range(self.np)))
            if state != last:
                last, last_t = state, time.time()
            elif time.time() - last_t > stall:
                stuck = self.stacks(work)
                try:
                    os.killpg(proc.pid, signal.SIGKILL)
                except OSError:
                    pass
                for r in range(self.np):
                    for l in self.prog(work, r)[:1]:
                        try:
                            os.kill(int(l.split()[1]), signal.SIGKILL)
                        except (OSError, ValueError, IndexError):
                            pass
                proc.wait()
                break
        log.close()
        recs = {}
        for r in range(self.np):
            path = os.path.join(work, 'out.%d' % r)
            if not os.path.exists(path):
                continue
            with open(path, 'rb') as f:
                while True:
                    try:
                        cid, obs = pickle.load(f)
                    except EOFError:
                        break
                    except Exception:
                        break
                    if 'leftover' in obs:
                        recs.setdefault(cid, {}).setdefault('leftover', []).append((r, obs['leftover']))
                    else:
                        recs.setdefault(cid, {})[r] = obs
        progs = [self.prog(work, r) for r in range(self.np)]
        with open(os.path.join(work, 'log'), 'rb') as f:
            logtext = f.read()[-3000:].decode('utf8', 'replace')
        return recs, progs, stuck, proc.returncode, logtext

    def prog(self, work, r):
        try:
            with open(os.path.join(work, 'prog.%d' % r)) as f:
                return f.read().splitlines()
        except OSError:
            return []

    def stacks(self, work):
        """Python stacks of every rank, sampled twice five seconds apart."""
        outs = []
        for _ in range(2):
            sizes = {}
            for r in range(self.np):
                p = os.path.join(work, 'stack.%d' % r)
                sizes[r] = os.path.getsize(p) if os.path.exists(p) else 0
                lines = self.prog(work, r)
                if lines:
                    try:
                        os.kill(int(lines[0].split()[1]), signal.SIGUSR1)
                    except (OSError, ValueError):
                        pass
            time.sleep(1.0)
            snap = {}
            for r in range(self.np):
                p = os.path.join(work, 'stack.%d' % r)
                if os.path.exists(p):
                    with open(p) as f:
                        f.seek(sizes[r])
                        snap[r] = f.read()
            outs.append(snap)
            time.sleep(4.0)
        return outs

    def run(self):
        todo = list(self.cases)
        fails = 0
        while todo:
            if len(HUNG) >= 2:
                for c in todo:
                    self.results[c[0]] = dict(ranks={}, status='skipped')
                break
            recs, progs, stuck, rc, log = self.launch(todo, STALL)
            if any(l.startswith('badimport') for p in progs for l in p):
                raise RuntimeError('modred was not imported from /repo: %s' % progs)
            done = []
            for cid, fn, args in todo:
                ranks = recs.get(cid, {})
                left = ranks.pop('leftover', None)
                if len(ranks) == self.np:
                    self.results[cid] = dict(ranks=ranks, status='done', leftover=left)
                    done.append(cid)
                    if self.np > 1 and any(o['exc'] for o in ranks.values()):
                        fails += 1      # the workers ended the job here
                elif ranks or any(('start %s' % cid) in p for p in progs):
                    # case that ended the job
                    exc = [o for o in ranks.values() if o['exc'] or o['viols']]
                    if exc:
                        self.results[cid] = dict(ranks=ranks, status='aborted', leftover=left)
                    elif stuck is not None:
                        again = self.launch([(cid, fn, args)], STALL)
                        ranks2 = again[0].get(cid, {})
                        ranks2.pop('leftover', None)
                        if len(ranks2) == self.np:
                            self.results[cid] = dict(ranks=ranks2, status='done', leftover=None, slow=True)
                        elif [o for o in ranks2.values() if o['exc'] or o['viols']]:
                            self.results[cid] = dict(ranks=ranks2, status='aborted', leftover=None)
                        else:
                            same = stuck[0] == stuck[1]
                            self.results[cid] = dict(
                                ranks=ranks, status='stuck', stacks=stuck[0], same=same,
                                finished=sorted(ranks))
                            HUNG.append(cid)
                            fails = MAX_FAIL
                    else:
                        again = self.launch([(cid, fn, args)], STALL)
                        ranks2 = again[0].get(cid, {})
                        ranks2.pop('leftover', None)
                        if len(ranks2) == self.np:
                            self.results[cid] = dict(ranks=ranks2, status='done', leftover=None, slow=True)
                        elif [o for o in ranks2.values() if o['exc'] or o['viols']]:
                            self.results[cid] = dict(ranks=ranks2, status='aborted', leftover=None)
                        else:
                            self.results[cid] = dict(ranks=ranks, status='crash', log=again[4], rc=again[3])
                    done.append(cid)
                    fails += 1
                    break
                else:
                    break
            if not done:
                # nothing even started: the launcher or the import failed
                if not any(progs):
                    raise RuntimeError('worker processes did not start: ' + log)
                self.results[todo[0][0]] = dict(ranks={}, status='crash', log=log, rc=rc)
                done = [todo[0][0]]
                fails += 1
            todo = [c for c in todo if c[0] not in done]
            if fails >= MAX_FAIL:
                for c in todo:
                    self.results[c[0]] = dict(ranks={}, status='skipped')
                break
        return self.results


def run_cases(ctx, cases, judge=None):
    """cases: list of dicts {fn, np, args, opts?}.  Merges all observations
    into ctx and calls judge(ctx, case, [obs per rank]) for finished cases."""
    jobs = {}
    ones = []
    for i, c in enumerate(cases):
        c['id'] = i
        o = tuple(sorted(c.get('opts', {}).items()))
        if c['np'] == 1 and not o:
            ones.append(c)
        else:
            jobs.setdefault((c['np'], o), []).append(c)
    joblist = []
    for (n, o), cs in sorted(jobs.items(), key=lambda kv: -kv[0][0]):
        joblist.append(Job(n, [(c['id'], c['fn'], c['args']) for c in cs], ctx.tier, ctx.seed, dict(o)))
    if ones:
        k = min(CORES, len(ones))
        for j in range(k):
            part = ones[j::k]
            joblist.append(Job(1, [(c['id'], c['fn'], c['args']) for c in part], ctx.tier, ctx.seed, {}))
    cond = threading.Condition()
    free = [CORES]
    errors = []

    def go(job):
        try:
            job.run()
        except Exception as e:
            errors.append(e)
        finally:
            with cond:
                free[0] += min(job.np, CORES)
                cond.notify_all()
    threads = []
    for job in joblist:
        need = min(job.np, CORES)
        with cond:
            while free[0] < need:
                cond.wait()
            free[0] -= need
        t = threading.Thread(target=go, args=(job,))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()
    if errors:
        raise errors[0]
    results = {}
    for job in joblist:
        results.update(job.results)
    nviol = 0
    for c in cases:
        r = results.get(c['id'])
        cc = dict(fn=c['fn'], np=c['np'], args=c['args'], opts=c.get('opts', {}))
        if r is None or r['status'] == 'skipped':
            ctx.count('cases_skipped')
            if not ctx.viols:
                ctx.inconclusive.append('case %s skipped' % c['id'])
            continue
        for rank, obs in sorted(r['ranks'].items()):
            ctx.merge(cc, obs)
            if obs['exc']:
                ctx.viol('exception:' + obs['exc'][0], 'rank %d of %d raised %s: %s (sub-case %s %s)' % (
                    rank, c['np'], obs['exc'][0], obs['exc'][1], obs.get('sub'), obs.get('desc')), case=cc, tb=obs['exc'][2])
        if r['status'] == 'stuck':
            ctx.viol('no-progress', 'no progress for %ds twice on %d processes; ranks finished: %s; stacks %s' % (
                STALL, c['np'], r['finished'], 'unchanged over 5 s' if r['same'] else 'changing'),
                case=cc, stacks=r['stacks'])
        elif r['status'] == 'crash':
            ctx.viol('crash', 'worker died (rc %s) without reporting: %s' % (r['rc'], r['log'][-800:]), case=cc)
        if r.get('leftover'):
            ctx.viol('unmatched-message', 'message sent but never received: %s' % (r['leftover'],), case=cc)
        if r.get('slow'):
            ctx.count('cases_slow_first_time')
        if r['status'] == 'done':
            ctx.count('runs_on_%d_processes' % c['np'])
            if judge is not None:
                judge(ctx, cc, [r['ranks'][k] for k in range(c['np'])])
