"""Cross-run oracle for C04 (no modred import needed)."""
import numpy as np


def match_eigs(a, b):
    b = list(b)
    worst = 0.
    for x in a:
        dist = [abs(x - y) for y in b]
        j = int(np.argmin(dist))
        worst = max(worst, dist[j])
        b.pop(j)
    return worst


class Judge(object):
    """Compares every parallel run with the run on one process (parent side)."""

    def __init__(self):
        self.ref = {}

    def __call__(self, ctx, case, obs):
        key = (case['fn'], case['args'].get('fam'), case['args']['i'])
        if obs[0]['value'] is None:
            return
        if case['np'] == 1 and case['args']['profile'] == 'none':
            self.ref[key] = obs[0]['value']
            return
        self.compare(ctx, case, obs, key)

    def compare(self, ctx, case, obs, key):
        ref = self.ref.get(key)
        if ref is None:
            return
        for o in obs:
            v = o['value']
            if v is None:
                continue
            ctx.count('compared_with_serial')
            a, b = v[2], ref[2]
            s = max(1e-300, np.abs(b).max())
            if a.shape != b.shape or match_eigs(a, b) > 1e-6 * s:
                ctx.viol('par-serial-differs', '%s on %d processes gives %s, on one %s' % (v[1], case['np'], a, b), case=case)
                return
            for name in ref[3]:
                x, y = v[3][name], ref[3][name]
                if x.shape != y.shape or np.abs(x - y).max() > 1e-8 * max(1e-300, np.abs(y).max()):
                    ctx.viol('par-serial-differs', '%s of %s on %d processes differs from one process' % (name, v[1], case['np']), case=case)
                    return
