"""Cross-rank oracles for ex_vs workloads (no modred import needed)."""


def judge_lin(ctx, case, obs):
    """Exactly-once: the put events of all ranks cover every output once."""
    if any(o['value'] is None for o in obs):
        return
    ns = obs[0]['value']['ns']
    got = sorted(p[1] for o in obs for p in o['value']['puts'] if p[0] == 's')
    ctx.count('exactly_once_checked', ns)
    if got != list(range(ns)):
        ctx.viol('lin-exactly-once', 'put events per output over all ranks: %s, expected each of 0..%d once' % (got, ns - 1), case=case)
