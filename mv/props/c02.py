from ..ex_vs_judge import judge_lin
RULE = ('Random bases, coefficients (2D/1D/list, real/complex/int, zeros), column selections (none, subset, shuffled, repeated, '
        'range, array, scalar), limits forcing several chunks, 1-7 processes with delays; put events of all ranks are merged '
        'and must cover each output exactly once. Distinct by (processes, handle, vector, kinds, sizes, selection, limit, delay).')
REQUIRED = ['outputs_in_other_units', 'outputs_checked', 'exactly_once_checked', 'put_events', 'runs_on_3_processes', 'errors_observed']
SIZES = [1, 2, 3, 4, 5, 7]


def cases(ctx):
    out = []
    for np_ in SIZES + ([6, 8] if ctx.thorough else []):
        n = ctx.n(150 if np_ == 1 else 70, 4000 if np_ == 1 else 1500)
        for i in range(n):
            out.append(dict(fn='ex_vs:lin_case', np=np_, args=dict(i=i)))
        for i in range(ctx.n(10, 100)):
            out.append(dict(fn='ex_vs:lin_case', np=np_, args=dict(i=100000 + i, delays=True)))
        for i in range(ctx.n(12, 100)):
            out.append(dict(fn='ex_vs:lin_misuse', np=np_, args=dict(i=i)))
    for i in range(ctx.n(15, 200)):
        out.append(dict(fn='ex_vs:lin_case', np=4, args=dict(i=200000 + i), opts=dict(nodes=2)))
    return out


def judge(ctx, case, obs):
    if case['fn'].endswith('lin_case'):
        judge_lin(ctx, case, obs)
