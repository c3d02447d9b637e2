RULE = ('find_assignments on 1-16 real processes: every number of equal tasks up to 40 (thorough 200), random task types (including falsy, repeated and identity-only '
        'tasks) and 14 kinds of weights (zeros, ties, extremes to 1e12). Results gathered from all processes. Distinct by processes, number and kind of tasks, kind of weights; '
        'less than two tasks are not counted.')
REQUIRED = ['assignments_checked', 'uniform_balance_checked', 'weight_bounds_checked', 'runs_on_3_processes', 'runs_on_16_processes']


def cases(ctx):
    out = []
    for np_ in [1, 2, 3, 4, 5, 6, 7, 8, 12, 16] + ([9, 11, 13, 15, 24] if ctx.thorough else []):
        out.append(dict(fn='ex_par:assign_uniform', np=np_, args=dict(lo=0, hi=ctx.n(41, 201))))
        out += [dict(fn='ex_par:assign_case', np=np_, args=dict(i=i)) for i in range(ctx.n(250, 3000))]
    return out
