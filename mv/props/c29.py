RULE = ('Random arguments of every shape and type to the small helpers, file listings of random directories, standard bases, and the broadcast '
        'helpers on 1-7 processes with counted calls, against independent reimplementations. Distinct by helper and argument shape/type.')
REQUIRED = ['oracle_checks', 'evaluations', 'handle_pairs_compared', 'runs_on_3_processes']


def cases(ctx):
    out = [dict(fn='ex_num:helper_case', np=1, args=dict(i=i)) for i in range(ctx.n(200, 4000))]
    out += [dict(fn='ex_num:vector_class_case', np=1, args=dict(i=i)) for i in range(ctx.n(60, 800))]
    for np_ in [1, 2, 3, 4, 5, 7]:
        out += [dict(fn='ex_par:bcast_case', np=np_, args=dict(i=i)) for i in range(ctx.n(25, 300))]
    return out
