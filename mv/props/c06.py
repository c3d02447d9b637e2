RULE = ('Sequences of reduce/allreduce/scan/exscan without synchronization between them on 1-12 processes, on the package communicator, on fresh ones and on split and '
        'reordered sub-communicators; 22 operations (non-commutative: strings, lists, user objects, matrix product, affine maps, permutations, projections; MINLOC/MAXLOC '
        'with ties; messages to 320 kB), every root, delays; reference is the rank-ordered fold of all contributions. Distinct by sizes, communicator, operation, call and root.')
REQUIRED = ['reduce_checked', 'allreduce_checked', 'scan_checked', 'exscan_checked', 'runs_on_3_processes', 'runs_on_7_processes', 'runs_on_12_processes']


def cases(ctx):
    out = []
    for np_ in [1, 2, 3, 4, 5, 6, 7, 8, 12] + ([9, 11, 13, 16] if ctx.thorough else []):
        out.append(dict(fn='ex_par:reduction_roots', np=np_, args={}))
        out += [dict(fn='ex_par:reduction_case', np=np_, args=dict(i=i)) for i in range(ctx.n(60, 800))]
    return out
