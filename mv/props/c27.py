RULE = ('Every class and call is run twice from the same random state, with verbosity 0 and 1, with file descriptors 1 and 2 of every process '
        'captured around each call, over memory limits that trigger warnings and progress intervals down to zero. Any byte at verbosity 0, any '
        'byte of another process than zero at verbosity 1, and any bit of difference between the results is a violation. Distinct by '
        'configuration.')
REQUIRED = ['operations_captured', 'silent_operations', 'verbose_operations_that_wrote', 'other_ranks_watched', 'results_compared', 'runs_on_3_processes']
ASSUMPTIONS = ['ordinary sizes: the array-based functions print an ungated warning for 2D weights larger than 500 (they have no verbosity)',
               'the handles and inner products of the monitor print nothing']


def cases(ctx):
    out = []
    for np_ in [1, 2, 3, 5]:
        k = 2 if np_ == 1 else 1
        out += [dict(fn='ex_quiet:vs_case', np=np_, args=dict(i=i)) for i in range(ctx.n(20 * k, 400 * k))]
        out += [dict(fn='ex_quiet:gal_case', np=np_, args=dict(i=i)) for i in range(ctx.n(6 * k, 100 * k))]
        out += [dict(fn='ex_quiet:era_case', np=np_, args=dict(i=i)) for i in range(ctx.n(6 * k, 100 * k))]
        for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
            out += [dict(fn='ex_quiet:dec_case', np=np_, args=dict(i=i, fam=fam)) for i in range(ctx.n(5 * k, 80 * k))]
    return out
