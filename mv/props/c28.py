RULE = ('Every operation is run once while its callbacks (gets, puts, inner products, array saving and loading) are counted, then again with one '
        'chosen callback raising a unique exception object of a random type; identity of the exception that arrives, images of the inputs, and '
        'equality of a retry on the same object with the reference are the oracle. Distinct by operation, callback, position and type.')
REQUIRED = ['faults_injected', 'failures_after_other_data', 'retries', 'results_compared', 'runs_on_3_processes']
ASSUMPTIONS = ['on several processes the failing callback is the first get or inner product of the operation, which every process makes; a failure '
               'on one process alone is outside the property']


def cases(ctx):
    out = [dict(fn='ex_fault:handle_case', np=1, args=dict(i=i)) for i in range(ctx.n(60, 1500))]
    out += [dict(fn='ex_fault:path_case', np=1, args=dict(i=i)) for i in range(ctx.n(10, 100))]
    out += [dict(fn='ex_fault:era_case', np=1, args=dict(i=i)) for i in range(ctx.n(15, 200))]
    for np_ in [1, 2, 3]:
        k = 5 if np_ == 1 else 1
        out += [dict(fn='ex_fault:vs_case', np=np_, args=dict(i=i)) for i in range(ctx.n(10 * k, 150 * k))]
        out += [dict(fn='ex_fault:gal_case', np=np_, args=dict(i=i)) for i in range(ctx.n(8 * k, 120 * k))]
        for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
            out += [dict(fn='ex_fault:dec_case', np=np_, args=dict(i=i, fam=fam)) for i in range(ctx.n(5 * k, 80 * k))]
    return out
