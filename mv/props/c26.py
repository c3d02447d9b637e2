RULE = ('A table of single misuses (wrong counts, shapes, sizes, missing inner products, missing vectors, invalid options, parallel use of '
        'array functions) of every public entry point with random data, serial and on 2-4 processes; the type of the error and the absence '
        'of puts are the oracle. Distinct by misuse and number of processes.')
REQUIRED = ['misuses_checked', 'errors_observed', 'runs_on_3_processes']


def cases(ctx):
    out = [dict(fn='ex_misuse:serial_case', np=1, args=dict(i=i)) for i in range(ctx.n(40, 600))]
    for np_ in [1, 2, 3, 4]:
        k = 4 if np_ == 1 else 1
        out += [dict(fn='ex_misuse:handles_case', np=np_, args=dict(i=i)) for i in range(ctx.n(12 * k, 150 * k))]
        for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
            out += [dict(fn='ex_misuse:modes_case', np=np_, args=dict(i=i, fam=fam)) for i in range(ctx.n(6 * k, 60 * k))]
        if np_ > 1:
            out += [dict(fn='ex_misuse:parallel_case', np=np_, args=dict(i=i)) for i in range(ctx.n(5, 40))]
    return out
