RULE = ('Selections of mode indices (subset, shuffled, sorted, array, range, reversed, repeated, single number) for every mode family, '
        'array function and handle class on 1-4 processes, compared with the same columns of a full computation. Distinct by implementation, family, count and selection.')
REQUIRED = ['selections_checked', 'put_events', 'runs_on_3_processes']


def cases(ctx):
    out = []
    for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
        out += [dict(fn='ex_dec2:select_case', np=1, args=dict(i=i, fam=fam)) for i in range(ctx.n(80, 2000))]
        for np_ in (2, 3, 4):
            out += [dict(fn='ex_dec2:select_case', np=np_, args=dict(i=i, fam=fam)) for i in range(ctx.n(20, 300))]
    return out
