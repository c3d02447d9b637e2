RULE = ('Decompositions of random data (a third with a single mode) of every handle class put through a recording put function '
        '(memory, binary file, text) on 1-4 processes, restored into a new object with the get methods; Galerkin models and ERA likewise. '
        'Distinct by class, processes, storage and data dimensions.')
REQUIRED = ['array_puts', 'array_gets', 'stored_arrays_checked', 'restores_checked', 'arbitrary_contents_restored', 'runs_on_3_processes']


def cases(ctx):
    out = []
    for np_ in [1, 2, 3, 4]:
        for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
            out += [dict(fn='ex_dec2:save_case', np=np_, args=dict(i=i, fam=fam)) for i in range(ctx.n(60 if np_ == 1 else 20, 1200 if np_ == 1 else 250))]
        out += [dict(fn='ex_dec2:save_gal_case', np=np_, args=dict(i=i)) for i in range(ctx.n(40 if np_ == 1 else 15, 400))]
    out += [dict(fn='ex_dec2:save_era_case', np=1, args=dict(i=i)) for i in range(ctx.n(30, 400))]
    return out
