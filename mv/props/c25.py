RULE = ('Sequences of 2-4 data sets (sequential and paired alternating, different sizes, weights fixed by the object) on one object with random '
        'order of decompositions, truncations, restored decompositions, modes and coefficients, each compared with a fresh object; Galerkin and ERA objects likewise. '
        'Distinct by class, step, order of operations and data dimensions.')
REQUIRED = ['reuse_steps', 'restored_into_used_objects', 'put_events', 'runs_on_2_processes']


def cases(ctx):
    out = []
    for np_ in (1, 2, 3):
        for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
            out += [dict(fn='ex_dec2:reuse_case', np=np_, args=dict(i=i, fam=fam)) for i in range(ctx.n(60 if np_ == 1 else 15, 1500 if np_ == 1 else 200))]
        out += [dict(fn='ex_dec2:reuse_vs_case', np=np_, args=dict(i=i)) for i in range(ctx.n(50 if np_ == 1 else 15, 800 if np_ == 1 else 200))]
    return out
