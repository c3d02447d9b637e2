RULE = ('Linear combinations, derivatives, modes of all kinds of all handle classes, every put method of all classes with outputs in files; writing processes are slowed down '
        '(one, ramps, random). Offline ordering check on merged logs: no put ends after the first return of the call on any process; every process reads every output right on '
        'return. Distinct by call, processes, outputs and set of writing processes.')
REQUIRED = ['returns_compared', 'puts_ordered', 'reads_on_return', 'runs_on_2_processes', 'runs_on_3_processes', 'runs_on_5_processes']


def cases(ctx):
    out = []
    for np_ in [1, 2, 3, 5] + ([4, 7, 8] if ctx.thorough else [4]):
        for i in range(ctx.n(12 if np_ > 1 else 4, 150)):
            out.append(dict(fn='ex_order:lin_case', np=np_, args=dict(i=i)))
        for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
            for i in range(ctx.n(2 if np_ > 1 else 1, 25)):
                out.append(dict(fn='ex_order:dec_case', np=np_, args=dict(i=i, fam=fam)))
        for i in range(ctx.n(3 if np_ > 1 else 1, 25)):
            out.append(dict(fn='ex_order:gal_case', np=np_, args=dict(i=i)))
    return out
