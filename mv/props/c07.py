RULE = ('Bitwise images (values, type, shape, strides, container contents, vectors in memory behind handles, put counts) of every argument '
        'before and after calls of all public functions and classes, in C/Fortran/strided layouts, as lists, with vectors of four types, '
        'on 1-4 processes. Distinct by entry point, vector type, data kind and dimensions.')
REQUIRED = ['calls_completed', 'arguments_compared', 'calls_guarded', 'lin_combines', 'runs_on_3_processes']


def cases(ctx):
    out = []
    for f, a, b in (('arrays_case', 80, 1500), ('utils_case', 60, 800), ('files_case', 20, 300)):
        out += [dict(fn='ex_pure:' + f, np=1, args=dict(i=i)) for i in range(ctx.n(a, b))]
    for np_ in [1, 2, 3, 4]:
        k = 4 if np_ == 1 else 1
        out += [dict(fn='ex_pure:handles_case', np=np_, args=dict(i=i)) for i in range(ctx.n(40 * k, 500 * k))]
        out += [dict(fn='ex_pure:gal_handles_case', np=np_, args=dict(i=i)) for i in range(ctx.n(10 * k, 120 * k))]
        for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
            out += [dict(fn='ex_pure:classes_case', np=np_, args=dict(i=i, fam=fam)) for i in range(ctx.n(6 * k, 80 * k))]
    return out
