RULE = ('Valid spaces (four vector types, integer to complex, one to 2000 elements, magnitudes 1e-6 to 1e8, weighted, trapezoidal and plain '
        'inner products, all handle kinds) must pass unchanged through every class; twenty-one arithmetic faults of at least one percent, at '
        'random magnitudes, must raise ValueError. Distinct by class, fault or vector type, handle, and magnitude.')
REQUIRED = ['valid_accepted', 'faults_checked', 'no_inner_product_checked', 'runs_on_3_processes']


def cases(ctx):
    out = []
    for np_ in [1, 2, 3]:
        k = 8 if np_ == 1 else 1
        out += [dict(fn='ex_sanity:valid_case', np=np_, args=dict(i=i)) for i in range(ctx.n(60 * k, 700 * k))]
        out += [dict(fn='ex_sanity:broken_case', np=np_, args=dict(i=i)) for i in range(ctx.n(12 * k, 120 * k))]
    return out
