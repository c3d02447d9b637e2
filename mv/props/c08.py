RULE = ('Random histories of gets and puts on up to nine handles (in memory, text real/complex, pickle, user subclasses with and without '
        'equality) that share files, bases, chains of bases and scales, every get compared with a recursive reference map; results are '
        'overwritten by the caller in between. Distinct by vector family, handle kind, depth of the base chain, scale and the last actions.')
REQUIRED = ['gets', 'gets_with_base', 'puts', 'results_overwritten']


def cases(ctx):
    out = [dict(fn='ex_handle:history_case', np=1, args=dict(i=i)) for i in range(ctx.n(700, 12000))]
    out += [dict(fn='ex_handle:text_vec_case', np=1, args=dict(i=i)) for i in range(ctx.n(100, 1500))]
    out += [dict(fn='ex_handle:eq_case', np=1, args=dict(i=i)) for i in range(ctx.n(150, 1500))]
    return out
