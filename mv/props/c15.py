RULE = ('Data with known gapped spectra; atol, rtol (absent, tiny, between any two values, several at once) and caps, tolerances above all values or exactly equal to a value; paired and sequential data; all array functions, '
        'handle classes with repeated truncation of one object, util.svd and util.eigh (definite or not). Distinct by implementation, sizes, expected count, options given.')
REQUIRED = ['truncations_checked', 'repeated_truncations', 'nothing_kept', 'exact_tolerances_checked', 'runs_on_2_processes']


def cases(ctx):
    out = []
    for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
        out += [dict(fn='ex_dec2:trunc_case', np=1, args=dict(i=i, fam=fam)) for i in range(ctx.n(250, 4000))]
        out += [dict(fn='ex_dec2:trunc_none_case', np=1, args=dict(i=i, fam=fam)) for i in range(ctx.n(20, 300))]
        out += [dict(fn='ex_dec2:trunc_none_case', np=2, args=dict(i=i, fam=fam)) for i in range(ctx.n(3, 40))]
        for np_ in (2, 3):
            out += [dict(fn='ex_dec2:trunc_case', np=np_, args=dict(i=i, fam=fam)) for i in range(ctx.n(15, 200))]
    for np_, n in ((1, ctx.n(400, 6000)), (2, ctx.n(20, 200))):
        out += [dict(fn='ex_dec2:trunc_exact_case', np=np_, args=dict(i=i)) for i in range(n)]
    out += [dict(fn='ex_dec2:trunc_util_case', np=1, args=dict(i=i)) for i in range(ctx.n(500, 8000))]
    return out
