RULE = ('Random bases (orthonormal, biorthonormal, oblique, plain), declared biorthonormal or not (also wrongly), no/1D/2D weights, real/complex/mixed types, different '
        'numbers of inputs, outputs and basis vectors; sequences of reduce_A/B/C and compute_model on one object for arrays and handles on 1-7 processes; time derivatives with '
        'int and float steps. Reference is the explicit inverse Gram formula. Distinct by processes, implementation, sizes, types, basis relation, weights, operation and step.')
REQUIRED = ['projections_in_other_units', 'reduced_A_checked', 'reduced_B_checked', 'reduced_C_checked', 'derivs_checked', 'runs_on_3_processes', 'runs_on_7_processes']


def cases(ctx):
    out = []
    for np_ in [1, 2, 3, 4, 5, 7] + ([6, 8] if ctx.thorough else []):
        n = ctx.n(300, 5000) if np_ == 1 else ctx.n(40, 600)
        out += [dict(fn='ex_gal:gal_case', np=np_, args=dict(i=i)) for i in range(n)]
        out += [dict(fn='ex_gal:deriv_case', np=np_, args=dict(i=i)) for i in range(n // 2)]
    return out
