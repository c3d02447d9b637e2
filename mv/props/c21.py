RULE = ('Arrays 1x1 to 12x12 with known spectra (repeated, zero, indefinite, noisy, negative, integer), real/complex, default/absolute/relative/both/no tolerances placed around the spectrum, positive definite flag, non-symmetric arrays with distinct eigenvalues and both scale choices; factors judged by residuals and orthonormality. Counts are judged away from roundoff of the threshold. Distinct by function, size, kind, tolerance and count.')
REQUIRED = ['non_normal_arrays', 'svd_checked', 'eigh_checked', 'eig_biorthog_checked', 'positive_definite_checked', 'complex_arrays_with_special_eigenvalues']


def cases(ctx):
    out = []
    for fn in ('svd_case', 'eigh_case', 'eig_case'):
        out += [dict(fn='ex_num:' + fn, np=1, args=dict(i=i)) for i in range(ctx.n(3000, 50000))]
    return out
