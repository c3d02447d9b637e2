RULE = ('Quadrature on 1-4 dimensional grids (uniform, random, clustered, integer, negative; single points) against tensor-product weights, real/complex/integer/mixed vectors, shape mismatches of every axis, invalid grids; array spaces with nine forms of weights against explicit products, selections of coefficient columns, mismatches. Distinct by shapes, kinds and weights.')
REQUIRED = ['several_grids_checked', 'quadratures_checked', 'array_ip_checked', 'array_lin_checked', 'arrays_in_other_units', 'errors_observed']


def cases(ctx):
    out = []
    for fn in ('trapz_case', 'vsa_case'):
        out += [dict(fn='ex_num:' + fn, np=1, args=dict(i=i)) for i in range(ctx.n(3000, 50000))]
    return out
