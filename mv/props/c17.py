RULE = ('Random systems of order 1-5 with 1-3 inputs and outputs, sampling P=1-4, real/complex, Hankel sizes by default, by constructor, by call, both, or only one of them, odd and even sample counts, 1D/2D/3D/list input: impulse response at all times, Gramians of the model, Hankel blocks bitwise against an independent assembly, too short data; conversion of sampled data bitwise. Systems with nearly deficient Hankel arrays are redrawn. Distinct by sizes, P, type, counts and way of giving them.')
REQUIRED = ['other_units_checked', 'markov_parameters_checked', 'hankel_arrays_checked', 'sampled_checked', 'errors_observed']


def cases(ctx):
    out = []
    for fn in ('era_case', 'era_hankel_case', 'sampled_case'):
        out += [dict(fn='ex_num:' + fn, np=1, args=dict(i=i)) for i in range(ctx.n(3000, 40000))]
    return out
