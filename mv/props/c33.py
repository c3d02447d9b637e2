RULE = ('Data whose singular values span 9-11 decades (tall, wide, square; no, 1D, 2D weights; real, complex), systems with almost invisible states and smooth, ill-conditioned '
        'input signals: singular values, modes, models and Markov parameters of the methods that do not square the data are compared with the known ones to near machine precision. '
        'Distinct by dimensions, kind, weights.')
REQUIRED = ['pod_modes_resolved', 'dmd_values_resolved', 'tls_values_resolved', 'singular_values_resolved', 'bpod_values_resolved', 'era_values_resolved', 'ill_conditioned_identifications']


def cases(ctx):
    out = [dict(fn='ex_acc:pod_case', np=1, args=dict(i=i)) for i in range(ctx.n(150, 4000))]
    out += [dict(fn='ex_acc:system_case', np=1, args=dict(i=i)) for i in range(ctx.n(100, 3000))]
    out += [dict(fn='ex_acc:system_case', np=3, args=dict(i=i)) for i in range(ctx.n(10, 200))]
    out += [dict(fn='ex_acc:okid_case', np=1, args=dict(i=i)) for i in range(ctx.n(60, 2000))]
    return out
