RULE = ('BPOD of random data: tall, wide, square and single-vector, full and deficient rank, real/complex, no/1D/2D weights, sequential or paired, all truncations; '
        'array functions (serial) and handle class (1-5 processes). Distinct by implementation and all data dimensions and kinds.')
REQUIRED = ['decompositions_with_selected_modes', 'handle_decompositions', 'array_decompositions', 'put_events', 'inner_product_calls', 'values_compared', 'truncated_by_tolerance', 'big_decompositions']
SIZES = [2, 3, 4, 5]


def cases(ctx):
    out = [dict(fn='ex_dec:dec_case', np=1, args=dict(i=i, fam='BPOD')) for i in range(ctx.n(300, 6000))]
    for np_ in SIZES:
        out += [dict(fn='ex_dec:dec_case', np=np_, args=dict(i=i, fam='BPOD')) for i in range(ctx.n(25, 400))]
    out += [dict(fn='ex_dec:big_case', np=1, args=dict(i=i, fam='BPOD')) for i in range(ctx.n(8, 80))]
    out += [dict(fn='ex_dec:big_case', np=3, args=dict(i=i, fam='BPOD')) for i in range(ctx.n(1, 6))]
    return out
