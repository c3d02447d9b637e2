RULE = ('Random lists of handles (virtual, in-memory, text, pickle; custom vectors and arrays), kinds real/complex/mixed/int/'
        'sparse, weights, list lengths around multiples of the number of processes, limits forcing several chunks; '
        'each run on 1-7 processes with and without delays. Distinct by (processes, handle, vector, kind, rows, cols, limit, delay); '
        'trivial 1x1 cases are not counted.')
REQUIRED = ['library_inner_products', 'entries_in_other_units', 'ip_entries_checked', 'symm_entries_checked', 'inner_product_calls', 'runs_on_3_processes']
SIZES = [1, 2, 3, 4, 5, 7]


def cases(ctx):
    out = []
    for np_ in SIZES + ([6, 8] if ctx.thorough else []):
        n = ctx.n(150 if np_ == 1 else 70, 4000 if np_ == 1 else 1500)
        for i in range(n):
            out.append(dict(fn='ex_vs:ip_case', np=np_, args=dict(i=i)))
        for i in range(ctx.n(10, 100)):
            out.append(dict(fn='ex_vs:ip_case', np=np_, args=dict(i=100000 + i, delays=True)))
    for i in range(ctx.n(15, 200)):
        out.append(dict(fn='ex_vs:ip_case', np=4, args=dict(i=200000 + i), opts=dict(nodes=2)))
    return out
