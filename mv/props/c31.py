RULE = ('Inner-product arrays, symmetric ones, linear combinations (also of selected columns), decompositions, modes, coefficients, projections, derivatives of counted vectors for '
        'many list lengths, memory limits, 1-7 processes, 1-3 nodes; retrievals, inner products, scalar multiplications and vectors sent, in total and per process, are compared '
        'with budgets from the documented scaling. Distinct by operation, processes, share, lengths.')
REQUIRED = ['operations_metered', 'gets_seen', 'ips_seen', 'muls_seen', 'sent_seen', 'runs_on_1_processes', 'runs_on_3_processes', 'runs_on_4_processes']


def cases(ctx):
    out = []
    for np_ in [1, 2, 3, 4, 5, 7] + ([6, 8] if ctx.thorough else []):
        out += [dict(fn='ex_cost:vs_case', np=np_, args=dict(i=i)) for i in range(ctx.n(60 if np_ == 1 else 14, 400))]
        for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
            out += [dict(fn='ex_cost:dec_case', np=np_, args=dict(i=i, fam=fam)) for i in range(ctx.n(12 if np_ == 1 else 4, 80))]
        out += [dict(fn='ex_cost:gal_case', np=np_, args=dict(i=i)) for i in range(ctx.n(12 if np_ == 1 else 5, 80))]
    for np_, nodes in [(4, 2), (5, 2), (6, 3)]:
        out += [dict(fn='ex_cost:vs_case', np=np_, args=dict(i=1000 + i), opts={'nodes': nodes}) for i in range(ctx.n(6, 80))]
    return out
