RULE = ('Sequences of inner-product arrays, symmetric ones and linear combinations of up to hundreds of counted vector objects, decompositions, '
        'modes, coefficients and projections, for many per-node limits (including ones too small) on 1-7 processes and 1-3 nodes; the '
        'peak number of vectors alive per process is the oracle. Distinct by operation, limit, list lengths, processes and nodes, counted '
        'only if more vectors are involved than the limit allows.')
REQUIRED = ['operations_watched', 'operations_beyond_limit', 'vectors_created', 'runs_on_3_processes', 'put_events']


def cases(ctx):
    out = []
    for np_ in [1, 2, 3, 4, 5, 7] + ([6, 8] if ctx.thorough else []):
        k = 4 if np_ == 1 else 1
        out += [dict(fn='ex_mem:mem_case', np=np_, args=dict(i=i)) for i in range(ctx.n(25 * k, 300 * k))]
        if np_ in (1, 2, 3, 5):
            for fam in ('POD', 'BPOD', 'DMD', 'TLS'):
                out += [dict(fn='ex_mem:mem_dec_case', np=np_, args=dict(i=i, fam=fam)) for i in range(ctx.n(4 * k, 60 * k))]
            out += [dict(fn='ex_mem:mem_gal_case', np=np_, args=dict(i=i)) for i in range(ctx.n(6 * k, 80 * k))]
    for np_, nodes in [(4, 2), (3, 2), (6, 3), (2, 2)]:
        out += [dict(fn='ex_mem:mem_case', np=np_, args=dict(i=1000 + i), opts={'nodes': nodes}) for i in range(ctx.n(20, 250))]
    return out


def judge(ctx, case, obs):
    for o in obs:
        for op, x in (o['value'] or {}).items():
            name = 'max_vectors_above_share_' + op
            ctx.counts[name] = max(ctx.counts.get(name, 0), x)
