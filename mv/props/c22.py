RULE = ('First columns and last rows of lengths 1-11 (agreeing or not in the shared corner), types mixed, given as array, list, tuple, column or row; rectangular chunks; compared entry by entry with the definition. Distinct by lengths, chunk sizes, types and forms.')
REQUIRED = ['hankel_checked', 'hankel_chunks_checked']


def cases(ctx):
    out = []
    for fn in ('hankel_case',):
        out += [dict(fn='ex_num:' + fn, np=1, args=dict(i=i)) for i in range(ctx.n(3000, 50000))]
    return out
