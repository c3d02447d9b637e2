from ..ex_dec2_judge import Judge
RULE = ('The same random data through POD, BPOD, DMD, TLS DMD, Galerkin projection and time derivatives on 1-8 processes, five delay profiles at every get, put and '
        'message, small sends forced to be synchronous, several memory limits, a third of them with progress reports; arrays compared bitwise between ranks, with numeric oracles, and with the run on one process. '
        'Some runs give each process linear algebra kernels that round differently. A rank that makes no progress for 60 s twice is a hang. Distinct by computation, processes, profile, limit and data.')
REQUIRED = ['cross_process_comparisons', 'compared_with_serial', 'mpi_calls', 'runs_on_3_processes', 'runs_on_7_processes', 'derivs_checked', 'computations_with_progress_reports', 'mixed_processor_decompositions']
PROFILES = ['none', 'one-slow', 'random', 'ramp', 'reverse-ramp']


def cases(ctx):
    out = []
    fams = ('POD', 'BPOD', 'DMD', 'TLS')
    n = ctx.n(12, 80)
    for fam in fams:
        out += [dict(fn='ex_dec2:par_case', np=1, args=dict(i=i, fam=fam, profile='none')) for i in range(n)]
    out += [dict(fn='ex_dec2:par_gal_case', np=1, args=dict(i=i, profile='none')) for i in range(2 * n)]
    for np_ in [2, 3, 4, 5, 7] + ([6, 8] if ctx.thorough else []):
        for fam in fams:
            for i in range(n):
                out.append(dict(fn='ex_dec2:par_case', np=np_, args=dict(i=i, fam=fam, profile='none')))
                if i % 4 == 0 or ctx.thorough:
                    out.append(dict(fn='ex_dec2:par_case', np=np_, args=dict(i=i, fam=fam, profile=PROFILES[1 + (i // 4 + np_) % 4])))
        for i in range(2 * n):
            out.append(dict(fn='ex_dec2:par_gal_case', np=np_, args=dict(i=i, profile=PROFILES[i % 5 if i % 3 == 0 else 0])))
    for np_ in [2, 3, 5] + ([4, 7] if ctx.thorough else []):
        for fam in fams:
            out += [dict(fn='ex_dec2:mixed_case', np=np_, args=dict(i=i, fam=fam), opts={'mixed_cpus': True}) for i in range(ctx.n(5, 40))]
    return out


judge = Judge()
