RULE = ('Random stable systems are simulated, and snapshots, modes, advanced modes, derivatives and models go through memory, pickle or text files (with or without base vector and scale) '
        'from stage to stage: BPOD to Galerkin projection, ERA, OKID to ERA, POD to projection, DMD, balanced truncation, with handles on 1-5 processes and with arrays. Markov parameters, '
        'singular values and eigenvalues of the results are compared with those of the system and with each other. Distinct by processes, dimensions, storage and order.')
REQUIRED = ['workflows_completed', 'bpod_era_models_compared', 'full_order_models', 'truncated_models', 'continuous_models', 'pod_models', 'dmd_spectra', 'array_models', 'signal_files',
            'identified_models', 'balanced_models', 'bpod_against_balanced_truncation', 'runs_on_1_processes', 'runs_on_3_processes']


def cases(ctx):
    out = [dict(fn='ex_chain:chain_case', np=1, args=dict(i=i)) for i in range(ctx.n(150, 3000))]
    for np_ in [2, 3, 5] + ([4, 7] if ctx.thorough else []):
        out += [dict(fn='ex_chain:chain_case', np=np_, args=dict(i=i)) for i in range(ctx.n(20, 300))]
    return out
