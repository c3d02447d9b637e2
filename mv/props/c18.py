RULE = ('Random stable systems of order 1-6, 1-3 inputs and outputs, with and without D, real/complex, six kinds of sufficiently exciting inputs (cases with badly conditioned input are left out), 1D/2D/list data; reference is D, CB, CAB, ... Distinct by sizes, type, number of parameters and signal.')
REQUIRED = ['delayed_responses', 'shapes_checked', 'inputs_that_stop_early', 'scaled_channels_checked', 'markov_parameters_checked', 'errors_observed', 'outputs_in_other_units']


def cases(ctx):
    out = []
    for fn in ('okid_case',):
        out += [dict(fn='ex_num:' + fn, np=1, args=dict(i=i)) for i in range(ctx.n(3000, 60000))]
    return out
