RULE = ('Simulation of random discrete systems (also slightly unstable, integer, complex) with initial state against direct recursion, impulse responses of given and default length, seeded random systems, balanced truncation of stable systems: Hankel singular values, Gramians, impulse response, error bound of truncations. Badly conditioned Gramians are redrawn. Distinct by sizes, types, length and order.')
REQUIRED = ['simulations_in_other_units', 'other_units_checked', 'simulations_checked', 'impulses_checked', 'random_systems_checked', 'balanced_systems_checked', 'truncations_checked']


def cases(ctx):
    out = []
    for fn in ('sim_case', 'rss_case', 'balance_case'):
        out += [dict(fn='ex_num:' + fn, np=1, args=dict(i=i)) for i in range(ctx.n(3000, 40000))]
    return out
