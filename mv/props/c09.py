RULE = ('Arrays of 16 types, 8 memory layouts, 1D/2D including single rows, columns and elements, magnitudes from subnormal to maximal, infinities and signed zeros, 7 single-character delimiters: saved, loaded, compared bit for bit, also against the documented file format; signal files with 1-30 samples and 1-4 channels, and sets of files of which one (any position) is inconsistent. Distinct by type, shape, magnitude, layout, delimiter.')
REQUIRED = ['roundtrips', 'signal_files', 'times_in_other_units', 'errors_observed', 'signals_with_repeated_lines']


def cases(ctx):
    out = []
    for fn in ('text_case', 'signals_case'):
        out += [dict(fn='ex_num:' + fn, np=1, args=dict(i=i)) for i in range(ctx.n(3000, 40000))]
    return out
