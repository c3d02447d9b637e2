"""Writes MANIFEST.json from the table below (and checks it against properties.jsonl)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = 'runtime monitoring: '
T = {
 'C01': (RM + 'logged handles and inner products, numeric oracle per call, serial and MPI with delays', 'Random vectors, handle and vector classes, counts, memory limits and process counts; entries compared with inner products computed directly.'),
 'C02': (RM + 'event log of puts on every process, conservation (exactly one put) and numeric oracle', 'Random coefficients, shapes, column selections, memory limits, process counts.'),
 'C03': (RM + 'online counter of live vector objects per process, time-aligned over processes of a node', 'Counts every instrumented vector object; a fixed allowance of 4 vectors per process above the share is granted for temporaries and arriving messages.'),
 'C04': (RM + 'MPI runs under injected delays and synchronous sends, progress watchdog, unmatched-message probe, digests compared over ranks and with serial runs', 'Hang means no progress for 40 s, confirmed by a rerun; schedules are sampled by delay profiles.'),
 'C05': (RM + 'offline partition oracle over task assignments', 'Exhaustive small task/worker counts for uniform weights, random weights beyond; real communicator sizes and simulated ones.'),
 'C06': (RM + 'MPI runs of non-commutative reductions against an ordered fold', 'All process counts 1-8 (quick up to 8 processes), non-commutative associative operations, random roots and types.'),
 'C07': (RM + 'bitwise images of every argument before and after each call', 'Arrays in several layouts, lists, vectors in memory whose handles hand out the stored object itself, files.'),
 'C08': (RM + 'online reference model of handles over random get/put histories', 'Histories with shared, nested, rewritten bases and scales of all handle classes and user subclasses.'),
 'C09': (RM + 'round-trip oracle on bits over generated arrays and signal files', 'All layouts, extreme values, types; the loaded array must equal the saved one bit for bit.'),
 'C10': (RM + 'recording put/get stand-ins per process and digests of recomputed results', 'All classes, one-mode cases, text and memory storage, restoring on other process counts.'),
 'C11': (RM + 'numeric oracle (orthonormality, optimality, SVD reference) on every decomposition observed', 'Well-conditioned random data with known weighted singular values; tolerance 1e-7 relative.'),
 'C12': (RM + 'numeric oracle (balancing, biorthogonality, Hankel SVD) on every decomposition observed', 'Impulse responses of random stable systems, several inputs and outputs, weights; tolerance 1e-7 relative.'),
 'C13': (RM + 'numeric oracle (eigen equation of the data-fitting map, adjoint biorthogonality, coefficients)', 'Random data whose DMD is well conditioned; tolerance 1e-6 relative to conditioning.'),
 'C14': (RM + 'numeric oracle: DMD of jointly projected data computed independently', 'Random data whose TLS-DMD is well conditioned.'),
 'C15': (RM + 'count oracle over tolerances placed in and between spectral gaps', 'Spectra are known by construction; thresholds away from eigenvalues. One known finding: direct methods compare tolerances with singular values.'),
 'C16': (RM + 'selection oracle: each requested mode against the all-modes run', 'Random orders, repetitions, subsets, index types, processes.'),
 'C17': (RM + 'Markov-parameter and block-Hankel oracle on models built from generated systems', 'Random stable systems, block sizes, sampling formats, repeated use.'),
 'C18': (RM + 'oracle: exact Markov parameters of the generating system', 'Noise-free data of finite-memory observers within documented lengths.'),
 'C19': (RM + 'numeric oracle of the oblique projection and derivatives, logged handles, MPI', 'Random bases (orthonormal, oblique, biorthonormal), weights, histories of calls on one object.'),
 'C20': (RM + 'algebraic law monitor (Hermitian, sesquilinear, positive, quadrature reference)', 'Random grids, dimensions, weights; laws checked on every observed inner product.'),
 'C21': (RM + 'residual/order oracle on wrapped decompositions', 'Random, defective, rank deficient, definite and scaled arrays.'),
 'C22': (RM + 'index oracle on every entry of Hankel arrays', 'All small shapes plus random larger, chunks, lists, mixed types.'),
 'C23': (RM + 'independent simulation, Gramian and error-bound oracle', 'Random stable systems real and complex; balancing residuals scaled by conditioning.'),
 'C24': (RM + 'verdicts of the sanity check on generated valid and deliberately broken vector spaces', 'Valid spaces must be accepted at any magnitude and precision; each defect class must be rejected.'),
 'C25': (RM + 'differential runs: reused object against a fresh one over histories', 'Sequences of data sets, restores and options on one object.'),
 'C26': (RM + 'table of misuses with an observer for exceptions and puts', 'Type of error and absence of any put; every public entry point.'),
 'C27': (RM + 'file-descriptor capture on every process, differential runs at verbosity 0 and 1', 'All classes and calls, warning-triggering limits, progress interval down to zero.'),
 'C28': (RM + 'fault injection at chosen callbacks, exception identity and retry oracle', 'Every callback kind at first, last and random positions; on several processes only failures common to all.'),
 'C30': (RM + 'happens-before check over merged put/return events of all processes, immediate reads, injected slow writers', 'Timings are sampled (one slow writer, ramps, random); files on one machine.'),
 'C31': (RM + 'event counters on every vector against budgets from the documented scaling', 'Budgets are upper bounds with an allowance of 4 events per process and operation; counts, not seconds.'),
 'C32': (RM + 'offline oracle over recorded workflow results: Markov parameters and spectra against the simulated system and between methods', 'Systems of up to 6 states, well-separated Hankel singular values, tolerances scaled with conditioning.'),
 'C33': (RM + 'accuracy oracle over results for data of known, widely spread spectrum', 'Serial, BPOD also on 3 processes; tolerances 1e-12..1e-13 of the largest value.'),
 'C29': (RM + 'contract oracle on helper calls with recorded callbacks per process', 'Random arguments of many types.'),
}
NA = []
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
ids = [p['id'] for p in props]
assert sorted(T) + [] == sorted(i for i in ids if i not in [n['property'] for n in NA]), (sorted(T), ids)
checks = []
for i in ids:
    if i not in T:
        continue
    tech, note = T[i]
    checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python /verif/bin/check.py ' + i,
                       thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python /verif/bin/check.py ' + i,
                       evidence_file='evidence/%s.json' % i, technique=tech, level='exploration',
                       level_note=note + ' Sampled executions judged by an oracle: no exhaustiveness claimed; trusts numpy/scipy, MPICH and the monitor.'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, mpi4py"', checks=checks, not_applicable=NA,
         notes='No hooks in /repo: the monitor observes user-supplied handles, vectors, inner products, put/get functions and the module-level '
               'communicator, all of which it supplies. Known findings and repairs: known_findings.txt. Checks need /opt/venv/bin/python.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
