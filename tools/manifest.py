"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'contract-based deductive verification'
CLAIM = {
 'C01': ('verification conditions generated from the C sources (symbolic execution to stage normal form), discharged against written contracts by exact polynomial arithmetic and z3', 'proof',
         'All 48 compiled forward configurations, all grid sizes, shots, times, threads; real arithmetic; the forward drivers that call them are under contract too (C13, C14 cover all their configurations). Bounded runs of kernels and of the public functions only replay and stand in.'),
 'C02': ('as C01; the backward contract is the mechanically derived transpose of the forward contract', 'proof',
         'All 60 compiled backward configurations (including the Born scattered-only pass) and the autograd drivers around them; real arithmetic.'),
 'C03': ('one in-bounds / in-own-slab obligation per array access and one disjointness obligation per written array, discharged by z3', 'proof',
         'All 108 compiled configurations; lifts per-digit bounds to flat offsets by the mixed-radix lemma; integers mathematical; the extents it relies on are obligations on the drivers, proved here as well.'),
 'C04': ('the snapshot calls of the compiled propagators, the snapshot functions themselves and the drivers that allocate the storage executed symbolically against their contracts; discharged by exact polynomial arithmetic and z3', 'proof',
         'All steps, shots, sampling intervals, chunkings, shapes; 108 compiled configurations; storage modes and compression enumerated; the names and removal of temporary files only by bounded runs (labelled bounded); file system trusted.'),
 'C05': ('simple_compress.c executed symbolically (block maximum recognised as a reduction, quantisation as truncation); layout, coverage and error obligations per cell discharged by exact arithmetic and z3', 'proof',
         'All shapes in 1 to 3 dimensions and all values, both types; real arithmetic (overflow and rounding only in bounded runs); CPU functions.'),
 'C06': ('the Python operator builders executed symbolically at a generic index, each result compared with the exact Taylor stencil by exact polynomial arithmetic; obligations discharged by z3', 'proof',
         'All accuracies, dimensions and grid sizes of the Python operators and the composite PML operators; real arithmetic; torch indexing primitives have assumed contracts, tied to real torch by a bounded conformance run.'),
 'C07': ('the Python step-size functions executed symbolically against their contract; obligations discharged by z3 (nonlinear real arithmetic)', 'proof',
         'All spacings, time steps, velocities and c_max, one to three dimensions; real arithmetic (sqrt, ceil exact); bounded conformance run replays.'),
 'C08': ('setup_pml and set_pml_profiles executed symbolically at a generic index; zero, range, sampling and symmetry contracts discharged by exact rational arithmetic and z3', 'proof',
         'All widths, sizes, spacings, steps, velocities and frequencies, 1 to 3 dimensions, every accuracy; real arithmetic with exp axiomatised; symmetry of the grid profiles composed from two contracts.'),
 'C09': ('extract_survey executed symbolically on arbitrary surveys; shape, value, location and rejection obligations discharged by z3 (quantified facts by instantiation)', 'proof',
         'All sizes, paddings, PML widths, origins, location sets, 1 to 3 dimensions; one source and one receiver tensor; locations distinct (repeats: C10); torch operations have assumed contracts tied to real torch by a bounded conformance run.'),
 'C10': ('extract_locations and the location checks executed symbolically; flat index, injectivity (mixed-radix lemma) and rejection obligations discharged by z3', 'proof',
         'All extents, paddings and location sets, 1 to 3 dimensions; locations ignored in all coordinates or none.'),
 'C11': ('resampling functions executed symbolically over an uninterpreted Fourier transform; per-bin amplitude, lengths and inputs discharged by exact arithmetic and z3', 'proof',
         'all lengths, ratios, fractions, shifts; the transform itself is trusted'),
 'C12': ('Hicks weight functions executed symbolically at a generic location and cell (cache included); windowed-sinc values, cell sets and free-surface images discharged by exact arithmetic and z3', 'proof',
         'All real locations per dimension, half-widths 1 to 10; assembly over points and shots bounded to 40 patterns with symbolic weights; real arithmetic (rounding only in the bounded conformance runs).'),
 'C13': ('the autograd driver functions executed symbolically (chunk loop by induction, calls against the contracts of the compiled functions); schedule, arguments, callback and gradient obligations discharged by exact arithmetic and z3', 'proof',
         'All step counts, sampling intervals, callback frequencies and shapes; four equations, 1 to 3 dimensions, forward and backward; callees under contract (C01/C02 prove the compiled ones); accuracy and option combinations enumerated; bounded end-to-end runs added.'),
 'C14': ('the driver functions executed symbolically and every argument of every compiled call compared with the meaning, type and size its contract requires; discharged by exact arithmetic and z3', 'proof',
         'All sizes and values; every equation, pass, dimension, accuracy, precision; option combinations (callbacks, gradients, batched models, storage) enumerated, not all their products; CPU functions only.'),
 'C16': ('the Born driver executed symbolically (source scaling, arguments) on top of the Born kernel contract, which is the mechanically derived linearisation of the scalar contract', 'proof',
         'All sizes, models, scattering potentials and steps; composed with C01 for the Born kernels (same contract generator); real arithmetic.'),
 'C17': ('the step functions and the propagators of the four Python backends executed symbolically against the same contracts as the compiled kernels (cell by cell; the time loop by induction with the steps replaced by their contract); discharged by exact polynomial arithmetic and z3', 'proof',
         'All models, wavefields, shapes, step counts, callback frequencies, sources and receivers; four equations, 1 to 3 dimensions, accuracy 2 to 8; torch.jit and torch.compile trusted; loop and entry obligations for the accuracies in which only the stencil padding differs are enumerated; bounded end-to-end runs labelled.'),
 'C15': ('conversion and averaging functions executed symbolically at a generic cell; values discharged by exact rational arithmetic and z3', 'proof',
         'All model shapes and values in the stated ranges, 1 to 3 dimensions; real arithmetic; the 1e-15 guards accounted for to a relative 1e-6.'),
}
NA = {
 'C18': 'The double-backward passes run the Born kernels (whose own contracts are proved under C02/C16) in Python glue whose correctness is an identity between second derivatives of whole trajectories; no per-function contract within reach of the verifier expresses it.',
 'C19': 'The CUDA sources cannot be preprocessed or compiled here (no CUDA headers or toolchain), so no obligation could be tied to code that runs.',
}
if __name__ == '__main__':
    ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
    checks = [dict(property=p, quick_cmd='VERIF_TIER=quick python3-vt -m vc.check %s' % p, thorough_cmd='VERIF_TIER=thorough python3-vt -m vc.check %s' % p,
                   technique=D + ': ' + CLAIM[p][0], level=CLAIM[p][1], level_note=CLAIM[p][2]) for p in ids if p in CLAIM]
    na = [dict(property=p, reason=NA.get(p, 'not yet claimed: check under construction')) for p in ids if p not in CLAIM]
    json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, numpy"', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
