#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
S='src/deepwave/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=list(over),text=text),why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech])))

p('C01','Compiled forward propagators compute the documented time-stepping scheme',
 'For the scalar, scalar Born, acoustic and elastic wave equations, every call of a compiled CPU forward propagator advances every wavefield and PML memory variable at every grid point (interior, each PML side, edge and corner, up to the stencil padding) exactly as the documented finite-difference scheme says, in real arithmetic, for every number of time steps, shots, start time, spacing, model and wavefield. Source amplitudes are added once per time step at the source cells of their own shot, receivers record the wavefield of the documented time level of their own shot, and ignored (negative) locations have no effect. Nothing else changes.',
 ('inputs','configurations'),
 'All models, wavefields, PML coefficients satisfying the interface contract, shapes, nt, n_shots, source/receiver sets; all of NDIM 1-3 x accuracy 2,4,6,8 x float/double x batched/unbatched models x odd/even step parity x all 3^NDIM regions.',
 'The stable tests run a few small 1-3D models and callbacks; they compare neither every region, accuracy order, parity nor the memory variables, and a wrong coefficient in one corner region of one accuracy order stays below their tolerances.',
 ['scalar.c','scalar_born.c','acoustic.c','elastic.c','regular_grid.h','staggered_grid.h','common_cpu.h'],
 [('forward kernels, region loops and ping-pong of wavefields','src/deepwave/scalar.c, scalar_born.c, acoustic.c, elastic.c: FUNC(forward)'),('DIFF*/FD_PAD macros','src/deepwave/regular_grid.h, staggered_grid.h'),('add_to_wavefield, record_from_wavefield','src/deepwave/common_cpu.h')],
 [('psi, zeta, phi, m_*','PML memory variables','kernel arguments')])

p('C02','Compiled backward propagators are the exact adjoint of the forward scheme',
 'The compiled CPU backward propagators apply, time step by time step, the exact transpose of the documented forward step (in real arithmetic) to the adjoint wavefields and PML memory variables, inject the receiver-data gradients where and when the forward recorded, and return as source-amplitude gradients the adjoint wavefield where and when the forward injected. Model gradients are accumulated, at the stored time steps, as the product of the adjoint wavefield with the stored forward derivative quantity, multiplied by the sampling interval, over all shots (and kept apart per shot when the model is per shot), and independently of the number of threads.',
 ('inputs','configurations'),
 'All models, adjoint wavefields that are zero outside the updated region, PML coefficients meeting the interface contract, all shapes, nt, shots, step ratios; NDIM 1-3 x accuracy 2,4,6,8 x all 3^NDIM regions.',
 'The propagator gradient tests sample a few tiny problems by numerical gradcheck with loose tolerances; the stable subset hardly exercises PML corners, high orders, batched models or step ratios over 1.',
 ['scalar.c','scalar_born.c','acoustic.c','elastic.c','regular_grid.h','staggered_grid.h','common_cpu.h'],
 [('backward kernels','src/deepwave/*.c: FUNC(backward), FUNC(backward_sc)'),('combine_grad','src/deepwave/common_cpu.h, elastic.c')],
 [('grad_*_thread','per-thread gradient accumulators','kernel arguments')])

p('C03','Shots are independent and the compiled code stays inside its arrays',
 'In the compiled CPU propagators every array access made for a shot stays within the allocated array and, for arrays that are written, within the part belonging to that shot (or to the executing thread for shared-model gradients), for every shape, number of shots, threads and time steps. Hence no two shots running concurrently touch the same memory, and the result for a shot depends neither on the other shots nor on the number of threads.',
 ('inputs','schedules','configurations'),
 'All grid shapes, shot counts, thread counts and schedules, time ranges, source/receiver index arrays that meet the interface contract; all NDIM/accuracy/batching configurations.',
 'A race or out-of-bounds access usually leaves the test results unchanged; tests use one or two shots, few threads and no memory checker.',
 ['scalar.c','scalar_born.c','acoustic.c','elastic.c','common_cpu.h','storage_utils.c'],
 [('per-shot pointers (base + shot*n)','src/deepwave/*.c: forward/backward'),('per-thread gradient slabs','src/deepwave/*.c: threadi'),('loop bounds with FD_PAD','src/deepwave/*.c')])

p('C04','A stored snapshot is read back for the same time step and shot',
 'For every storage mode (device, CPU, disk), with or without compression, every sampling interval, number of steps, shots and time chunk, what the backward pass loads for a time step and shot is exactly what the forward pass saved for that time step and shot (up to the compression error). The buffers and temporary files allocated are large enough for every save, different quantities and shots never share storage, and temporary files have unique names and are removed.',
 ('inputs','configurations','histories'),
 'All storage modes, compression flags, nt, step ratios, shot counts, chunkings of the time range by callbacks, shapes and dtypes.',
 'The storage tests compare a few configurations end to end with loose tolerances, with a smooth wavefield for which reading the neighbouring step or shot is nearly invisible.',
 ['common.py','storage_utils.c','storage_utils.h','scalar.c','scalar_born.c','acoustic.c','elastic.c','scalar.py','scalar_born.py','acoustic.py','elastic.py'],
 [('StorageManager.allocate sizes and TemporaryStorage','src/deepwave/common.py'),('save_snapshot/load_snapshot','src/deepwave/storage_utils.c'),('store offsets t/step_ratio','src/deepwave/*.c')])

p('C05','Snapshot compression has a bounded error and respects its layout',
 'Compressing an array of any shape and decompressing it returns, at every element, a value within half a quantisation step (the largest absolute value in its block divided by 254) of the original in real arithmetic, and exactly the original where the value is zero or the extreme of its block. Compressed data of a shot occupies no more than the number of bytes the Python side allocates, every element belongs to exactly one block, and no byte outside the buffers is touched.',
 ('inputs','configurations'),
 'All array shapes in 1-3D (including sizes that are not multiples of the block size), all finite values, both float types, any number of batches.',
 'The compression tests try a handful of shapes with random values; edge blocks with few elements, constant blocks and 1D/3D size formulas are hardly sampled.',
 ['simple_compress.c','simple_compress.h','common.py','storage_utils.c'],
 [('simple_compress/simple_decompress','src/deepwave/simple_compress.c'),('compressed size formula','src/deepwave/common.py: StorageManager')])

p('C06','Finite-difference operators have their stated order of accuracy',
 'Each spatial derivative operator offered in Python (first and second derivative on the regular grid; first derivative at integer and half-integer points on the staggered grid), in every direction and for every accuracy order p in 2,4,6,8, is at every grid point it computes the unique central stencil of minimal width that is exact for polynomials of degree up to p, scaled by the reciprocal grid spacing; points of the padding are left zero. The stencils of the compiled code are the same.',
 ('inputs','configurations'),
 'All arrays, shapes, batch dimensions, positions, spacings; directions z,y,x; orders 2,4,6,8.',
 'The stencils are only exercised indirectly; a coefficient wrong in the fourth digit or a shifted slice in one direction for one order survives every tolerance in the tests.',
 ['regular_grid.py','staggered_grid.py','regular_grid.h','staggered_grid.h'],
 [('diff*1, diff*2, diff*h1','src/deepwave/regular_grid.py, staggered_grid.py'),('DIFF* macros','src/deepwave/regular_grid.h, staggered_grid.h')])

p('C07','The internal time step is stable and divides the user time step',
 'For every grid spacing, user time step and maximum velocity, the internal time step chosen equals the user time step divided by a positive integer step ratio, its sign follows the user time step, and its magnitude does not exceed the CFL limit c_max/(sqrt(sum 1/h^2) v_max). The step ratio is the smallest integer with that property, so no unnecessary steps are taken.',
 ('inputs',),
 'All positive spacings in 1-3 dimensions, all non-zero time steps, all positive maximum velocities and CFL numbers (zero velocity gives ratio 1).',
 'Tests evaluate a couple of values; the guarantee is for a real-valued input space with rounding at the ceil boundary.',
 ['common.py'],[('cfl_condition_n, cfl_condition','src/deepwave/common.py')])

p('C08','Absorbing-layer profiles vanish outside the layers and match the kernels',
 'For every PML width (per side, including zero), grid size and accuracy, the PML coefficient profiles passed to the propagators are zero at all interior points, mirror-symmetric between begin and end sides of equal width, decay coefficients lie in [0,1), and the half-grid profiles are the same profile sampled half a cell later. The regions in which the compiled propagators skip the PML terms contain only points whose whole stencil lies where the profiles and memory variables vanish, so that skipping is exact.',
 ('inputs','configurations'),
 'All PML widths >= 0 per side, all sizes, dt, spacings, maximum velocities, PML frequencies; accuracy 2,4,6,8; forward and backward.',
 'Tests only check that reflections are small for one width; an off-by-one in a boundary index gives small errors, and zero or asymmetric widths are not sampled.',
 ['common.py','regular_grid.py','staggered_grid.py','scalar.py','scalar_born.py','acoustic.py','elastic.py'],
 [('setup_pml','src/deepwave/common.py'),('set_pml_profiles','src/deepwave/regular_grid.py, staggered_grid.py'),('pml_b, pml_e region indices','src/deepwave/{scalar,scalar_born,acoustic,elastic}.py')])

p('C09','Extracting the survey region preserves models, wavefields and locations',
 'When the model is restricted to the region of interest (survey padding or initial wavefield extents) and padded for the PML and stencils, each source and receiver lies in the extracted model at the cell with the same model values as in the original model, every extracted model value equals the original value at the corresponding (edge-replicated) position, the region contains all sources and receivers plus the requested padding clipped at the model boundary, and user-supplied initial wavefields are placed at the same cells. Requests that would lose sources, receivers or wavefields are rejected.',
 ('inputs','configurations'),
 'All model shapes (1-3D, batched or not), source/receiver location tensors with ignored entries, survey pads (absent, scalar, per side, None), wavefield shapes, PML widths and accuracies.',
 'The tests use fixed 2D examples; corner cases (all ignored, one dimension unbounded, pad beyond the boundary, several models, wavefields given) form a product space.',
 ['common.py'],
 [('extract_survey, set_survey_pad, get_survey_extents_*','src/deepwave/common.py'),('extract_models, prepare_wavefields, check_*','src/deepwave/common.py')])

p('C10','Locations map injectively to grid cells and bad locations are rejected',
 'Every accepted source or receiver location is mapped to the flat index of exactly its own cell in the padded grid of its shot, offset by the padding and the survey origin; distinct locations get distinct in-range indices and an ignored location stays ignored (negative). Locations outside the model, repeated within one shot, or with mismatching shape or dimension raise an error.',
 ('inputs','configurations'),
 'All location tensors (any shots, any number, ignored entries anywhere), model shapes in 1-3D, padding and origins.',
 'Tests sample a few small location tensors; index arithmetic errors for non-square models, 3D or asymmetric padding, and duplicates hidden by ignored entries are not covered.',
 ['common.py'],
 [('extract_locations, _calculate_origin_and_stride, _convert_to_1d_and_check_uniqueness, check_locations_are_within_model','src/deepwave/common.py')])

p('C11','Time resampling keeps the samples and the recorded times',
 'Upsampling source amplitudes by an integer ratio without tapering or padding keeps every original sample (Nyquist excepted) at its own time, multiplies the number of samples exactly by the ratio, and downsampling the upsampled signal returns the original; both operations are linear, act on each trace separately, and for ratio 1 with no taper are the identity. Padding and tapering options change only the treatment of the edges as documented, and the output length is always the documented one.',
 ('inputs','configurations'),
 'All signal lengths, ratios, taper fractions, pad fractions, shifts, dtypes and trace counts.',
 'Tests use a few lengths and ratios; odd/even lengths, Nyquist handling and pad rounding are a product space.',
 ['common.py'],
 [('upsample, downsample, cosine_taper_end, zero_last_element_of_final_dimension, _validate_sample_args','src/deepwave/common.py'),('downsample_and_movedim','src/deepwave/common.py')])

p('C12','Off-grid interpolation is consistent for sources and receivers',
 'Off-grid (Hicks) interpolation places each monopole or dipole on a set of distinct in-range grid cells per shot, with weights equal to the documented Kaiser-windowed sinc of the offset to the true location (free surfaces mirrored with opposite sign), independent of which other locations are processed with it or in what order. The receiver operator is the exact transpose of the source operator for the same locations, on-grid locations are reproduced exactly, and selecting shots gives the same result as processing all shots and then selecting.',
 ('inputs','configurations'),
 'All real-valued locations, half-widths 1-10, 1-3 dimensions, free-surface edge combinations, numbers of shots and points, shot selections.',
 'Tests sample a few random 2D points; the interplay of caching, shared cells, mirroring at free surfaces and rounding of coordinates is not reached.',
 ['location_interpolation.py'],
 [('Hicks','src/deepwave/location_interpolation.py'),('_get_hicks_for_one_location_dim, _get_hicks_locations_and_weights','src/deepwave/location_interpolation.py')])

p('C13','Splitting the time range changes nothing; callbacks run on schedule',
 'Propagation is invariant under splitting the time range: with any callback frequency the compiled propagators process every time step exactly once in order, forwards and then backwards, with the same snapshots, so results and gradients equal those without callbacks. Callbacks run at every multiple of the callback frequency (in user time samples), see the wavefields, models and gradients of the current time level with the requested view, and the returned wavefields allow a later call to continue as if uninterrupted.',
 ('inputs','histories','configurations'),
 'All numbers of steps, step ratios, callback frequencies (dividing or not), forward and backward, all four wave equations, views.',
 'Callback tests try a few frequencies; parity of the ping-pong buffers, last partial chunk and sampling interval interact.',
 ['scalar.py','scalar_born.py','acoustic.py','elastic.py','common.py'],
 [('chunk loops in the autograd functions','src/deepwave/{scalar,scalar_born,acoustic,elastic}.py: *ForwardFunc, *BackwardFunc'),('CallbackState','src/deepwave/common.py')])

p('C14','Python passes every compiled function exactly the arguments it declares',
 'For every wave equation, pass, dimension and precision, the argument list declared and passed by Python has the same number, order, types and meaning as the parameters of the compiled function that is called, and the function selected is the one for the tensor dimension, accuracy order, data type and device in use. No argument is passed where another is expected.',
 ('configurations','inputs'),
 'All four propagators x forward/backward x NDIM 1-3 x accuracy 2,4,6,8 x float/double.',
 'There is no compiler check across the foreign-function interface: two swapped pointers of the same type are accepted and can go unnoticed when the swapped arrays are both zero in the tests.',
 ['backend_utils.py','scalar.py','scalar_born.py','acoustic.py','elastic.py','scalar.c','scalar_born.c','acoustic.c','elastic.c'],
 [('argtype templates, get_backend_function','src/deepwave/backend_utils.py'),('backend calls','src/deepwave/{scalar,scalar_born,acoustic,elastic}.py')])

p('C15','Model parameter conversions are inverse and averages land on the right cells',
 'Converting vp, vs, density to Lame parameters and buoyancy and back is the identity for all physically admissible values. The model averages placed on the staggered grid for the acoustic and elastic propagators are, at every cell, the documented arithmetic (buoyancy/density) or harmonic (shear modulus, zero if any neighbour is zero) mean of exactly the two or four neighbouring cells in the stated directions.',
 ('inputs','configurations'),
 'All admissible real parameter values, all model shapes in 1-3D, batched or not.',
 'Tests compare homogeneous or smooth models in which averaging the wrong neighbours or the wrong kind of mean is nearly invisible.',
 ['common.py','elastic.py','acoustic.py'],
 [('vpvsrho_to_lambmubuoyancy, lambmubuoyancy_to_vpvsrho','src/deepwave/common.py'),('prepare_parameters and averaging','src/deepwave/elastic.py, acoustic.py')])

p('C16','Born modelling is the exact linearisation of scalar modelling',
 'The scattered wavefield computed by the compiled Born propagator is, at every time step and grid point, the derivative of the scalar wavefield with respect to the velocity model in the direction of the scattering potential (including the PML memory variables and the source scaling), while its background wavefield equals the scalar propagator wavefield.',
 ('inputs','configurations'),
 'All velocity models, scattering potentials, wavefields, PML coefficients; NDIM 1-3 x accuracy 2,4,6,8; all regions.',
 'Tests compare with a finite perturbation in a few small models with percent-level tolerance.',
 ['scalar_born.c','scalar.c','scalar_born.py','scalar.py'],
 [('two coupled time steps','src/deepwave/scalar_born.c: FUNC(forward)'),('source scaling by 2 v scatter dt^2','src/deepwave/scalar_born.py')])

p('C17','The Python backend takes the same time step as the compiled backend',
 'For each wave equation the pure-Python propagation backend advances wavefields and PML memory variables by the same finite-difference step as the compiled backend, at every grid point for every dimension and accuracy order, injects the sources and records the receivers at the same time levels and cells, so both backends return the same wavefields and data for the same inputs.',
 ('inputs','configurations'),
 'All models, wavefields, PML coefficients, shapes; NDIM 1-3 x accuracy 2,4,6,8; all four wave equations.',
 'Tests compare the two backends on few small models with a tolerance, not on every region, order or memory variable.',
 ['scalar.py','scalar_born.py','acoustic.py','elastic.py','regular_grid.py','staggered_grid.py'],
 [('*_python functions and step functions','src/deepwave/{scalar,scalar_born,acoustic,elastic}.py')])

p('C18','Second derivatives through the compiled propagators are correct',
 'Differentiating a gradient computed with the compiled propagators (double backpropagation) yields the exact second derivative of the discrete scheme.',
 ('inputs','configurations'),
 'All models, sources, data and directions, for the propagators that support it.',
 'gradgradcheck on tiny problems samples isolated points.',
 ['scalar.py','scalar_born.py'],
 [('ScalarBackwardFunc.backward (Born propagators reused)','src/deepwave/scalar.py')])

p('C19','The GPU kernels compute the same step as the CPU kernels',
 'For every wave equation, dimension and accuracy order, the CUDA kernels compute at every grid point the same forward and backward step as the CPU kernels.',
 ('inputs','configurations'),
 'All inputs and configurations, on a GPU.',
 'No GPU in continuous testing; CPU tests say nothing about the CUDA files.',
 ['scalar.cu','scalar_born.cu','acoustic.cu','elastic.cu','simple_compress.cu','storage_utils.cu'],
 [('CUDA kernels','src/deepwave/*.cu')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
