#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
B1 = 'kymatio/scattering1d/'; B2 = 'kymatio/scattering2d/'; B3 = 'kymatio/scattering3d/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

prop('C01', '1D paths: each j1<j2 cascade exactly once, ordered and correctly labelled',
 "For every 1D scattering transform, the output contains exactly one order-0 coefficient, one order-1 coefficient per first-order wavelet n1 and (when max_order is 2) one order-2 coefficient per pair (n1, n2) whose scales satisfy j1 < j2, and nothing else. "
 "With out_type 'list' or 'array' the coefficients come out sorted by order and then by n (lexicographically); with 'dict' they are keyed by n. "
 "Every list entry is labelled with its true 'n', 'j' (the scales of the wavelets it used) and 'order'.",
 ['inputs', 'configurations'],
 "for every pair of filter banks (any number of wavelets, any scales j), every stride, every averaging mode (local, global, none), max_order 1 or 2, every out_type and CPU backend",
 "The tests compare a few (J, Q) settings with stored references or count the coefficients; the guarantee quantifies over all filter banks and options.",
 [B1+'core/scattering1d.py', B1+'frontend/base_frontend.py'],
 [('path generator', B1+'core/scattering1d.py:scattering1d'), ('labels, sort and collection', B1+'frontend/base_frontend.py:ScatteringBase1D.scattering')],
 ['Scattering1D.__call__ / .scattering'])

prop('C02', '1D coefficients equal the wavelet-modulus cascade of their path',
 "Each 1D coefficient equals the cascade of its path: the padded signal is filtered by the first-order wavelet, subsampled, replaced by its modulus, likewise for the second-order wavelet, and finally (local averaging) filtered by the low-pass and brought to the common stride, or (global) summed over the padded support, or (no averaging) left at the wavelet's own resolution. "
 "At every step the filter applied is the one sampled at the current resolution of the signal; with local averaging a wavelet of scale j is evaluated at resolution min(j, log2 stride), otherwise at resolution j, and every locally averaged coefficient has total subsampling exactly equal to the stride. "
 "The result is cropped to the time samples that correspond to the unpadded signal.",
 ['inputs', 'configurations'],
 "for every signal, every filter bank meeting the filter-bank guarantees, every J, T, stride (a power of two not larger than T), averaging mode and max_order",
 "Reference tests fix one or two (J, Q, T) triples and default strides; resolution bookkeeping errors show only for other stride/T/J combinations.",
 [B1+'core/scattering1d.py', B1+'frontend/base_frontend.py'],
 [('cascade', B1+'core/scattering1d.py:scattering1d'), ('unpad / global average', B1+'frontend/base_frontend.py:ScatteringBase1D.scattering')])

prop('C03', '1D padding and cropping geometry is exact for every length and scale',
 "For every signal length N, scale J with 2^J <= N and T <= N, the padded length is a power of two, no shorter than N, and both pad amounts are nonnegative, sum to padded length minus N and are smaller than N (so reflection is always defined). "
 "The left and right pads differ by at most one, and at every resolution 2^j up to the largest subsampling used the crop interval is [ceil(i0/2^j), ceil(i1/2^j)) for i0, i1 the ends of the original signal: nonempty and inside the subsampled padded signal. "
 "A padded length smaller than the input or pads as long as the input are rejected with ValueError.",
 ['inputs', 'configurations'],
 "for every integer N >= 1, every J and T within the stated range",
 "Tests check a handful of random lengths at fixed J; off-by-one errors depend on parity and on N relative to powers of two.",
 [B1+'utils.py', B1+'frontend/base_frontend.py'],
 [('compute_padding', B1+'utils.py:compute_padding'), ('compute_border_indices', B1+'utils.py:compute_border_indices'), ('choice of the padded length', B1+'frontend/base_frontend.py:ScatteringBase1D.build')])

prop('C04', '1D filter bank: aliasing-safe scales, exact zero mean, consistent levels',
 "Every 1D wavelet has a Fourier transform that is exactly zero at frequency 0 and every filter is normalised to unit l1 norm in time; center frequencies are positive and strictly decreasing within a bank and bandwidths are never below sigma0/2^J. "
 "The scale j of every wavelet is the largest integer with min(|xi| + alpha*sigma, 1/2) <= 2^-(j+1). "
 "The level k of any filter is its full-resolution Fourier transform folded (summed over the 2^k aliases) to length N/2^k, and enough levels exist for every second-order path and for the low-pass at every resolution the transform can use.",
 ['inputs', 'configurations'],
 "for every padded length that is a power of two, every J, Q (one or two layers), T and every center frequency and bandwidth; over the reals",
 "Tests evaluate a few sizes; whether enough levels exist for every pair j1<j2 depends on J, Q and T jointly.",
 [B1+'filter_bank.py'],
 [('factory', B1+'filter_bank.py:scattering_filter_factory'), ('Morlet/Gauss', B1+'filter_bank.py:morlet_1d'), ('scale', B1+'filter_bank.py:get_max_dyadic_subsampling'), ('generator', B1+'filter_bank.py:anden_generator')])

prop('C05', '1D parameters are interpreted as documented or rejected',
 "T=None and T='global' mean a support of 2^J, T=0 means 2^J with no averaging, any T in [1, N] is used as given; T > N and T in (0,1) raise ValueError. "
 "stride defaults to 2^floor(log2 T) and otherwise must be an integer power of two given with local averaging; Q expands to (Q1, Q2) with Q2 defaulting to 1 and every entry >= 1; shape must be an integer or 1-tuple; oversampling must be a nonnegative integer and is translated to a stride of 2^(floor(log2 T) - oversampling). "
 "Calling the transform with an unknown out_type, with T=0 and out_type='array', or on a 0-dimensional input raises ValueError before anything is computed.",
 ['inputs', 'configurations'],
 "for every value of T, J, N, stride, Q, shape, oversampling and out_type, of any of the accepted and rejected kinds",
 "Tests probe a few invalid values for each argument; the case analysis must be right for all values and combinations.",
 [B1+'utils.py', B1+'frontend/base_frontend.py'],
 [('parse_T', B1+'utils.py:parse_T'), ('properties and checks', B1+'frontend/base_frontend.py:ScatteringBase1D')])

prop('C06', '1D meta() and output_size() describe exactly the coefficients returned',
 "For every configured 1D transform, meta() lists exactly the coefficients returned by the transform, in the same order: 'key' and 'n' give the wavelet indices, 'order' their number, and 'xi', 'sigma', 'j' at each order are those of the wavelet with that index, padded with NaN. "
 "output_size() equals the number of coefficients and output_size(detail=True) their number per order.",
 ['configurations'],
 "for every filter bank (any number of wavelets, any scales), averaging mode, stride and max_order",
 "Tests compare counts and a few entries at one configuration; the alignment has to hold for all filter banks.",
 [B1+'frontend/base_frontend.py', B1+'core/scattering1d.py'],
 [('meta', B1+'frontend/base_frontend.py:ScatteringBase1D.meta'), ('output_size', B1+'frontend/base_frontend.py:ScatteringBase1D.output_size')])

prop('C07', '1D backends all compute the same mathematical primitives',
 "On every CPU backend (NumPy, JAX, PyTorch, TensorFlow) the 1D primitives compute the same functions along the time axis: subsample_fourier averages the k aliases, pad reflects about the end samples (or zero-fills), unpad slices [i0, i1), rfft/cfft/ifft/irfft are the unnormalised DFT and its exact inverse (real part for irfft), modulus is sqrt(re^2+im^2), cdgmm multiplies every signal by the filter, average_global sums over time. "
 "Inputs of the wrong kind (real where complex is required or conversely, mismatched filter size, padding not smaller than the signal) are rejected with TypeError, RuntimeError or ValueError rather than computed.",
 ['inputs'],
 "for every tensor shape, content, subsampling factor and padding amount, over the reals",
 "Tests sample random tensors of fixed shape; the equalities must hold for every shape, axis length and value.",
 [B1+'backend/numpy_backend.py', B1+'backend/torch_backend.py', B1+'backend/tensorflow_backend.py', 'kymatio/backend/numpy_backend.py', 'kymatio/backend/torch_backend.py', 'kymatio/backend/tensorflow_backend.py'],
 [('numpy/jax', B1+'backend/numpy_backend.py'), ('torch', B1+'backend/torch_backend.py'), ('tensorflow', B1+'backend/tensorflow_backend.py')])

prop('C08', '2D backends all compute the same mathematical primitives',
 "On every CPU backend the 2D primitives compute the same functions over the two spatial axes: subsample_fourier averages the k x k aliases, Pad reflects about the border (also when the pad equals the image size on PyTorch and TensorFlow), unpad removes one sample on each side, rfft/ifft/irfft are the 2D DFT and its inverse (real part for irfft), modulus and cdgmm are pointwise, stack inserts the channel axis before the two spatial axes. "
 "Inputs of the wrong kind are rejected with TypeError or RuntimeError.",
 ['inputs'], "for every tensor shape, content, subsampling factor and padding amount, over the reals",
 "Tests sample random tensors of fixed shape.",
 [B2+'backend/numpy_backend.py', B2+'backend/torch_backend.py', B2+'backend/tensorflow_backend.py', 'kymatio/backend/numpy_backend.py', 'kymatio/backend/torch_backend.py'],
 [('numpy/jax', B2+'backend/numpy_backend.py'), ('torch', B2+'backend/torch_backend.py'), ('tensorflow', B2+'backend/tensorflow_backend.py')])

prop('C09', '3D backends all compute the same mathematical primitives',
 "On every CPU backend the 3D primitives compute the same functions: rfft/ifft are the 3D DFT and its inverse over the last three axes, cdgmm3d is the pointwise complex product, modulus_rotation(x, m) is sqrt(|x|^2 + m^2) (sqrt(|x|^2) when there is no m), compute_integrals sums the q-th power of each volume for every q in order, and stack groups the coefficient list into (batch, paths, L+1, powers). "
 "Inputs of the wrong kind are rejected with TypeError or RuntimeError.",
 ['inputs'], "for every tensor shape, content and list of powers, over the reals",
 "Tests sample random tensors of fixed shape.",
 [B3+'backend/numpy_backend.py', B3+'backend/torch_backend.py', B3+'backend/tensorflow_backend.py'],
 [('numpy/jax', B3+'backend/numpy_backend.py'), ('torch', B3+'backend/torch_backend.py'), ('tensorflow', B3+'backend/tensorflow_backend.py')])

prop('C10', '2D transform: every path, its label, value and output size',
 "The 2D transform returns one order-0 coefficient, then one order-1 coefficient per wavelet in filter order, then (max_order 2) one order-2 coefficient per ordered pair with j1 < j2, in lexicographic order of (n1, n2), each labelled with its 'j', 'n' and 'theta'. "
 "Each coefficient is the cascade filter, subsample, modulus, ..., low-pass, total subsampling 2^J, with each filter taken at the resolution the signal currently has, and the border removed. "
 "For every image of size M x N with 2^J <= min(M, N) the output has spatial size floor(M/2^J) x floor(N/2^J).",
 ['inputs', 'configurations'], "for every J, L, image size, filter bank, max_order and out_type",
 "Tests use stored references for one configuration and a few sizes.",
 [B2+'core/scattering2d.py', B2+'utils.py', B2+'frontend/base_frontend.py'],
 [('cascade', B2+'core/scattering2d.py:scattering2d'), ('padded size', B2+'utils.py:compute_padding'), ('pads', B2+'frontend/base_frontend.py:ScatteringBase2D.build')])

prop('C11', '3D transform: path order, rotation-covariant modulus and values',
 "The 3D harmonic transform returns, for every order l in 0..L, the first-order integrals for j1 = 0..J followed (max_order 2) by the second-order integrals for all j1 < j2 in lexicographic order, laid out as (batch, path, l, power). "
 "With rotation covariance the modulus at (l, j) is the square root of the sum over all 2l+1 values of m of |x * psi_{j,l,m}|^2; without it only the first m is used; the second order applies the same operator to the first-order modulus. "
 "Every coefficient is the vector of sums over the volume of the modulus raised to the configured powers.",
 ['inputs', 'configurations'], "for every J, L, list of powers, volume size and filter bank",
 "The tests run one J and L against stored references.",
 [B3+'core/scattering3d.py', B3+'frontend/numpy_frontend.py', B3+'frontend/torch_frontend.py', B3+'frontend/tensorflow_frontend.py'],
 [('cascade and ordering', B3+'core/scattering3d.py:scattering3d')])

prop('C12', 'Leading batch axes are preserved and signals do not mix',
 "For every frontend (NumPy, JAX, PyTorch, TensorFlow) in 1D, 2D and 3D, an input with any number of leading batch axes (including none) gives an output with exactly the same leading axes followed by the coefficient axes. "
 "The slice of the output at a batch index equals the transform of the input slice at that index: no signal of a batch influences another. "
 "This holds for every out_type.",
 ['inputs'], "for every number and size of batch axes, every input and every configuration",
 "Tests check a few batch shapes on random data; mixing or reordering of samples depends on shape.",
 [B1+'frontend/base_frontend.py', B2+'frontend/numpy_frontend.py', B2+'frontend/torch_frontend.py', B2+'frontend/tensorflow_frontend.py', B3+'frontend/numpy_frontend.py', B3+'frontend/torch_frontend.py', B3+'frontend/tensorflow_frontend.py'],
 [('reshape_input / reshape_output', 'kymatio/backend'), ('batch handling', 'kymatio/scattering*/frontend')])

prop('C13', 'PyTorch filters and module buffers correspond one to one',
 "In every PyTorch frontend each filter array (at every level) is registered as exactly one buffer with a distinct name, in a fixed order, with the same values as the computed filter, and computing the transform uses for each filter exactly the buffer registered for it. "
 "Consequently moving the module or loading a state dict saved from an identically configured module never permutes, drops or duplicates a filter.",
 ['configurations', 'histories'], "for every number of filters and levels in 1D, time-frequency, 2D and 3D transforms",
 "Tests use a few filter banks; a permutation of equally shaped buffers needs a level structure the tests do not produce.",
 [B1+'frontend/torch_frontend.py', B2+'frontend/torch_frontend.py', B3+'frontend/torch_frontend.py'],
 [('register_filters', B1+'frontend/torch_frontend.py'), ('load_filters', B1+'frontend/torch_frontend.py')])

prop('C14', 'The PyTorch modulus and its gradient are exact and finite at zero',
 "The PyTorch modulus returns sqrt(re^2 + im^2) for every complex entry, and its backward pass returns the incoming gradient times x/|x| wherever |x| > 0 and exactly 0 where |x| = 0, never NaN. "
 "The gradient of each entry depends only on that entry, for tensors of every rank.",
 ['inputs'], "for every tensor shape, every entry (zero included) and every incoming gradient, over the reals",
 "gradcheck samples random points, almost never zeros in part of a tensor.",
 ['kymatio/backend/torch_backend.py'],
 [('ModulusStable.forward/backward', 'kymatio/backend/torch_backend.py:ModulusStable')])

prop('C15', 'Time-frequency scattering: paths, labels and resolutions are consistent',
 "Joint time-frequency scattering yields the zeroth order, then one first-order path per non-negative-spin frequential filter, then for every second-order wavelet n2 that has some n1 with j1 < j2 one path per frequential filter, each labelled with its j, n, n_fr, j_fr, spin and the stride of its rows in n1. "
 "In every averaging mode and for every stride along time and frequency, each filter is applied at the resolution its operand currently has, locally averaged results have exactly the requested time stride and frequency stride, and in 'time' format the rows are split in increasing n1 with one coefficient for each kept row.",
 ['inputs', 'configurations'], "for every filter bank, J, J_fr, T, F, stride, stride_fr, averaging mode, format and out_type",
 "Tests run default strides only; other strides follow different resolution arithmetic.",
 [B1+'core/timefrequency_scattering.py', B1+'frontend/base_frontend.py'],
 [('width-first cascade', B1+'core/timefrequency_scattering.py:time_scattering_widthfirst'), ('frequency scattering', B1+'core/timefrequency_scattering.py:frequency_scattering'), ('averaging', B1+'core/timefrequency_scattering.py')])

prop('C16', 'Entry points and wrappers forward their arguments faithfully',
 "The generic entry points build exactly the class of the requested frontend and dimension with all other arguments unchanged, and reject unknown frontend names with RuntimeError. "
 "The scikit-learn transformers flatten the scattering of the reshaped input without reordering any value, and the Keras layers compute the transform with the configured parameters and declare an output shape equal to the shape they produce.",
 ['inputs', 'configurations'], "for every frontend name (any case), every argument list and every input shape",
 "Tests instantiate a few frontends with default arguments.",
 ['kymatio/frontend/entry.py', 'kymatio/frontend/sklearn_frontend.py', 'kymatio/frontend/keras_frontend.py', B1+'frontend/keras_frontend.py', B2+'frontend/keras_frontend.py'],
 [('entry', 'kymatio/frontend/entry.py:ScatteringEntry'), ('sklearn mixin', 'kymatio/frontend/sklearn_frontend.py'), ('keras', B1+'frontend/keras_frontend.py')])

prop('C17', 'Cache directory resolution follows its documented precedence',
 "The cache base directory is the explicit argument if given, else the KYMATIO_CACHE environment variable if set, else ~/kymatio_cache; the cache directory is the named entry under it. "
 "An existing directory is returned untouched; a missing one is created only if creation is allowed and otherwise ValueError is raised and nothing is created.",
 ['inputs', 'configurations'], "for every name, base directory, environment and file-system state",
 "Tests cover two or three combinations.",
 ['kymatio/caching.py'], [('find_cache_base_dir / get_cache_dir', 'kymatio/caching.py')])

prop('C18', '2D filter bank: one wavelet per (scale, angle), correctly folded levels',
 "The 2D filter bank contains exactly the J*L wavelets (j, theta), scale-major, each built with scale 0.8*2^j, centre frequency (3*pi/4)/2^j, slant 4/L and its own angle, minus the multiple of its envelope that makes its mean zero, plus one low-pass of scale 0.8*2^(J-1). "
 "Level r of a filter is the fold of its full-resolution Fourier transform to size M/2^r x N/2^r after discarding the frequencies outside the retained band, and every wavelet and the low-pass have all levels that a path with j1 < j2 can request.",
 ['configurations', 'inputs'], "for every J, L and padded size divisible by 2^J",
 "Tests compare one bank; the level count and the fold must be right for all J and sizes.",
 [B2+'filter_bank.py'], [('filter_bank', B2+'filter_bank.py:filter_bank'), ('periodize_filter_fft', B2+'filter_bank.py:periodize_filter_fft'), ('morlet_2d', B2+'filter_bank.py:morlet_2d')])

prop('C19', '3D filter banks hold the right wavelet at each (l, j, m)',
 "The solid harmonic bank has, for l = 0..L, an array indexed by j = 0..J and m = -l..l whose entry is the order-(l, m) solid harmonic of width sigma_0*2^j, and the Gaussian bank has one Gaussian of width sigma_0*2^j for each scale. "
 "All are sampled on the centred frequency grid with the origin at index 0 along every axis, including odd and unequal sizes.",
 ['configurations', 'inputs'], "for every M, N, O, J, L, sigma_0",
 "Tests check one size.",
 [B3+'filter_bank.py', B3+'utils.py'], [('banks', B3+'filter_bank.py')])

prop('C20', 'Transforms never modify their input or their own filters',
 "Computing a transform, calling meta() or output_size() never writes to the input array and leaves the transform object unchanged: filters, padding, parameters and labels keep their values. "
 "Calling the same transform again on the same input therefore returns the same result, whatever was computed in between.",
 ['histories', 'inputs'], "for every sequence of calls on every input and configuration, 1D, 2D and 3D",
 "Tests call each object once or twice; a write to shared filter data shows only on a later call.",
 [B1+'core/scattering1d.py', B1+'frontend/base_frontend.py', B2+'core/scattering2d.py', B3+'core/scattering3d.py'],
 [('fresh results', 'kymatio/scattering*/core'), ('frontends', 'kymatio/scattering*/frontend')])

prop('C21', '2D and 3D inputs of the wrong kind or size are rejected, right ones accepted',
 "A 2D transform accepts exactly the inputs whose last two axes have the configured size (with pre_pad, the padded size) and a 3D transform exactly those whose last three axes do; other sizes and inputs with too few axes raise RuntimeError, a None or non-array input raises TypeError, and an unknown out_type raises RuntimeError or ValueError. "
 "Construction rejects images smaller than 2^J; with pre_pad the input is used as is, without any further padding.",
 ['inputs', 'configurations'], "for every input rank and size, every configuration, on the NumPy, JAX, PyTorch and TensorFlow frontends",
 "Tests try one wrong size per frontend.",
 [B2+'frontend/base_frontend.py', B2+'frontend/numpy_frontend.py', B2+'frontend/torch_frontend.py', B2+'frontend/tensorflow_frontend.py', B3+'frontend/numpy_frontend.py', B3+'frontend/torch_frontend.py', B3+'frontend/tensorflow_frontend.py', 'kymatio/backend/numpy_backend.py'],
 [('checks', B2+'frontend'), ('checks', B3+'frontend')])

prop('C22', 'Wavelet energy bounds and cross-backend rounding agreement',
 "The filter banks satisfy a Littlewood-Paley inequality so the transform never increases energy and is contractive, and all backends agree up to single-precision rounding.",
 ['inputs', 'configurations'], "for every signal and configuration, in floating point",
 "Tests bound it numerically at a few configurations.",
 [B1+'filter_bank.py', B2+'filter_bank.py', 'kymatio/backend'], [('filter design', B1+'filter_bank.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
