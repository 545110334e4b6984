#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; the results are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=["torchiva/" + f for f in files],
                  mech=[dict(name=n, where="torchiva/" + w) for n, w in mech],
                  technique=technique, note=note, observe=list(observe)))


ALGOS = ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py"]

prop("C01", "Batching is transparent",
     "Every separator, dereverberation, beamforming and linear-algebra function that accepts leading batch "
     "dimensions returns, for each item of the batch, what it returns when called on that item alone, with "
     "any number of leading dimensions and whatever the other items contain (other levels, silence). The "
     "STFT, convolution, scaling and selection functions, the source models and the time-domain separator "
     "do the same.",
     ["inputs", "configurations"],
     "all batch shapes (none, one or two leading dimensions, size one included), all algorithms and options, "
     "all contents of the other batch items",
     "The tests run one recording at a time, at most with a batch dimension of one, so no test compares an "
     "item of a batch with the same item alone.",
     ALGOS + ["linalg.py", "scaling.py", "stft.py", "nn.py", "utils.py"],
     [("batched matrix products and solvers over the last two axes", "linalg.py: bmm, solve_loaded, eigh"),
      ("'...' indexing everywhere", "t_iss.py: iss_updates_with_H, projection_back_weights")],
     "property-based testing: metamorphic relation batch-of-items = item-by-item",
     "Random exploration in double precision with tight tolerance scaled by the amplification of each case.",
     ["return values"])

prop("C02", "A call depends on its arguments only",
     "The result of calling a separator, beamformer, source model or time-domain separator depends only on "
     "the arguments of that call and the settings of the object: not on earlier calls (other inputs, other "
     "shapes, failed calls, gradient mode), nor on the memory layout of the input. An option given in the "
     "call (including 0 and False) is used for that call only and equals setting it at construction. A call "
     "never modifies its input tensors, nor the settings of the object.",
     ["histories", "inputs", "configurations"],
     "all histories of calls on one object, all per-call overrides, all strides of the input",
     "The tests build a fresh object and call it once, with freshly allocated contiguous tensors.",
     ALGOS + ["base.py", "nn.py", "models/classic.py"],
     [("per-call parameters are resolved against the stored ones", "base.py: DRBSSBase._set_params, BFBase._set_params"),
      ("state of the source model is cleared at the start of a call", "base.py: DRBSSBase._reset")],
     "stateful property-based testing: random call histories against a fresh object",
     "Random exploration of histories; the global random generator is re-seeded before compared calls.",
     ["return values", "input tensors after the call", "attributes of the object"])

prop("C03", "Demixing-matrix checkpointing changes memory, not results",
     "T-ISS with checkpointing of the demixing matrix (use_dmc) returns the same outputs, and gives the same "
     "gradients with respect to the input and to all parameters of the source model, as without it, for every "
     "number of channels, sources, taps and iterations, and for source models with dropout.",
     ["inputs", "configurations"],
     "all T-ISS configurations, trainable stateless source models, losses and data; second calls and no-gradient mode",
     "One test compares the reversible implementation on one fixed configuration and seed.",
     ["t_iss.py"],
     [("checkpointed iteration preserving the random state", "t_iss.py: over_iss_t_one_iter_dmc, T_ISS.forward")],
     "property-based testing: differential (use_dmc on against off), outputs and gradients",
     "Random exploration, double precision; excludes models with state between calls (NMF).")

prop("C04", "Back-propagated gradients are the derivatives of the outputs",
     "For every separation, dereverberation and beamforming algorithm and for the end-to-end time-domain "
     "separator, the gradient that back-propagation gives (with respect to the input and to the parameters of "
     "the source model) is the derivative of the output, at generic inputs.",
     ["inputs", "configurations"],
     "all algorithms and options, data, smooth losses and directions",
     "One test checks T-ISS gradients on one fixed configuration; nothing checks the others.",
     ALGOS + ["linalg.py", "nn.py", "stft.py"],
     [("differentiable 2x2 eigen-decompositions", "linalg.py: eigh_2x2"),
      ("no in-place updates or detached quantities on the gradient path", "t_iss.py, auxiva_ip.py, five.py, wpe.py")],
     "property-based testing: directional derivatives by central differences at two step sizes",
     "Random exploration; tolerance 5e-3 of the typical directional derivative, 0.1 where a row-normalised "
     "loaded solver is used (its normalisation is treated as constant); non-smooth cases are excluded by rule.")

prop("C05", "T-ISS computes the published iterative source steering updates",
     "T-ISS computes the iterative source steering updates for joint dereverberation and separation, from any "
     "number of channels, sources up to the number of channels, taps, delay and iterations: output equal to an "
     "independent implementation that updates one demixing (and, when over-determined, background) filter at "
     "a time with the weights of the source model, followed by projection back on the chosen microphone "
     "(or none).",
     ["inputs", "configurations"],
     "all numbers of channels, sources, taps, delays, iterations, reference microphones, source models and data",
     "The tests require an SDR threshold on one recording with few configurations: small errors in an update "
     "pass.",
     ["t_iss.py", "linalg.py"],
     [("rank-one updates of source rows, background and dereverberation taps", "t_iss.py: iss_block_update_type_1/2/3, iss_updates_with_H"),
      ("closed-form background", "t_iss.py: background_update"),
      ("scale restoration", "t_iss.py: projection_back_weights")],
     "property-based testing: differential against an independent reference implementation",
     "Random exploration, double precision, tolerance scaled by the measured sensitivity of each case.")

prop("C06", "AuxIVA-IP and OverIVA compute the published iterative projections",
     "AuxIVA-IP computes, for any number of channels and of sources up to it (default: all), the "
     "iterative projection updates: output equal to an independent implementation with weighted covariances, one demixing "
     "filter at a time, orthogonal constraint for the background when over-determined, and projection back on the chosen microphone.",
     ["inputs", "configurations"],
     "all numbers of channels, sources, iterations, reference microphones, source models, eps and data",
     "The tests require an SDR threshold on one recording for few configurations.",
     ["auxiva_ip.py", "linalg.py"],
     [("iterative projection update", "auxiva_ip.py: AuxIVA_IP.forward"),
      ("background from the orthogonal constraint", "auxiva_ip.py: orthogonal_constraint"),
      ("scale restoration", "auxiva_ip.py: projection_back_from_demixing_matrix")],
     "property-based testing: differential against an independent reference implementation",
     "Random exploration, double precision, tolerance scaled by the measured sensitivity of each case.")

prop("C07", "AuxIVA-IP2 computes the exact two-source update",
     "With two channels, AuxIVA-IP2 computes at each iteration the joint minimiser of the two demixing filters "
     "(generalised eigenvectors of the two weighted covariances), and projects back on the chosen microphone: "
     "output equal to an independent implementation, over several orders of magnitude of the input level.",
     ["inputs", "configurations"],
     "all two-channel data, levels, source models, iterations and reference microphones",
     "The tests require an SDR threshold on one recording.",
     ["auxiva_ip2.py", "linalg.py"],
     [("generalised eigenvalue problem of the weighted covariances", "auxiva_ip2.py: spatial_model_update_ip2"),
      ("2x2 closed form", "linalg.py: eigh_2x2")],
     "property-based testing: differential against an independent reference implementation",
     "Random exploration, double precision, tolerance scaled by sensitivity; near-proportional pencils excluded.")

prop("C08", "FIVE extracts the source of the minimum-eigenvalue filter",
     "FIVE returns one source per bin: whitening, then repeatedly the eigenvector of the smallest eigenvalue of "
     "the weighted covariance (exact, or by the power iteration asked for), then projection back on the chosen "
     "microphone (or none), equal to an independent implementation.",
     ["inputs", "configurations"],
     "all data of two or more channels, source models, iterations, reference microphones, with and without power iterations",
     "The tests require an SDR threshold on one recording.",
     ["five.py", "linalg.py", "scaling.py"],
     [("whitening and smallest eigenvector", "five.py: FIVE.forward, smallest_eigenvector_eigh_cpu, smallest_eigenvector_power_method"),
      ("scale restoration", "five.py: adjust_global_scale")],
     "property-based testing: differential against an independent reference implementation",
     "Random exploration, double precision; nearly repeated smallest eigenvalues are outside the domain.")

prop("C09", "WPE is iteratively re-weighted delayed linear prediction",
     "WPE subtracts from each channel its prediction from the past frames (n_taps taps starting at n_delay) "
     "with the filter that minimises the weighted prediction error, the weights being recomputed from the "
     "current estimate (default or user model) at each iteration: equal to an independent implementation, for "
     "every number of channels, taps, delays and iterations.",
     ["inputs", "configurations"],
     "all data, channels, taps, delays, iterations, weights",
     "The tests require a threshold on one recording with few configurations.",
     ["wpe.py", "linalg.py"],
     [("delayed frames", "linalg.py: hankel_view"), ("normal equations", "wpe.py: wpe_one_iter"),
      ("default weights", "wpe.py: wpe_default_weights")],
     "property-based testing: differential against an independent reference implementation",
     "Random exploration, double precision, at least one tap.")

prop("C10", "MVDR is the distortionless minimum-noise beamformer of the masks",
     "For each source the MVDR beamformer (the variants rtf, eigen or power iteration, and scm) is the filter computed from the "
     "mask-weighted covariances of target and noise by its published formula, relative to the chosen reference microphone; the "
     "rtf filter passes the estimated target direction undistorted at the reference and has no more noise "
     "output power than any other such filter. This holds at any recording level.",
     ["inputs", "configurations"],
     "all data, masks (with or without explicit noise masks), numbers of channels and sources, references, variants and levels",
     "The tests require a level threshold on one recording with oracle masks.",
     ["beamformer.py", "linalg.py"],
     [("relative transfer function", "beamformer.py: compute_mvdr_rtf_eigh"),
      ("filters", "beamformer.py: compute_mvdr_bf, compute_mvdr_bf2"),
      ("mask convention", "beamformer.py: MVDRBeamformer.forward")],
     "property-based testing: differential against a reference, and optimality against perturbed filters",
     "Random exploration, double precision; repeated principal eigenvalue excluded.")

prop("C11", "MWF is the multichannel Wiener filter of the masks",
     'The multichannel Wiener filter, time-invariant or time-varying, with the chosen reference microphone, equals its definition from the mask-weighted covariances of target and noise. The filters for the target and for the noise (masks exchanged) add up to the reference channel, up to the regularisation (a diagonal loading of eps times the largest entry). This holds at any recording level.',
     ["inputs", "configurations"],
     "all data, masks, numbers of channels and sources, references, time-invariant and time-varying",
     "The tests require a level threshold on one recording with oracle masks.",
     ["beamformer.py", "linalg.py"],
     [("filter", "beamformer.py: compute_mwf_bf"), ("mask convention", "beamformer.py: MWFBeamformer.forward")],
     "property-based testing: differential against a reference, and partition identity",
     "Random exploration, double precision.")

prop("C12", "GEV is the maximum-SNR beamformer of the masks",
     "For each source the GEV beamformer has the largest ratio of target to noise output power (as measured "
     "with the mask-weighted covariances) of all filters, and its output is scaled to the chosen reference "
     "microphone, as an independent implementation computes it; at any recording level.",
     ["inputs", "configurations"],
     "all data, masks, numbers of channels and sources, references, levels",
     "The tests require a level threshold on one recording with oracle masks.",
     ["beamformer.py", "linalg.py"],
     [("generalised eigenvectors", "beamformer.py: compute_gev_bf"), ("mask convention", "beamformer.py: GEVBeamformer.forward")],
     "property-based testing: differential against a reference, and optimality against perturbed filters",
     "Random exploration, double precision; repeated principal eigenvalue excluded.")

prop("C13", "Projection back: sources add up to the microphone, levels carry over",
     'With projection back, the filters of the separated sources of a determined separator add up to the one that picks the reference microphone (at lag zero when dereverberating), in every bin. For every algorithm, the output for the input multiplied by a complex gain is the output multiplied by that gain, for levels within the ordinary range of recordings.',
     ["inputs", "configurations"],
     "all data, gains and phases within the range of recordings (gain 0.01 to 100 around unit level), algorithms, options",
     "Never tested: the tests compare after scaling, at one level.",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "scaling.py"],
     [("scale restoration", "t_iss.py: projection_back_weights; auxiva_ip.py: projection_back_from_demixing_matrix; scaling.py: projection_back; five.py: adjust_global_scale")],
     "property-based testing: metamorphic relations (sum of sources, complex gain)",
     "Random exploration, double precision, tolerance scaled by sensitivity.")

prop("C14", "Every iteration decreases the negative log-likelihood",
     'For T-ISS, AuxIVA-IP and IP2 (as many sources as channels, Laplace or Gauss model), the negative log-likelihood computed from input and output alone does not increase from one iteration to the next, and zero iterations return the input. The mean magnitude of the whitened target of FIVE and the log-likelihood cost of WPE do not increase either, except for the effect of the documented diagonal loading.',
     ["inputs", "histories"],
     "all data and configurations, every iteration",
     "The tests look at the quality after a fixed number of iterations on one recording.",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "models/classic.py"],
     [("majorisation-minimisation updates", "t_iss.py: over_iss_t_one_iter; auxiva_ip.py: AuxIVA_IP.forward; auxiva_ip2.py: spatial_model_update_ip2; five.py: FIVE.forward; wpe.py: wpe_one_iter")],
     "property-based testing: invariant over the history of iterations",
     "Random exploration; increases below 1e-3 nat per bin are attributed to diagonal loading.")

prop("C15", "What an output can depend on",
     "In every bin, each output is a linear combination over time-invariant coefficients of the channels of the same bin at lag zero (and, when dereverberating, at lags delay + 1 to delay + taps). Permuting the frequency bins, the frames (without taps) or the channels together with the reference (IP2, FIVE, WPE, beamformers) permutes the output in the same way, and algorithms that treat bins separately do not leak between bins. Dereverberation leaves the current frame's contribution and the first delay + 1 frames unchanged.",
     ["inputs", "configurations"],
     "all data, permutations, perturbed bins, algorithms, options",
     "Never tested.",
     ALGOS,
     [("per-bin batched filters", "t_iss.py: demix_derev; wpe.py: derev; beamformer.py: *.forward"),
      ("delay line", "linalg.py: hankel_view")],
     "property-based testing: metamorphic relations (permutation, perturbation) and least-squares residual",
     "Random exploration, double precision.")

prop("C16", "STFT engine: definition, inverse, layout",
     'The STFT returns the windowed DFT of the frames of the reflect-padded signal, with the given FFT size, hop and window (named, numpy array or tensor), for any leading dimensions, with bins before frames. The inverse returns the original signal on the samples it covers and is linear; both follow the default type, type conversions of the module and its stored state.',
     ["inputs", "configurations"],
     "all FFT sizes, hops, windows, signal lengths and leading dimensions that satisfy the overlap-add condition",
     "Only exercised with one size and a hamming window, through quality thresholds.",
     ["stft.py", "base.py"],
     [("torch STFT with flattened batch", "stft.py: STFT.forward, STFT.inv"), ("window choice", "stft.py: STFT.__init__")],
     "property-based testing: differential against a frame-by-frame DFT, and round trip",
     "Random exploration; signals longer than half a frame.")

prop("C17", "FFT convolution is linear convolution",
     "The convolution equals direct summation for every pair of lengths (1, equal, either longer), every axis "
     "and broadcastable leading dimensions, real in the precision of its inputs; the modes full, valid and same have the documented length and "
     "alignment; any other mode is refused.",
     ["inputs", "configurations"],
     "all lengths, modes, axes, leading dimensions and values",
     "The tests check three shapes with one fixed mode.",
     ["fftconvolve.py"],
     [("zero-padded real FFT and truncation", "fftconvolve.py: fftconvolve")],
     "property-based testing: differential against direct summation, algebraic identities",
     "Random exploration.")

prop("C18", "Hermitian eigen-decompositions",
     "The eigen-decompositions of Hermitian matrices and of Hermitian / positive definite pencils "
     "return ascending eigenvalues and matching eigenvectors that satisfy the defining equation and their "
     "normalisation, in the precision of the input, for any size, leading dimensions, level and structure "
     "(diagonal, real, rank one).",
     ["inputs"],
     "all Hermitian matrices and positive definite second matrices of condition up to 1e3, over several orders of magnitude",
     "The tests check a handful of random 2x2 matrices, eigenvalues mostly.",
     ["linalg.py"],
     [("closed form for 2x2", "linalg.py: eigh_2x2"), ("Cholesky reduction", "linalg.py: eigh"), ("CPU fallback", "linalg.py: eigh_wrapper")],
     "property-based testing: residual, order, normalisation and spectrum against numpy",
     "Random exploration; one known finding (eigenvectors of eigh_2x2 without second matrix are conjugated).")

prop("C19", "The linear-algebra and type building blocks mean what they say",
     "The solvers, inverses, loading, Hermitian transpose, products, magnitudes and divisions return what their documentation "
     "defines (solutions up to the documented loading) for any batch shape, layout, level and real or complex "
     "precision; the delayed-frames view stacks exactly the right frames; the real/complex type mapping is total on "
     "the floating types and refuses others.",
     ["inputs"],
     "all matrices of condition below 1e3, right-hand sides, levels, batch shapes, layouts and dtypes",
     "Only used indirectly; the tests check dtype mapping of some types.",
     ["linalg.py", "dtypes.py"],
     [("solvers", "linalg.py: solve_loaded, solve_loaded_general, inv_loaded, inv_2x2"),
      ("helpers", "linalg.py: divide, multiply, mag, mag_sq, bmm, hermite, diagonal_loading, hankel_view"),
      ("types", "dtypes.py")],
     "property-based testing: differential against numpy, algebraic identities",
     "Random exploration.")

prop("C20", "Resolving the scale ambiguity against a reference signal",
     'The minimum-distortion scaling multiplies each source in each bin by the factor that minimises the chosen norm of the difference to the reference (closed form for least squares; objective not increasing with iterations for the mixed norms; weighted least squares when a weight model is given), the phase-only variant by a unit-modulus factor, and projection back by factors that make the sources add up to the reference. An exact multiple of the reference is mapped to the reference; least-squares results do not depend on the scale of the sources and are proportional to the reference.',
     ["inputs", "configurations"],
     "all data, references, exponents p and q, leading dimensions, at levels around one",
     "Never tested directly.",
     ["scaling.py"],
     [("closed forms", "scaling.py: minimum_distortion_l2, minimum_distortion_l2_phase, projection_back"),
      ("majorisation", "scaling.py: minimum_distortion, lpq_norm")],
     "property-based testing: optimality, closed forms and equivariance",
     "Random exploration; powers are clamped at 1e-5 by the code.")

prop("C21", "The classic source models compute their documented weights",
     'The Laplace and Gauss models return the inverse of twice the norm, respectively of the mean power, over frequency of each frame (clamped from below by eps), broadcast over frequency, in the real precision of the input. The NMF model returns positive weights whose inverse has the given rank; each update is the square-root multiplicative update, first of the basis, then of the activations from the refreshed estimate (factors and estimate clamped from below by eps); the updates do not increase the divergence to the power spectrogram, and after a reset it starts afresh.',
     ["inputs", "histories"],
     "all signals with silence and wide dynamics, leading dimensions, eps, numbers of bases and of updates",
     "Only used through separation quality thresholds (NMF not at all).",
     ["models/classic.py"],
     [("weights", "models/classic.py: LaplaceModel, GaussModel, NMFModel")],
     "property-based testing: differential against definitions, monotone divergence",
     "Random exploration.")

prop("C22", "The neural mask models",
     'The neural mask models return one finite mask value between their floor and one for each bin and frame, also on silence, in the shape of the input (with sources and masks before it for the beamforming support model). In evaluation mode the mask of an item depends neither on the other items nor, for the magnitude-based models, on the phases, nor, for the gated convolutional model, on the level; it equals an independent forward pass from the stored weights.',
     ["inputs", "configurations"],
     "all architecture options, weights, statistics and spectrograms (silence included)",
     "Only loaded from one stored model and run once.",
     ["models/simple.py", "models/glu.py", "models/blstm.py"],
     [("log-power features, network, sigmoid mask", "models/glu.py: GLUMask.forward; models/blstm.py: BLSTMMask.forward, MaskMVDRSupport.forward; models/simple.py: SimpleModel.forward")],
     "property-based testing: differential against a numpy forward pass, metamorphic relations, range invariant",
     "Random exploration; odd kernel sizes.")

prop("C23", "The time-domain separator is STFT, algorithm, inverse STFT",
     'The time-domain separator returns the inverse STFT of what the selected algorithm, with the given options (sources, iterations, taps, delay, reference, checkpointing, power iterations, eps, model), returns on the STFT of the signal, for any leading dimensions. The output has the length (zeros after the last frame) and precision of the input; unknown algorithms, and more sources than channels, are refused.',
     ["inputs", "configurations"],
     "all algorithms, options, STFT sizes, hops, numbers of channels and samples",
     "The tests load one model and run one recording.",
     ["nn.py", "stft.py", "base.py"],
     [("construction of the selected algorithm", "nn.py: BSSSeparator.__init__"), ("pipeline and padding", "nn.py: BSSSeparator.forward")],
     "property-based testing: differential against the composition of the public parts",
     "Random exploration.")

prop("C24", "A stored separator loads back to the same separator",
     'A separator whose configuration and weights are stored (a directory, or an explicit pair of files) loads to a separator with the same weights that produces the same output as the original, with overrides given to the loader applied, without changing the stored files, and independently of other loads: each load gives what is stored there at that moment. Missing files raise ValueError, and weights that do not fit the configuration are refused.',
     ["inputs", "configurations"],
     "all configurations, weights, overrides and storage layouts",
     "The tests load one stored model and check that it loads.",
     ["loader.py", "nn.py", "utils.py"],
     [("configuration and weights", "loader.py: load_separator_model, load_separator"), ("construction by name", "utils.py: instantiate")],
     "property-based testing: round trip",
     "Random exploration.")

prop("C25", "Loading from a URL never poisons the local model cache",
     "After any history of downloads from URLs with faults (errors, truncation, resets, "
     "full disk, the process killed at any point, several processes at once), a load that succeeds gives exactly the model "
     "stored at that URL, a later load with the server healthy succeeds, and a model that was loaded once "
     "loads again without the network.",
     ["crash_points", "fault_sequences", "histories", "schedules"],
     "all histories of loads, faults, kills and concurrent loads over several URLs, with declared content lengths",
     "The tests load from one URL when there is a network, without any fault.",
     ["loader.py"],
     [("download to a unique partial file, then rename", "loader.py: get_model_from_url"), ("one cache entry per URL", "loader.py: get_model_from_url")],
     "stateful fault-injection testing: random histories against a loopback server with scripted faults and kills",
     "Random exploration of histories, in a scratch cache; truncation without declared length is undetectable.",
     ["loaded weights", "files in the cache directory"])

prop("C26", "The separation command writes what the library computes, over nothing else",
     'The separation command writes, for a file or for each audio file of a folder, the separated signals that the library computes from the selected channels with the given options (algorithm, model, sources, iterations, taps, delay, FFT, hop, reference), keeping the most energetic sources. It never overwrites or changes its inputs, however the output is spelled, and refuses instead with an error.',
     ["inputs", "configurations"],
     "all options, recordings, folder trees and spellings of the output path",
     "The tests run some combinations of options and only check that the output exists.",
     ["separate.py", "utils.py"],
     [("options to separator", "separate.py: main"), ("one file", "separate.py: separate_one_file"),
      ("selection", "utils.py: select_most_energetic")],
     "property-based testing: differential of written files against the library, invariant on the files of a scratch tree",
     "Random exploration inside scratch directories; hard links are not examined.",
     ["written wav files", "bytes of all files of the scratch tree"])

prop("C27", "The output has the precision of the input and agrees between precisions",
     "Every algorithm returns its output in the precision of its input, whatever the ambient default dtype, and "
     "the single precision output agrees with the double precision one, to single precision accuracy on well-conditioned "
     "inputs.",
     ["inputs", "configurations"],
     "all algorithms, options and data whose result is not oversensitive, in single and double precision",
     "The tests use one precision each.",
     ALGOS + ["linalg.py", "dtypes.py", "models/classic.py"],
     [("type mapping", "dtypes.py"), ("casts", "linalg.py: eigh_2x2, eigh; auxiva_ip.py")],
     "property-based testing: differential between precisions, dtype invariant",
     "Random exploration; tolerance scaled by the measured sensitivity of each case.")

prop("C28", "Degenerate but ordinary recordings give finite output",
     "On recordings with exact degeneracies (silence, dead, duplicated or scaled channels, empty bins, silent "
     "stretches, quiet or loud levels), every algorithm and the time-domain separator return finite "
     "output of the right shape, without raising, in single and double precision, up to the default number of "
     "iterations.",
     ["inputs", "configurations"],
     "all algorithms, options and degenerate recordings long enough for the filter (three non-zero frames per filter coefficient for T-ISS)",
     "The tests use ordinary recordings only.",
     ALGOS + ["linalg.py", "nn.py", "models/classic.py"],
     [("regularisation and clamps", "linalg.py: solve_loaded, inv_loaded, eigh; t_iss.py: iss_block_update_type_*; beamformer.py: compute_*")],
     "property-based testing and fuzzing of degenerate inputs: finiteness invariant",
     "Random exploration.")

prop("C29", "Selection of the most energetic signals, and construction by name",
     "Selecting the most energetic signals returns exactly the requested number of signals of largest power, "
     "each unchanged, along any axis, independently for each item, for any number up to the available; "
     "construction by name returns what calling the named class or function with those arguments returns, and refuses "
     "unknown names.",
     ["inputs"],
     "all shapes, axes, levels, counts; all names and argument lists",
     "Never tested directly.",
     ["utils.py"],
     [("power ranking and gather", "utils.py: select_most_energetic"), ("import by name", "utils.py: import_name, instantiate")],
     "property-based testing: differential against a direct definition",
     "Random exploration.")

prop("C30", "An option left out has its documented default",
     "Every separator, dereverberation and beamforming class, the STFT engine, the source models, the time-domain "
     "separator, the scaling, convolution and selection functions and the command line behave, for whatever subset "
     "of their options is left out, as when the documented default values of these options are given.",
     ["inputs", "configurations"],
     "all subsets of the options, all values of the options that are given, all data",
     "The tests give the options explicitly, or compare nothing when they leave them out.",
     ALGOS + ["base.py", "stft.py", "nn.py", "scaling.py", "separate.py", "models/classic.py"],
     [("constructor defaults", "t_iss.py, auxiva_ip.py, auxiva_ip2.py, five.py, wpe.py, beamformer.py: __init__"),
      ("fallback values", "base.py: DRBSSBase.__init__, parameters.py")],
     "property-based testing: metamorphic relation, option left out = option given with its documented default",
     "Random exploration, double precision; algorithm pairs compared on well-conditioned data.")

prop("C31", "Memory: checkpointing, inference and repeated calls do not pile up spectrograms",
     "With checkpointing of the demixing matrix (use_dmc), the memory that T-ISS keeps for, and needs during, "
     "back-propagation grows with each iteration by no more than the demixing matrices, never by data of the size of the spectrogram, "
     "for any source model, number of channels, sources and taps. Without gradients, the memory in use by an iterative "
     "algorithm does not grow with the number of iterations, and no algorithm keeps data from call to call that adds up.",
     ["inputs", "configurations", "histories"],
     "all configurations, source models, recordings, numbers of iterations and of calls",
     "The tests look at results only.",
     ["t_iss.py", "auxiva_ip.py", "auxiva_ip2.py", "five.py", "wpe.py", "beamformer.py", "models/classic.py"],
     [("checkpointed iteration", "t_iss.py: over_iss_t_one_iter_dmc, T_ISS.forward"),
      ("iteration loops", "auxiva_ip.py, auxiva_ip2.py, five.py, wpe.py")],
     "property-based testing: invariant over the recorded allocations (few against many iterations or calls)",
     "Random exploration; memory of CPU tensors, double precision; growth of a quarter of a spectrogram per iteration or more is seen.")

prop("C32", "Calls that run at the same time do not interfere",
     "Calls of the same separator, dereverberation or beamforming object, time-domain separator, STFT or source model "
     "that run at the same time in several threads (with other inputs, shapes, options and gradient modes) return, "
     "and back-propagate, what each of them does alone, for source models without state.",
     ["schedules", "inputs", "configurations"],
     "all interleavings at the granularity of torch operations, all pairs of inputs and options",
     "The tests never call one object from two threads; an interference shows only under particular interleavings.",
     ALGOS + ["base.py", "nn.py", "stft.py", "models/classic.py"],
     [("state of a call kept in local variables", "t_iss.py, auxiva_ip.py, auxiva_ip2.py, five.py, wpe.py, beamformer.py, nn.py: forward"),
      ("options of the call", "base.py: _set_params")],
     "property-based testing with generated schedules: threads that take turns at torch operations, differential against the call alone",
     "Random exploration of schedules, two to four calls; threads change at torch operations only.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"],
                            "observe_at": p["observe"] or ["return values"], "hook_needed": None},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); import vlib.boot, hypothesis, torchiva; print('ok')\"",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "No hooks: every check drives the public code of /repo from outside (editable install).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
