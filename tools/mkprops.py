import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,**k):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=x,where=files[0]) for x in state],
                   mechanism=[dict(name=x,where=", ".join(files)) for x in mech],observe_at=obs,hook_needed=None)))
H=["histories","inputs"]
p("P01","Sinusoidal tracking conserves spectral peaks",
 "Every point of every track the tracker publishes is exactly one peak that was fed to it for that frame (same frequency, magnitude and phase), no peak belongs to two tracks, and every track covers a run of consecutive frames, one peak per frame, with missing values only inside the gaps of a merged track. At no time are more tracks active than the configured maximum, and no peak is discarded unless that maximum is reached.",
 H,"Every sequence of frames (any number of peaks, any frequencies and magnitudes, including empty frames), every tracker configuration, observed after every frame.",
 "The tests compare a few fitted signals with a reference; conservation has to hold over every history of births, continuations and deaths.",
 ["sample/sms/sm.py","sample/sms/mm.py"],["active tracks","published tracks","frame counter"],["SineTracker.__call__","SineTracker.deactivate","SineTracker.all_tracks_"],["tracks_","all_tracks_","n_active_tracks"])
p("P02","Peaks continue the nearest free track, strongest peak first",
 "In every frame peaks are considered from the strongest to the weakest, and each one continues the not-yet-continued active track whose last frequency is nearest to it if and only if the distance is strictly below offset + slope * (peak frequency). Active tracks that receive no peak end in that frame, and the remaining peaks start new tracks, in the order given, while fewer than the maximum number of tracks are active.",
 H,"Every history of frames and every deviation offset/slope and track limit; ties between equally strong peaks or equally near tracks may go either way.",
 "Which peak wins a contested track depends on the whole history; a test samples one signal where contention hardly occurs.",
 ["sample/sms/sm.py"],["active tracks","free peaks","free tracks"],["SineTracker.__call__","SineTracker.df","min_key"],["all_tracks_","n_active_tracks"])
p("P03","Only clean tracks are published",
 "A track is published if and only if it lasts at least max(2, ceil(minimum duration * frame rate)) frames, its mean frequency is within the frequency bounds (ends included, an absent bound not applied), and the line fitted to its magnitude does not rise and starts at or above the peak threshold - all measured in the original direction of time when the audio is analysed in reverse. With a strip time, the tracks published are only those starting no later than ceil(strip time * frame rate) frames after the beginning of the sound, also in reverse.",
 H+["configurations"],"Every track history, every combination of duration, bounds, threshold, direction and strip time; both for tracks that have ended and for those still active, at every frame.",
 "Each criterion interacts with direction and with being still active; tests check a couple of settings on one sound.",
 ["sample/sms/mm.py","sample/sms/sm.py"],["active tracks","published tracks"],["ModalTracker.track_ok","SineTracker.min_sine_len","ModalTracker.all_tracks_","ModalTracker.strip_n"],["tracks_","all_tracks_"])
p("P04","Track merging never loses or reorders data",
 "When a clean track ends it is appended to a published track only if that one had ended, with a gap of at least one frame, before it started, and their frequency difference under the merge strategy (mean frequencies for 'average', last against first frequency for 'single') is strictly below the deviation threshold at its first frequency; among such candidates the nearest is chosen, and with no candidate it is published separately. Merging keeps all points of both tracks at their original frames and fills exactly the missing frames in between with NaN in frequency, magnitude and phase.",
 H+["configurations"],"Every history in which tracks end and later ones start, both strategies, any number of successive merges into one track.",
 "Needs specific multi-step histories (several ended tracks, overlapping candidates, repeated merges) no test constructs.",
 ["sample/sms/mm.py"],["published tracks"],["ModalTracker.deactivate","_track_diff_avg","_track_diff_single"],["tracks_"])
p("P05","Analysis frames tile the signal exactly",
 "A signal of n samples is analysed in exactly the frames of the window length that start at multiples of the hop and lie wholly inside the (optionally padded) signal, in order, each holding precisely those samples; a signal shorter than the window gives no frames. Padding puts ceil(w/2) zeros before and floor(w/2) after the signal, reversal flips the signal before framing, the input is never modified and memory outside it is never read.",
 ["inputs","configurations"],"Every signal length, window length (odd and even), hop (smaller, equal, larger than the window), padded or not, reversed or not, and memory layout of the input.",
 "Off-by-one and out-of-bounds frames appear only for particular size residues, and reading outside the buffer usually goes unnoticed.",
 ["sample/utils/dsp.py","sample/sms/sm.py"],["window views"],["n_windows","overlapping_windows","SinusoidalModel.time_frames","SinusoidalModel.pad_input"],["time_frames","overlapping_windows","n_windows","dft_frames"])
p("P06","Spectral peaks are exactly the strict local maxima above threshold",
 "The detected peaks of a spectrum are exactly the interior positions strictly greater than both neighbours and, when a threshold is given, strictly greater than it, in increasing order. The refined location is the vertex of the parabola through the three points, hence within half a bin of the peak, with a magnitude not below it and a phase interpolated at that location.",
 ["inputs"],"Every real sequence, including plateaus, monotone and very short ones, with and without threshold and phase.",
 "Plateaus, borders and threshold equality are combinatorial; the tests use natural spectra.",
 ["sample/sms/dsp.py"],["spectrum"],["peak_detect","peak_refine","peak_detect_interp"],["return values"])
p("P07","Each mode is fitted on the true time and level of its track",
 "For every track the regression receives exactly the non-missing points, at times (start frame + index) / frame rate, shifted by half a window when not padded and measured from the end of the signal when analysed in reverse, together with magnitudes raised by 20*log10(2) dB; a regression of beats receives, in addition, the frequencies of these points and the sample rate of the analysis. The mode's frequency is the reduction of the same points' frequencies, its decay is -40*log10(e) divided by the fitted slope and its amplitude 10^(intercept/20).",
 H+["configurations"],"Every track set (with or without gaps), start frame, hop, window size, sample rate, padding, direction and regressor.",
 "The tests compare final parameters of one sound within a tolerance; a shift of half a window or a mishandled gap stays inside it.",
 ["sample/sample.py"],["track list"],["SAMPLE._preprocess_track","SAMPLE._fit_track"],["regressor inputs","param_matrix_"])
p("P08","A fit depends only on its input and parameters, not on history",
 "Fitting a model gives the same modes, tracks and saved intermediate data as fitting a fresh model with the same parameters on the same audio, whatever was fitted before - also after a fit that failed midway. In particular no track, peak or intermediate result of an earlier fit is visible after a later one.",
 ["histories"],"Every sequence of set_params, successful and failing fits, resets and clones on one model object, for the plain and the beat-decoupling model.",
 "Tests fit a fresh object once; leftovers show only in sequences of fits.",
 ["sample/sample.py","sample/sms/sm.py","sample/utils/learn.py","sample/beatsdrop/sample.py","sample/beatsdrop/decision.py"],["tracker state","intermediate storage","param_matrix_"],["SAMPLE.fit","SinusoidalModel.fit","SineTracker.reset","OptionalStorage.reset"],["param_matrix_","tracks_","intermediate"])
p("P09","Model objects never share mutable parts by accident",
 "Two models built with default arguments, or a model and its clone, never share a sub-model, storage or learned state: setting a parameter or fitting one leaves every other unchanged. A part passed in explicitly is the one used, and assigning nothing restores a fresh default.",
 ["histories","configurations"],"Every sequence of constructing, cloning, setting nested parameters, resetting to default and fitting over several live models.",
 "Aliasing shows only in interleaved use of several objects.",
 ["sample/utils/learn.py","sample/sample.py","sample/sms/sm.py","sample/sms/mm.py","sample/hinge.py","sample/optimize.py"],["sub-models"],["default_property","set_params","clone"],["get_params","object identity"])
p("P10","Parallel fitting is indistinguishable from serial fitting",
 "Fitting with a process pool gives the same modes in the same order and the same saved intermediate results as fitting serially, for any number of workers and any order in which workers finish. Afterwards, also when a task fails with an error in a worker, the model holds its own ordinary storage objects again, and the error reaches the caller.",
 ["schedules","fault_sequences"],"Every completion order of the per-track tasks, number of workers, supplied or internal pool and manager, refit history, saving on or off, and failing task.",
 "The schedule of worker processes is not under the tests' control and failures are not injected.",
 ["sample/_training.py","sample/sample.py","sample/utils/learn.py"],["managed storage","results list"],["sample_training_context","_wrap_as_managed","_progress_starmap"],["param_matrix_","intermediate","get_params"])
p("P11","Intermediate storage keeps each value at its place",
 "When saving is on, a value appended at an index is found at exactly that index of its key, values appended without index come in order after the existing ones, unfilled places hold nothing, and no operation on one key or index changes another; when saving is off nothing is stored; the appended value is always returned, the state handed out is an independent copy unless asked otherwise, and reset forgets everything. This also holds when several worker processes append to a shared storage at the same time: no entry is lost, duplicated or misplaced.",
 ["schedules","histories"],"Every sequence of operations over keys and indices, and every interleaving of concurrent clients of the shared storage.",
 "The lost-update interleavings are rare in ordinary runs.",
 ["sample/utils/learn.py","sample/_training.py"],["storage cache"],["OptionalStorage.append","OptionalStorage.reset","OptionalStorage.get_state","_OptionalStorageManager"],["get_state","__getitem__"])
p("P12","The mode table lists exactly the valid modes of the tracks",
 "After a fit the mode table holds, in track order, one column per track, or two consecutive ones for a track decided to be a beat, with frequency, decay, amplitude (and phase) kept together; columns containing any non-finite value are dropped whole and nothing else is dropped, altered or reordered. With no valid mode the table is empty with the right number of rows.",
 ["inputs","configurations"],"Every number of tracks, every pattern of beat decisions and non-finite parameters, plain and beat-decoupling model.",
 "Non-finite columns and mixed decisions at chosen positions do not occur in the tests' sounds.",
 ["sample/sample.py","sample/beatsdrop/sample.py","sample/beatsdrop/decision.py"],["param_matrix_"],["SAMPLE.fit","SAMPLE._valid_params_","BeatDecisor.track_params","AlmostNotABeatDecisor.decide_beat"],["param_matrix_","freqs_","decays_","amps_","phases_"])
p("P13","Export and resynthesis use the same ranked modes",
 "Modes are ranked by the chosen feature (energy a^2*d/4 by default, descending unless asked otherwise), and the exported dictionary lists every mode in that order with frequency, decay and gain of the same mode at the same position, uniform weights summing to one and the number of active modes min(limit, total); it always serialises to JSON, also with no modes. Resynthesis with a limit of k sounds exactly the first k modes of that same ranking with their own phases.",
 ["inputs","configurations"],"Every mode table (ties, zero modes, one mode), every ranking feature and direction, every limit from zero up.",
 "Association errors cancel or hide when modes are few, sorted or all used.",
 ["sample/sample.py","sample/beatsdrop/sample.py"],["param_matrix_","max_n_modes"],["SAMPLE.mode_argsort_","SAMPLE.sdt_params_","SAMPLE.predict","modal_energy","additive_synth"],["sdt_params_","predict"])
p("P14","Deprecated arguments keep working like their replacements",
 "Passing a deprecated argument name has the same effect as passing its replacement, issues exactly one deprecation warning naming the old and the new argument, and leaves other arguments untouched; no warning is issued when only current names are used. This holds in construction, in parameter setting and in fitting.",
 ["programs","inputs"],"Every deprecated name of every public callable, alone and combined, together with current names.",
 "Tests cover some names in isolation; several conversions have never been executed.",
 ["sample/utils/__init__.py","sample/sample.py","sample/sms/sm.py","sample/sms/mm.py","sample/optimize.py","sample/psycho.py"],["keyword arguments"],["deprecated_argument"],["get_params","warnings"])
p("P15","Output buffers receive the result and inputs stay intact",
 "Every function taking an output buffer writes its result in that buffer and returns it, with the same values as without a buffer, also when the buffer is the input itself; without a buffer it allocates a new one and leaves all inputs unmodified. Scalar inputs give scalar results, and selecting a function variant by name gives that variant's result or an error listing the supported names.",
 ["inputs","programs"],"Every function with an output buffer, scalar and array inputs of several types, buffer absent, fresh or aliasing the input, every variant name.",
 "Aliasing and stale-buffer errors need particular call shapes.",
 ["sample/utils/__init__.py","sample/utils/dsp.py","sample/psycho.py","sample/hinge.py","sample/sample.py","sample/beatsdrop/__init__.py"],["output buffer"],["numpy_out","function_with_variants","function_variant"],["return value","buffer contents"])
p("P16","Applied settings are always valid and survive a restart",
 "Whatever the user types, applying the settings terminates without an uncaught error and yields parameters within their documented domain (power-of-two FFT size not smaller than the window, positive hop, window, mode and sine counts, ordered frequency bounds, known window type and theme, zero workers unless multiprocessing is on). The entries shown, the saved file and the parameters in use agree, and applying again or restarting from the saved file reproduces them.",
 ["inputs","histories"],"Every combination of entry texts (numbers, negative, fractional, huge, infinite, not-a-number, garbage, empty) and every sequence of edits, applies and restarts, including hand-edited files.",
 "The widgets are not tested at all, and the interplay of parsing, sanitising and persistence is combinatorial.",
 ["sample/widgets/settings.py","sample/widgets/userfiles.py"],["settings entries","settings file","model parameters"],["SettingsTab.apply_cbk","postprocess_windows","postprocess_fbound","custom_positive_int","next_power_of_2"],["settings file","sample_object_kwargs","entries"])
p("P17","Saving a user file is all or nothing",
 "If saving settings or cached session state is interrupted at any point (crash, full disk, or data that cannot be serialised), the file afterwards holds either the complete previous content or the complete new content, and can be loaded. A save reported successful is what the next load returns.",
 ["crash_points","fault_sequences"],"Every byte offset at which writing fails or the process dies, with or without a previous file, JSON and pickle.",
 "Tests do not crash or fill the disk in the middle of a write.",
 ["sample/widgets/userfiles.py"],["user file"],["UserFile.save_json","UserFile.save_pickled","UserFile.open"],["file contents","load_json","load_pickled"])
p("P18","The trim region is always a non-empty part of the audio",
 "Whenever audio is loaded the trim region satisfies 0 <= start < stop <= length, after any sequence of loading files, typing times, clicking, dragging and toolbar use, and a newly loaded file starts with a region of its own: the longest stretch between consecutive onsets or the end (the first of them, or all of it without onsets). A click or typed time moves only the boundary it addresses (a click the nearer one), to that time clamped to the other boundary and the audio, and refreshing the entries never moves a boundary.",
 ["histories","inputs"],"Every event sequence: loads (including silent, very short, float and multi-channel audio), numeric and garbage entries, presses and releases inside or outside the plot, toolbar modes.",
 "The GUI callbacks have no tests; violations need particular event sequences.",
 ["sample/widgets/audioload.py"],["audio_trim_start","audio_trim_stop","pressed side"],["AudioLoadTab.set_trim","AudioLoadTab.auto_trim","AudioLoadTab.manual_trim_cbk_press","AudioLoadTab.manual_trim_cbk_release","AudioLoadTab.load_cbk"],["audio_trim_start","audio_trim_stop","trim entries"])
p("P19","A session survives a theme reload and nothing else does",
 "Reloading the interface restores exactly the audio, sample rate and trim region of the moment of reload; the cached session is consumed by that one start and never shows up in a later one. The launcher starts the interface again if and only if a reload was requested, and the loaded values are visible to every tab.",
 ["histories","fault_sequences"],"Every sequence of load, trim, apply, accepted or declined reloads, closes and restarts, with or without audio.",
 "Spans several processes' lifetimes; not tested.",
 ["sample/widgets/settings.py","sample/widgets/audioload.py","sample/widgets/main.py","sample/gui.py","sample/widgets/utils.py"],["audio cache file","reload flag","shared attributes"],["SettingsTab.apply_cbk","AudioLoadTab.__init__","SAMPLEGUI.__init__","SAMPLERoot.on_closing","run"],["audio_x","audio_trim_start","audio_trim_stop","cache file"])
p("P20","Played and exported results always belong to the last analysis",
 "At most one analysis runs at a time and a request during one is ignored; after each analysis the resynthesis played, plotted or exported is the one of that analysis, clipped to [-1, 1]. Before any analysis, or without audio, playing, exporting and analysing report an error and change nothing, and every failure leaves the interface able to analyse again.",
 ["histories","schedules"],"Every sequence and overlap of load, trim, analyse (succeeding or failing), play, export JSON and export WAV.",
 "Callbacks overlap through event-loop re-entrancy, which no test drives.",
 ["sample/widgets/analysis.py","sample/widgets/sample.py"],["analysis lock","sample_object","audio_resynth_x"],["AnalysisTab.analysis_cbk","AnalysisTab._get_audio","AnalysisTab.export_cbk","AnalysisTab.wav_export_cbk","_non_block_lock"],["audio_resynth_x","sample_object","exported files"])
p("P21","Reported progress is consistent",
 "During a fit progress goes through two phases, frames then tracks: each announces its total first, never moves backwards, never exceeds the total or the number of items processed so far, and reaches the total before the phase is declared complete. This is the same with and without worker processes and with zero items.",
 ["schedules","inputs"],"Every number of frames and tracks, serial and parallel, every completion order.",
 "The progress calls are never observed by tests, and parallel order varies.",
 ["sample/_training.py","sample/sample.py","sample/sms/sm.py","sample/widgets/sample.py"],["progress value and maximum"],["FitArgs.starmap_progress","_progress_starmap","_GUIFitArgs.progress_update"],["progress_start","progress_update","progress_stop"])
p("P22","Hyperparameter optimisation evaluates and returns exactly what it reports",
 "Every evaluated point is fitted on a fresh copy of the model with fixed parameters kept and optimised ones set by position, the given model is never modified, and the returned model is fitted with the best point found; continuing from a previous result never re-evaluates its points. The parameter remapping gives a window of the requested fraction of the FFT size and a hop between one and the window size, leaves explicit values alone, and the progress display counts every call once, with the random stage lasting exactly the declared number of points.",
 ["histories","inputs"],"Every sequence of evaluations and continuations, every set of optimised and fixed parameters.",
 "The tests run one short optimisation and look only at its end result.",
 ["sample/optimize.py"],["dimensions","callback counter"],["SAMPLEOptimizer.loss","SAMPLEOptimizer.gp_minimize","sample_kwargs_remapper","TqdmCallback.__call__"],["fit calls","returned model","progress display"])
p("P23","Onsets are local maxima selected by the published rule",
 "A sample is a local maximum of radius w exactly when it lies at least w samples from both ends and is not below any key value within distance w; a sample is an onset exactly when it is also at or above the previous value of the adaptive envelope and the asymmetric local mean plus the offset. Combining with an existing selection only removes samples, and detected onsets are scaled to positions inside the audio.",
 ["inputs","configurations"],"Every sequence, radius, multiplier, feedback and offset, including plateaus and constant signals.",
 "Border handling and plateaus depend on combinations of radius and position.",
 ["sample/utils/dsp.py"],["selection mask"],["local_maxima","onset_selection","_onset_selection_g","_onset_selection_m","onset_detection"],["return values"])
p("P24","Bisection keeps the zero bracketed",
 "The zero-crossing search returns a point inside the given interval within interval/2^(steps+1) of a sign change of the function, for rising and falling functions and for either order of the boundaries, or the exact zero when it meets one; it refuses boundaries of equal sign. It evaluates the function a bounded number of times and only inside the interval.",
 ["inputs"],"Every sign pattern of the function over the search grid, every number of steps, either order of boundaries, zeros at the boundaries or midpoints.",
 "The branch taken at each step depends on the sign pattern; tests use two functions.",
 ["sample/utils/dsp.py"],["bracket"],["dychotomic_zero_crossing"],["return value","evaluated points"])
p("P25","Filterbank convolution aligns and subsamples exactly",
 "The cochleagram has one row per filter, each being the full convolution of the signal with that filter's impulse response, delayed so that all filters' time origins coincide, and zero elsewhere; the strided form yields every stride-th sample of it. Direct and automatic methods agree, and conflicting options are refused.",
 ["inputs","configurations"],"Every set of response lengths and delays, signal length, stride, real or complex responses.",
 "Offsets, strides and lengths interact through residues; tests use one bank.",
 ["sample/psycho.py","sample/utils/dsp.py"],["responses","offsets"],["PrecomputedIRBank.convolve","strided_convolution","strided_convolution_complex_kernel"],["return values"])
p("P26","Multi-scale loss does not depend on how it is scheduled",
 "The multi-scale loss is the sum of the single-scale losses over all configured scales, each evaluated exactly once on the given pair with its own settings; computing it in a pool of any size, given or internal, gives the same number as computing it serially, and an error in one scale reaches the caller. It is zero for identical signals and symmetric for the default loss.",
 ["schedules","inputs"],"Every list of scales, number of workers, completion order and failing scale.",
 "Scheduling of workers is not controlled by tests.",
 ["sample/evaluation/metrics.py"],["pending results"],["MultiScaleSpectralLoss.__call__","multiscale_spectral_loss","lin_log_spectral_loss"],["return value"])
p("P27","Beat parameters stay attached to their partials",
 "Reordering a pair of beating partials exchanges amplitude, frequency, decay and phase together and gives the requested order of energies, and a pair strictly in the requested order is returned unchanged. Disambiguation only chooses between the fitted association and the one with frequencies and phases exchanged, keeping the one with the smaller residual, and the two modes emitted for a beat are those two partials.",
 ["inputs"],"Every eight-tuple of parameters, key and direction, including ties, and every residual ordering of the two hypotheses.",
 "Association mistakes produce plausible sounds; tests assert little about pairing.",
 ["sample/beatsdrop/regression.py","sample/beatsdrop/decision.py"],["beat parameters"],["sort_params","DualBeatRegression.fit","BeatDecisor.output_beat_params"],["params_","param_matrix_"])
p("P28","Random test sounds are reproducible and within their ranges",
 "Two generators with the same seed and the same sequence of requests produce identical values, asking for n values at once gives the same as asking n times for one, successive requests give new values, and the random state is private to the generator. Generated beat differences, decays and amplitudes respect the configured limits, and audio is the declared sum of the declared partials plus noise with the declared sample count.",
 ["histories","configurations"],"Every sequence of requests of every kind and size, every configuration and seed.",
 "Tests sample a couple of draws; reproducibility is a property of request histories.",
 ["sample/evaluation/random.py"],["generator state"],["_repeated_samples","BeatsGenerator.freqs","BeatsGenerator.amps","BeatsGenerator.audio"],["returned values"])
p("P29",
 "A beat is exactly the sum of its two partials",
 "The amplitude modulation, frequency modulation and sound computed for two beating partials are those of the sum of the two partials: the squared amplitude is the squared modulus of the sum, the frequency is the derivative of its phase (including the part due to different decays), and the sound equals the sum of the two partials at every time-step, wherever the time axis starts, for constant and for time-varying (decaying) amplitudes in any combination. Exchanging the partials changes nothing, each variable is the same whether asked alone or with others and in any order, and the time axis is left untouched. (Time-steps where the two partials cancel out exactly are excluded.)",
 ["inputs"],
 "All pairs of partials (amplitudes, decays, frequencies, phases), time axes, combinations of variables requested.",
 "Tests compare one beat on an axis from zero; the identities depend on every parameter and on where the axis starts.",
 ["sample/beatsdrop/__init__.py", "sample/beatsdrop/regression.py", "sample/utils/__init__.py"],
 ["partials", "time axis", "accumulated phase"],
 ["Beat.compute", "ModalBeat", "ExponentialDecay", "BeatRegression.predict"],
 ["am", "fm", "x"])
p("P30",
 "Every track can be fitted, from a start within its bounds",
 "For every published track (any levels: decaying, steady, rising, beating, noisy; any frequencies: varying or constant; any times), the default starting point of the hinge and of the beat regression lies within the default bounds (strictly, for beats), the bounds admit the observed knees, amplitudes and frequencies, positive decays and every phase, and the fit ends inside the bounds with a cost no greater than at the start. The hinge starts from the least squares line of the data and predicts k*min(x,a)+q. Given bounds that exclude the start are refused. Therefore no single track makes the analysis of a sound fail. (Tracks whose level extrapolated to time zero is beyond 600 dB are excluded for beats.)",
 ["inputs", "configurations"],
 "All tracks: number of frames, times, levels, frequencies; losses and methods of the optimisation.",
 "Tests fit a few well-behaved decaying tracks; starting points and bounds depend on signs and ties of the data.",
 ["sample/hinge.py", "sample/beatsdrop/regression.py"],
 ["starting point", "bounds", "estimate"],
 ["HingeRegression.fit", "HingeRegression.predict", "BeatRegression.fit", "DualBeatRegression.fit", "SAMPLEBeatsDROP.fit"],
 ["coefficients", "exceptions"])
p("P31",
 "Mel filterbanks are exactly the published triangles",
 "For every list of corner (or centre) frequencies, number of filters, scale, bandwidth and frequency axis, mel_triangular_filterbank returns for each filter and frequency the value of a triangle that is 1 at its centre, 0 at and beyond its corners and linear in between. Half-overlapping filters take consecutive corners, so they sum to 1 between the first and last centre; with a bandwidth function, each triangle is at half height half the bandwidth away from its centre. With n_filters, corners are uniformly spaced on the transformed scale (the default mel, or any given pair of transforms) between the limits given or those of the axis. Too few corners raise ValueError. stft2mel is (bank . |stft|^p)^(1/p) per frame, the complex linear mix for p=None, uses a given bank as it is, and mel_spectrogram is exactly that of the STFT of the sound. No argument is changed.",
 ["inputs", "configurations"],
 "All corner lists, widths, scales, axes, powers and magnitudes.",
 "Tests check shapes and one default bank; the value of a triangle depends on the side and on ties with corners.",
 ["sample/psycho.py"],
 ["filterbank", "spectrogram"],
 ["mel_triangular_filterbank", "stft2mel", "mel_spectrogram"],
 ["filter weights", "centre frequencies", "band magnitudes"])
p("P32",
 "Gammatone filters always reflect their current settings",
 "After any sequence of assignments to a gammatone filter's frequency, order, bandwidth, leading time, group delay, phase and scale (unset, numbers or functions of the filter), every derived quantity read from it - and its envelope, wave function and response - is that of the current settings: bandwidth defaults to the equivalent rectangular bandwidth, the lead to the delay of the peak (so that the peak is at time zero), the phase to the one coherent with the lead; an assigned group delay is read back. The decay time is where the envelope after its peak falls to the requested level, for every order, and the suggested size ends at the first quarter of a turn not before it. A filterbank is the sequence of its filters, with their attributes, also when copied or pickled; built from limits, its centres are uniformly spaced inside them on the transformed scale, two per unit by default. Normalised responses have unit energy times the squared scale.",
 ["histories", "inputs", "configurations"],
 "All sequences of assignments and reads, all filter orders, bandwidths, phases and bank limits.",
 "Tests build each filter once with defaults; derived values depend on the order of assignments.",
 ["sample/psycho.py"],
 ["filter settings", "bank members"],
 ["GammatoneFilter", "GammatoneFilter.t60", "GammatoneFilter.ir_size", "GammatoneFilter.ir", "GammatoneFilterbank"],
 ["attributes", "impulse response", "IR size"])
p("P33",
 "Autocorrelograms are exactly those of the signal",
 "For every signal, FFT size and length, the autocorrelogram computed from a one-sided, two-sided, magnitude or power spectrum is the circular autocorrelation of the (zero-padded) signal truncated to the length asked for, and by default that of the size of the spectrum. For uneven times, the periodogram holds, at exactly the bins from the high-pass corner (inclusive) to the low-pass corner (positive, exclusive) and at the frequencies of an FFT, half the energy explained by the sinusoid of least squares (at zero, the squared mean) and zero elsewhere; its autocorrelogram is the inverse transform of that, by default with as many lags as samples of the equivalent uniform signal, padded to twice as much, and on uniform samples it agrees with the autocorrelation. Frequencies and bins convert exactly, detrending leaves exactly the residual of the line of least squares, and no input is changed.",
 ["inputs", "configurations"],
 "All signals, sizes, spectra kinds, times, band corners and sampling frequencies.",
 "Tests compare a few random signals with defaults; errors depend on parity, padding and the corners of the band.",
 ["sample/utils/dsp.py", "sample/beatsdrop/regression.py"],
 ["autocorrelogram", "periodogram"],
 ["fft2autocorrelogram", "lombscargle_as_fft", "lombscargle_autocorrelogram", "detrend", "f2bin", "bin2f"],
 ["lags", "bins", "residuals"])
p("P34",
 "Plots draw exactly the data they are given",
 "For every analysis, signal, model and option, the plots show exactly their data. Tracking plots in two and three dimensions draw one line per track with one point per frame, at times one hop apart, the points of all tracks aligned on the frames of the sound and mirrored together if the analysis was reversed (in both plots alike), dashed exactly where the decisor chose beats. Time-frequency plots show the matrix they are given over the limits they are given, with the aspect ratio and size asked for. Resynthesis plots draw the original and what each model predicts at the times of the samples, with their titles, a level floor where asked for, the sampling frequency of the fastest model by default, and call the given function once per signal in order. Comparisons of beat regressions work for any number of models and any form of axes, fit copies of the given models on the preprocessed track and draw the track, the predictions and the levels (hiding those at most -60 dB). No input is changed.",
 ["inputs", "configurations"],
 "All tracks, reversals, decisions, limits, floors, numbers of models, layouts of axes.",
 "The tests do not plot at all; errors need reversed analyses, single models or tracks that start late.",
 ["sample/plots.py"],
 ["lines", "images"],
 ["sine_tracking_2d", "sine_tracking_3d", "tf_plot", "resynthesis", "beatsdrop_comparison"],
 ["points of lines", "images", "titles", "limits", "calls", "fits"])
p("P35",
 "Notebook displays show exactly what they are given",
 "For every model, the collapsible display lists every parameter exactly once, nested models within a panel of their own, each with the complete description its documentation gives (references replaced by their text, nothing dropped) or else its name; on a page where any number of models are displayed one after another, a panel is open exactly after an odd number of clicks on it. Web audio plays exactly the samples, by channel, at the given rate each time its button, labelled as asked, is pressed. Labels count from one, combine index and text as available, and precede the audio, which holds exactly the samples, clipped to full scale unless normalised; the arrays and options given are not changed. Timings show the time elapsed in the unit, digits, title and message asked for.",
 ["inputs", "histories"],
 "All models, documentation layouts, sequences of displays and clicks, signals and options.",
 "The tests do not cover displays; errors need two references on a line or a second display on a page.",
 ["sample/ipython.py", "sample/collapsible_params.html", "sample/web_audio.html"],
 ["panels", "displays"],
 ["CollapsibleModelParams", "WebAudio", "LabelAndPlayForeach", "time_this"],
 ["nested items", "open panels", "samples played", "labels", "messages"])
p("P36",
 "Spectra carry true frequencies, levels and phases",
 "For every frame, window and transform length, the zero-phase spectrum is exactly the transform of the windowed frame with its middle at the time origin (half the transform length plus one bins, magnitudes in decibels, unwrapped phases), and leaves its inputs as they are. In every analysis of a sound made of stationary tones, whatever the scale of the window, the zero padding of the transform, the padding of the input, or a reversed analysis, each frame wholly within the sound yields exactly the tones above the threshold, in increasing order, each with its frequency in Hz, its level (half its amplitude) in decibels and its phase at the middle of the window; the peaks stored are those that are tracked.",
 ["inputs"],
 "All frames, windows, transform lengths and sums of stationary tones, on and between bins.",
 "The tests compare a few frames with stored values; errors in windows of odd length, zero padding, offsets of later frames or phases between bins show only in combinations.",
 ["sample/sms/dsp.py", "sample/sms/sm.py", "sample/sms/mm.py"],
 ["frames", "spectra", "peaks"],
 ["dft", "peak_detect_interp", "SinusoidalModel.fit", "ModalModel.fit"],
 ["signals of spectra", "peaks given to the tracker"])
p("P37",
 "Warnings are silenced only during the calls that ask for it",
 "For every nesting of calls that filter warnings, switched on or off by their toggle (given or by default), returning or failing through any number of callers, each warning is handled as the innermost call concerned with its category asked (dropped, raised as an error, or delivered to the innermost recording call, else to the user), and when a call is over, however it ends, the filters of the process are those of before it. The toggle is not passed on, arguments and results are. Fitting a model silences runtime warnings only, optimising and comparing beat regressions all warnings, by default and only for the fits they make while optimising or comparing.",
 ["histories", "inputs"],
 "All nestings, toggles, categories, actions, failures; fits, optimisations, comparisons.",
 "The tests look at single successful calls; a filter left behind by a failing fit silences or breaks unrelated code later.",
 ["sample/utils/__init__.py", "sample/sample.py", "sample/optimize.py", "sample/plots.py"],
 ["filters of warnings", "recorded warnings"],
 ["warnings_simplefilter", "SAMPLE.fit", "SAMPLEOptimizer.gp_minimize", "beatsdrop_comparison"],
 ["where each warning goes", "filters after each call"])
p("P38",
 "Spectral losses are distances of spectrograms",
 "For any two sounds, and any window (given, or by name and size), transform size, overlap, exponent, weight and floor, the spectral loss is the lp distance of the magnitudes of the frames of their spectrograms plus alpha times that of their levels in decibels, where levels below the floor count as the floor: on a stationary sound each frame of the window, advanced by the window less the overlap, counts once. So it is symmetric, zero for equal sounds, does not decrease when the floor is lowered, and does not change the sounds.",
 ["inputs"],
 "All sounds, windows, sizes, overlaps, exponents, weights, floors.",
 "The tests only look at a few losses of noise; overlaps, sizes other than the window and floors change the value silently.",
 ["sample/evaluation/metrics.py", "sample/utils/dsp.py"],
 ["magnitudes replaced by levels in place"],
 ["lp_distance", "lin_log_spectral_loss", "a2db", "multiscale_spectral_loss"],
 ["loss values"])
p("P39",
 "Psychoacoustic scales are the published ones and invert each other",
 "Bark, mel, Cam (ERB-rate) scales, equivalent rectangular bandwidths and A-weighting have the published values at every frequency, for each named definition and for the default one; scales and bandwidths increase with frequency; conversions back to hertz by the same definition return the frequency, any number of times; numbers, lists and arrays give the same values.",
 ["inputs", "histories"],
 "All audible frequencies, definitions, chains of conversions, forms of argument.",
 "The tests check that conversions there and back agree, so a change to both, or to a scale without inverse, goes unnoticed.",
 ["sample/psycho.py", "sample/utils/__init__.py"],
 ["registered definitions"],
 ["hz2bark", "bark2hz", "hz2mel", "mel2hz", "erb", "hz2cams", "cams2hz", "a_weighting"],
 ["returned values"])
p("P40",
 "Regressions of beats minimise the differences they announce",
 "Fitting a beat asks once for a start, then for bounds around it, then minimises the squared residuals from there, with the options given, and returns what it found. The residuals are those of the amplitude of the track against that of the two partials at the times of the track and, for the dual regression, of the absolute frequency, kept within a number of interquartile ranges of its median and weighted, each through its loss function (by default the difference, and the difference in mel). By default the fit starts from the level and decay of the line through the levels, and from two frequencies around the mean frequency that beat at the rate and phase of the track. The track given is left as it is.",
 ["inputs", "configurations"],
 "All tracks, parameters, weights, clips, losses and options.",
 "The tests only look at whether a fit of a synthetic beat ends close enough, which wrong residuals or starts still allow.",
 ["sample/beatsdrop/regression.py", "sample/beatsdrop/__init__.py", "sample/utils/dsp.py"],
 ["residual function", "start of the fit"],
 ["BeatRegression._residual_fn", "DualBeatRegression._residual_fn", "BeatRegression._default_params_init", "BeatRegression.fit"],
 ["residuals", "arguments of losses", "start values"])
p("P41",
 "Sounds enter and leave the interface unchanged",
 "A file that is loaded sounds as it is: integer samples (signed, or unsigned around the middle of their range) are divided by full scale so that silence is zero, floating point samples are unchanged, several channels become their mean, at the sample rate of the file. Choosing no file, or one that is empty or cannot be read, leaves the audio as it is, and the latter shows one error. What is played, and what is analysed, is exactly the trim region, at the sample rate of the file; what is resynthesised is evaluated at the times of its samples, and the same clipped samples at the same rate are played and exported, so that loading what was exported gives the same sound. Dialogs offer the folder of the last file chosen, or saved, and its name.",
 ["inputs", "histories"],
 "All formats, sample values, channels, rates, regions and sequences of loading, trimming, analysing, playing and exporting.",
 "No test opens the interface; scaling, channels and regions are only exercised by hand with ordinary stereo files.",
 ["sample/widgets/audioload.py", "sample/widgets/analysis.py", "sample/widgets/audio.py"],
 ["audio_x and audio_sr", "audio_resynth_x"],
 ["AudioLoadTab.load_cbk", "AnalysisTab._get_audio", "AnalysisTab.wav_export_cbk", "TempAudio"],
 ["audio_x", "buffers given to the mixer", "exported files"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,x['title']
print(len(P))
