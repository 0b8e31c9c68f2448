"""Source of properties.jsonl (run me to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["appletree/" + f for f in files], mechanism=[dict(name=m, where=w) for m, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Deduced workflow computes the registered dataflow",
  "For any acyclic set of registered plugins and any requested data names, the compiled simulation returns exactly the requested quantities in the requested order with the efficiency last, each one produced by the plugin registered last for that name from the values of its declared dependencies, with every needed plugin run once and none run before its inputs exist. "
  "A request that cannot be resolved is rejected with an error, and an earlier deduction or other components do not change the result. The random key is threaded through all plugins, so no two random draws of one simulation share it.",
  ["programs", "inputs", "histories"], "over plugin graphs (depth, diamonds, multi-output plugins, overridden producers), requested name lists and orders, sequences of deductions",
  "Tests deduce a handful of shipped graphs and never check which plugin produced a value or in which order plugins ran.",
  ["component.py", "plugin.py"], [("dependency deduction, worksheet and code generation", "appletree/component.py ComponentSim")],
  ["compiled simulate() of toy plugins with integer arithmetic", "call order and key seen by each plugin"])
p("C02", "Needed parameters are exactly what the simulation reads",
  "After a component or likelihood is set up, the parameters it declares as needed are exactly the ones its simulation and normalisation read: giving just those is enough, and withholding any one of them fails. "
  "A fit context refuses to start when its parameter list contains parameters that nothing needs.",
  ["programs", "configurations"], "over shipped and generated components, map configurations with and without scalers, aliases and deduced subsets",
  "Tests always pass the complete shipped parameter file, so missing or surplus names are never noticed.",
  ["component.py", "likelihood.py", "context.py", "config.py"], [("needed_parameters bookkeeping", "component.py/likelihood.py/context.py"), ("scaler of maps with uncertainty", "config.py SigmaMap")],
  ["keys read from a recording parameter mapping while the simulation is traced"])
p("C03", "Simulation is a pure function of key, size and parameters",
  "Simulating with the same key, batch size and parameters gives bit-identical results whatever ran before, and the returned key always differs from the one given, so chained calls give independent samples. "
  "Simulating several times equals chaining single simulations through the returned key and concatenating their outputs, optionally dropping events of zero efficiency; the caller's parameters are never modified.",
  ["histories", "inputs"], "over keys, batch sizes, parameter values and interleavings with other simulations",
  "Tests only check that simulations run; reproducibility and key threading are never compared.",
  ["component.py", "likelihood.py", "randgen.py"], [("explicit key threading", "plugins and generated code"), ("multiple_simulations", "component.py")],
  ["returned keys and arrays of simulate, simulate_hist, simulate_weighted_data, multiple_simulations"])
p("C04", "Random samplers draw from the distribution they name",
  "Every random sampler returns values of the broadcast (or requested) shape and documented type whose distribution is the named one for all valid parameters (uniform, Poisson, gamma with rate, normal, clipped normal, skew normal, Bernoulli, binomial, negative binomial, generalized Poisson), inside its support, including degenerate parameters. "
  "Elements of one call and successive calls through the returned key are independent.",
  ["inputs"], "over sampler parameters (small, large, degenerate, array-valued), shapes and keys",
  "No test looks at the distribution of a sampler.",
  ["randgen.py"], [("samplers", "appletree/randgen.py")], ["empirical distribution of large samples against exact distribution functions"])
p("C05", "Two-half-normal sampling, density and error conversion agree",
  "The two-half-normal density integrates to one, is continuous at its mode and has the given widths on each side; both its samplers (NumPy and JAX) draw from that density, and the band version uses linearly interpolated mode and widths and rejects points outside its range with log-density minus infinity. "
  "Widths converted from asymmetric errors put the 16th and 84th percentiles at the given errors with the mode at the centre, on the same sides as given.",
  ["inputs"], "over modes, asymmetric widths and errors, evaluation points, band nodes",
  "Tests use the density inside fits only and never compare it with samples or with the requested percentiles.",
  ["randgen.py", "utils.py"], [("TwoHalfNorm, BandTwoHalfNorm, twohalfnorm", "randgen.py"), ("errors_to_two_half_norm_sigmas", "utils.py")], ["densities integrated numerically, samples, solved widths"])
p("C06", "Hybrid binomial sampler is binomial",
  "The hybrid binomial sampler is exactly binomial for counts up to its threshold and matches the binomial mean, variance and skewness above it, always returns integers between zero and the count, and is deterministic at probability zero or one and count zero. "
  "When it is enabled through the environment it replaces the default sampler with the same behaviour.",
  ["inputs", "configurations"], "over probabilities, counts on both sides of the threshold (including the threshold itself), mixed arrays, thresholds",
  "The hybrid sampler is not exercised by any test.",
  ["randgen.py"], [("binomial_hybrid", "randgen.py")], ["samples against exact binomial distribution"])
p("C07", "Map interpolation honours nodes, bounds and method",
  "Every interpolator (inverse distance, linear, nearest neighbour; points and regular grids in one to three dimensions) returns the node value at a node, never leaves the range of the node values it combines, and equals the textbook result of its method between nodes. "
  "Queries outside of the map are held to the edge (linear and nearest neighbour) and always stay finite, and results do not depend on the other points in the batch.",
  ["inputs"], "over maps (shape, spacing, offset, sign), query points inside, on nodes, on edges and outside",
  "Tests interpolate two smooth functions at interior random points with loose tolerance.",
  ["interpolation.py"], [("interpolators", "interpolation.py")], ["interpolated values against a float64 reference"])
p("C08", "Maps are built as their file describes",
  "A map file yields the function it describes: points or regular grids, axes linear or logarithmic (each axis separately), node values unchanged, interpolation done in the transformed coordinate, and a probability density turned into its inverse cumulative distribution up to the spacing of its grid. "
  "Invalid descriptions (unknown type or method, wrong number of axis types, logarithmic density axes, non-positive logarithmic coordinates, unreadable files) are rejected when the map is built.",
  ["inputs", "configurations"], "over map files: dimension, axis types, methods, values, malformed variants",
  "Tests cover two mixed-axis files and none of the point, density or error paths systematically.",
  ["config.py", "utils.py"], [("Map.build*, preprocess, pdf_to_cdf", "config.py"), ("integrate_midpoint", "utils.py")], ["applied map values and raised errors"])
p("C09", "Maps with uncertainty scale linearly between their curves",
  "A map with uncertainty returns the median at scaler zero, the upper curve at plus one, the lower curve at minus one, and scales linearly on either side; with a single curve it is static and reads no parameter. "
  "Its scaler is the configured name if four entries are given and otherwise the name of the map followed by _sigma, per likelihood, and two likelihoods never mix their curves or scalers.",
  ["inputs", "configurations"], "over curves, scalers of either sign, list and string configurations, per-likelihood configurations",
  "Shipped configurations use identical or static curves, so the scaling is invisible to the tests.",
  ["config.py"], [("SigmaMap", "config.py")], ["applied values, parameter names"])
p("C10", "Configuration resolves per likelihood and stays fixed once built",
  "A configured value overrides the default, a per-likelihood value applies to that likelihood only, and a missing option or missing likelihood entry is an error rather than a silent default. "
  "Once compiled, a component keeps the configuration it was built with, whatever is configured, built or cleared afterwards, including when its simulation is traced again for another batch size.",
  ["configurations", "histories"], "over sequences of configuring, building, simulating with new batch sizes and reconfiguring, for several likelihoods",
  "Tests build one configuration per process and never look at it again after changing the global one.",
  ["config.py", "share.py", "plugin.py"], [("_resolve_cached_config", "config.py"), ("deepcopy of configs into plugin instances", "plugin.py")], ["values used by compiled simulations"])
p("C11", "Histograms conserve weight",
  "Binning adds the weight of every event to exactly one bin if it lies inside the binned region and to none otherwise, for one- and two-dimensional irregular bins and mesh grids, equal to a direct count; the total never exceeds the total weight and the order of events does not matter. "
  "With the floor enabled every bin is at least the mean efficiency and bins above the floor are unchanged.",
  ["inputs"], "over event samples, weights, bin edges (uneven, per-column), points beyond every edge",
  "Tests bin simulated data but never compare with a count.",
  ["hist.py", "component.py"], [("make_hist_*", "hist.py"), ("implement_binning", "component.py")], ["histograms against float64 counts"])
p("C12", "Expected counts follow the rate and add up over components",
  "The expected histogram of a component is its binned simulation scaled so that its sum is the rate (shape normalisation) or the rate times the accepted fraction of simulated events (simulation normalisation), is linear in the rate, and reads no other component's rate. "
  "The expected histogram of a likelihood is the sum over all its components, simulated or fixed, and weighted events reproduce the same histogram when binned.",
  ["inputs", "configurations", "programs"], "over components, mixtures of simulated and fixed components, rates, normalisation modes",
  "Tests never check the value of a normalisation.",
  ["component.py", "likelihood.py"], [("get_normalization", "component.py"), ("model histogram", "likelihood.py")], ["histograms, weighted data, accepted event numbers"])
p("C13", "Data selection and binning cover exactly the region of interest",
  "A likelihood keeps exactly the data strictly inside its region of interest and the data histogram counts each of them once. "
  "Equiprobable bins are ordered, span the region of interest and hold equal numbers of data events (up to rounding), explicit or counted bins are used as given, and inconsistent binning is rejected.",
  ["inputs", "configurations"], "over data sets (ties aside), regions of interest, numbers of bins, binning types, one and two dimensions",
  "Tests build a few likelihoods and do not look at edges or counts.",
  ["likelihood.py", "utils.py"], [("set_binning", "likelihood.py"), ("get_equiprob_bins_*", "utils.py")], ["bins and histograms of the likelihood"])
p("C14", "Binned likelihood is the Poisson log-likelihood",
  "The log-likelihood of binned data is the sum over bins of data times log of expectation minus expectation, with the expectation from the same simulation. "
  "It is minus infinity when any bin has a zero, negative, infinite or undefined expectation, even if that bin has no data, and it is never undefined.",
  ["inputs"], "over expectations including zero, negative, NaN and infinite bins, data counts, batch sizes",
  "Tests call it once with shipped models and do not look at the value.",
  ["likelihood.py"], [("get_log_likelihood", "likelihood.py")], ["returned log-likelihood against a float64 recomputation"])
p("C15", "Literature likelihood sums weighted log densities at the yields",
  "The literature log-likelihood is the sum over simulated measurement points of efficiency times the log density (two-half-normal, normal or band) of the simulated yield with the configured arguments, each point compared with its own arguments. "
  "It is minus infinity rather than undefined when a density is invalid, always simulates one batch, and refuses anything but two observables, a supported density and exactly one component.",
  ["inputs", "configurations"], "over density types, arguments, yields, efficiencies, batch sizes",
  "Tests evaluate the shipped literature context once without looking at the value.",
  ["likelihood.py"], [("LikelihoodLit", "likelihood.py")], ["returned log-likelihood against a reference"])
p("C16", "Parameters are sampled from and scored by their priors",
  "Sampled parameters follow their prior (or initial guess) clipped to the allowed range, fixed parameters always have their fixed value, and the log prior is minus infinity exactly when a fitted parameter is outside its allowed range or the support of its prior, otherwise the log density of the priors up to a constant. "
  "Setting and getting parameters round-trips in the order asked for, unknown names are refused, and the configuration given by the user is not modified.",
  ["inputs", "configurations", "histories"], "over prior types and arguments, values inside, on and outside the range, sequences of set, get and sample",
  "There is no unit test of the parameter manager.",
  ["parameter.py"], [("Parameter", "parameter.py")], ["sampled values, log prior, getters"])
p("C17", "Log posterior is log prior plus the log likelihood of every likelihood",
  "The log posterior is the log prior plus the sum of the log likelihoods of all likelihoods at the given parameters, averaged over repetitions if asked, and it is returned with the log prior. "
  "When the log prior is not finite no simulation runs and the posterior is minus infinity; all likelihoods see the same parameters.",
  ["inputs", "configurations"], "over parameters inside and outside the priors, sets of likelihoods, repetitions, likelihoods returning minus infinity",
  "Tests run fits without comparing posterior values.",
  ["context.py"], [("log_posterior", "context.py")], ["calls and values of each likelihood and the posterior"])
p("C18", "Parameter aliases and copies act on their own likelihood only",
  "A likelihood with an alias uses the value of the alias for the aliased quantity, for every use of the likelihood (expectation, weighted events, log likelihood, event numbers, templates, profiling), and asks for the alias instead of the original. "
  "Other likelihoods and the caller's parameters are untouched; a copied parameter starts with the settings of its source and is independent of it.",
  ["configurations", "inputs"], "over alias maps, values of alias and original, likelihoods with and without alias",
  "Tests use one shipped alias configuration and never check which value was used.",
  ["likelihood.py", "context.py"], [("replace_alias", "likelihood.py"), ("copy_parameters", "context.py")], ["parameter values seen by the simulation"])
p("C19", "A fit is recorded completely and can be resumed, also after a crash",
  "After a fit the backend file holds every iteration with its posterior and prior, equal to re-evaluating the recorded parameters, and the metadata to rebuild the same context; continuing a fit appends to the recorded iterations without altering them, starting from the last recorded state. "
  "If the process dies or the posterior fails at any evaluation, every iteration completed before is still readable and the fit can be continued from there.",
  ["crash_points", "histories", "fault_sequences"], "over evaluation counts at which the fit is killed or fails, sequences of fit, rebuild, continue, with file and memory backends",
  "Tests run one short uninterrupted fit and continue it once.",
  ["context.py"], [("fitting, continue_fitting, from_backend, metadata", "context.py")], ["posterior calls recorded by a wrapper, backend file after each crash"])
p("C20", "Best-fit and posterior summaries describe the current chain",
  "The reported best-fit parameters are those of the recorded sample with the highest posterior, the median is the marginal median, and a random pick is a recorded sample, always of the current chain and completed with the fixed parameters, with each value under its own name. "
  "Plots and dumped files use the same values, drop samples with infinite or undefined posterior only (the whole iteration where walkers are followed), and honour burn-in and thinning.",
  ["histories", "inputs"], "over chains (including non-finite posteriors), repeated fits and continuations, burn-in and thinning",
  "Tests request the best fit once after one fit.",
  ["context.py", "plot.py"], [("get_post_parameters, dump", "context.py"), ("Plotter", "plot.py")], ["returned parameters against the backend file"])
p("C21", "Lineage identifies the model",
  "Building the same model twice, in any process, gives the same lineage and hash, and the lineage can be written to a file and read back. "
  "Changing anything that defines the model (a configured value, a map or data file or its content, bins, normalisation, workflow, parameter settings, aliases) changes the lineage of every level above it, and the lineage of a component records the configuration of its own likelihood.",
  ["configurations", "histories"], "over models and single changes to them, hash seeds, build orders and other models built in between",
  "Tests compute a hash and never compare two.",
  ["component.py", "config.py", "plugin.py", "likelihood.py", "context.py", "utils.py"], [("lineage, lineage_hash, dump_lineage", "all levels")], ["lineages and hashes of pairs of models, across processes"])
p("C22", "Files resolve in the documented order",
  "A file name resolves to the existing path itself, else to the file under the configured absolute base directory, else to the packaged file of that name, else it is an error; the base directory of a context applies to all files it loads. "
  "Checksums are those of the file content and data files load by their suffix, unknown suffixes being refused.",
  ["configurations", "inputs"], "over presence or absence of the file in each location, base directories, file sizes and types",
  "Tests only resolve packaged files.",
  ["utils.py", "share.py", "context.py"], [("get_file_path, load_data, calculate_sha256", "utils.py")], ["resolved paths, loaded content"])
p("C23", "Global caches protect and report",
  "A compiled simulation is never silently replaced by another with the same name in the same likelihood: this is refused until the caches are cleared, while different components of one likelihood and different likelihoods coexist and keep working. "
  "Configuration set by the user and never used is reported, used configuration is not, and clearing the caches forgets everything.",
  ["histories", "configurations"], "over sequences of deduce, compile, set, clear over several components and likelihoods",
  "Tests check one refused deduction.",
  ["share.py", "component.py", "utils.py"], [("StaticValueDict, RecordingDict", "share.py"), ("check_unused_configs", "utils.py")], ["errors, warnings and results of already compiled components"])
p("C24", "Simulated quanta are conserved and physical",
  "Through the shipped components, photons plus electrons equal the produced quanta, electrons never exceed ions nor photons the quanta, detected never exceed produced and drifting electrons never exceed produced ones, counts are non-negative integers, probabilities are within zero and one and areas and positions are finite. "
  "Detected signals have the mean given by gains, yields and corrections, which cancel for perfectly corrected signals.",
  ["inputs", "configurations"], "over parameters within their allowed ranges, energies, maps, batch sizes and all shipped components",
  "Tests only check that components run.",
  ["plugins/er_microphys.py", "plugins/er_nestv2.py", "plugins/nestv2.py", "plugins/lyqy.py", "plugins/detector.py", "plugins/reconstruction.py"], [("plugins", "appletree/plugins")], ["all intermediate quantities of a compiled component"])
p("C25", "Energy, position and yield models follow their definition",
  "Simulated energies and positions are distributed as configured (uniform range, single energy, spectrum file, set of measured energies, uniform in the cylinder). "
  "Mean yields, recombination, fluctuation and survival of electrons as a function of energy, field and parameters equal the published formulas, and their total respects the work function or total quanta.",
  ["inputs", "configurations"], "over energies, fields, parameters, spectra and detector ranges",
  "Tests never check the value of an intermediate quantity.",
  ["plugins/common.py", "plugins/er_microphys.py", "plugins/er_nestv2.py", "plugins/nestv2.py", "plugins/lyqy.py", "plugins/detector.py"], [("plugins", "appletree/plugins")], ["plugin outputs against float64 formulas and distributions"])
p("C26", "Efficiency is a product of acceptances between zero and one",
  "The event efficiency is the product of the threshold, reconstruction and cut acceptances, each within zero and one for any scaler, and is zero for signals not above the threshold. "
  "Events are weighted by it in histograms and dropped by it when efficiency is applied, and when a component is set to ignore efficiency all events count fully, asking to apply it is refused and this does not leak into later workflows.",
  ["inputs", "configurations", "histories"], "over acceptances, scalers, thresholds, sequences of deductions with and without efficiency",
  "Shipped acceptance maps are one almost everywhere, so tests cannot notice a wrong product.",
  ["plugins/efficiency.py", "component.py"], [("efficiency plugins", "plugins/efficiency.py"), ("force_no_eff, apply_eff", "component.py")], ["efficiencies, weights, kept events"])
p("C27", "Map plots show the maps the model uses",
  "Plotting the maps of a context shows every map its simulation uses once, under each likelihood's own file, and none it does not use; curves and pixels are the values of the map at its nodes, with bins centred on the nodes. "
  "Collapsing an axis averages exactly the requested nodes and drops that axis only.",
  ["configurations", "inputs"], "over contexts, map files, dimension, axis types, collapse requests",
  "Tests check a few shapes with constant shipped maps.",
  ["plot.py"], [("plot_maps and helpers", "plot.py")], ["figures: line, bar and image data"])
p("C28", "Extensions never silently replace existing plugins or components",
  "Adding an extension makes every plugin or component class defined in it available for building models, skips base classes, and refuses (unless forced) any class or module whose name is already taken, leaving the existing one in place; forcing replaces it. "
  "Models already compiled keep the class they were compiled with.",
  ["programs", "histories"], "over extension modules with and without colliding names, dotted module names, force",
  "No test adds an extension with a collision.",
  ["utils.py", "plugin.py", "component.py"], [("add_extensions", "utils.py")], ["module attributes and errors"])
p("C29", "Profiling reports every plugin and does not change the model",
  "Profiling a component reports each plugin of its workflow once, in execution order, with non-negative times, feeding each one the outputs of the others; profiling a context reports every simulated component under its own name with aliased parameters. "
  "Profiling does not change later simulation results or the caller's parameters.",
  ["configurations", "histories"], "over components, batch sizes, run counts, aliases",
  "Tests check the report of one shipped context only.",
  ["profiler.py"], [("profile_*", "profiler.py")], ["profiler reports and simulations before and after"])
p("C30", "Memory fraction and integration utilities keep their contract",
  "The GPU memory fraction handed to the runtime equals the requested fraction for any value in (0, 1), is capped below one, and non-positive fractions are refused. "
  "Cumulative midpoint integration is exact for piecewise linear integrands and increments sum to the integral.",
  ["inputs"], "over fractions and sampled integrands",
  "Not tested.",
  ["utils.py"], [("set_gpu_memory_usage, integrate_midpoint", "utils.py")], ["environment variable, integrals"])
p("C31", "Inconsistently declared plugins are rejected",
  "A plugin whose simulation arguments do not match its declared dependencies in name or order, that declares no dependencies or outputs, or that redeclares a configuration is rejected when it is defined or built; so are two plugins of one component giving different defaults to the same option, in whatever order they are registered. "
  "Consistent plugins are accepted.",
  ["programs"], "over plugin declarations and registration orders",
  "Tests only use consistent plugins.",
  ["plugin.py", "component.py", "config.py"], [("sanity_check", "plugin.py"), ("register", "component.py"), ("takes_config", "config.py")], ["raised errors"])

p("C32", "A context is assembled as its instruction says",
  "A context built from an instruction (a dictionary, a file, or step by step through the registration functions) has exactly the named likelihoods and components in their order, each of the stated type and class, with its own data, file, binning and configuration, and the parameters and copies of its parameter list, so its posterior is the one an independent reading of the instruction gives. "
  "A given parameter list replaces the file's and is copied, instruction and files are left as they are, contexts do not share state, and faulty instructions (taken names, unknown classes or types, missing files or entries) are refused and leave what was registered before untouched.",
  ["configurations", "histories"], "over instructions (composition, long and short component entries, shared names, copies), ways of assembling, faults, and the shipped instructions",
  "Tests build the shipped contexts and never compare them with their instruction, and try no faulty one.",
  ["context.py", "contexts/er_only.py", "likelihood.py", "component.py"], [("register_all_likelihood, register_likelihood, register_component, update_parameter_config", "context.py")], ["names, classes, histograms and posterior of the assembled context", "given objects and files before and after"])
p("C33", "Components can be copied, exported and inspected",
  "A new component made of another one has its class, its binning (if asked for, refused without one) and a name of its own, and simulates the same events from the same key, taking the options of its own likelihood; the original stays as it is. The saved code of a component is its simulation, and replaced code is used from the next compilation on. "
  "Showing the configuration lists every option of exactly the plugins a request needs once, with its default and the value in effect for the likelihood, without changing anything; options set later only act on workflows built later; repeated compilation gives each simulation its own section of the input file.",
  ["programs", "configurations", "histories"], "over plugin graphs, options (default or not, per likelihood or not), requests, sequences of copies, compilations and changed options",
  "Tests call new_component, save_code and show_config once and never look at the result.",
  ["component.py", "share.py", "config.py"], [("new_component, save_code, code, show_config, set_config, multiple_simulations_compile", "component.py")], ["simulations of originals, copies and saved code", "shown options"])
p("C34", "Summaries, graphs and drawn histograms show the model as it is",
  "The printed summary of a context lists every likelihood with its binning, observables, data file and number of selected events, and every component with its type, rate, file and needed parameters. The graph of a component has exactly the data (or plugins) its request needs and exactly their dependencies, labelled alike at every depth. "
  "A drawn irregular histogram has one patch per bin, at the place and of the size of the bin, coloured by its content or density; none of these views changes the model.",
  ["programs", "configurations", "inputs"], "over plugin graphs and requests, contexts, bin edges and contents",
  "Tests print the summary of shipped contexts without reading it; graphs and histogram drawings are not tested.",
  ["utils.py", "likelihood.py", "context.py"], [("add_deps_to_graph_tree, add_plugins_to_graph_tree, tree_to_svg, plot_irreg_histogram_2d, timeit", "utils.py"), ("print_likelihood_summary", "likelihood.py")], ["recorded nodes and edges, printed text, patches"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
