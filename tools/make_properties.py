import json
S='popsynth/population_synth.py'; A='popsynth/auxiliary_sampler.py'; P='popsynth/population.py'
Q='popsynth/selection_probability/'; D='popsynth/distribution.py'
rows=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    rows.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
p('C01','Selection is exactly the conjunction of all attached selections',
 'An object of a drawn survey is selected exactly when every attached selection accepts it: the flux selection on its observed flux, the selection of every auxiliary sampler at any nesting depth on the quantity it acts on (observed value by default, or distance or luminosity), and the spatial selection on its position. Hard bounds are inclusive, and with no selection attached every object is selected.',
 ['inputs','configurations'],'every combination of selections on flux, space and auxiliary samplers of any nesting, every survey size including zero, every value relative to the boundary',
 'Existing tests draw a handful of populations with one or two selections and never compare the selection vector with the values it was made from.',
 [S,A,Q+'selection_probability.py',Q+'generic_selectors.py',Q+'spatial_selection.py',Q+'flux_selectors.py'],
 [('draw_survey combines flux, auxiliary and spatial selections',S),('AuxiliarySampler._apply_selection',A),('SelectionProbability.__add__',Q+'selection_probability.py')],
 [('global_selection','the conjunction built up during a draw',S)],['Population.selection'])
p('C02','Arrays of a population are aligned and its detections are accounted for',
 'Every per-object array of a population (luminosities, distances, latent and observed fluxes, sky positions, probability, true and observed values of every auxiliary quantity) has one entry per object in one common order, the selected and non-selected views (and the deprecated names for them, such as selected_fluxes_latent or hidden_distances) split the objects between them in that order, and the reported numbers of objects, detections and non-detections agree with the selection. The indices of known and unknown distances, which count the detected objects in order, split the detected objects between them, and each known distance is the distance of the detected object at its index, known exactly when the distance selection accepts it. The auxiliary quantities of a population cannot be overwritten.',
 ['inputs','configurations'],'every survey size including none or all selected, every distance selection, every set of auxiliary quantities',
 'Tests only check that a few lengths agree for sampled seeds; alignment must hold for every selection pattern, including empty ones.',
 [P,S,'popsynth/simulated_variable.py'],[('Population.__init__ builds the SimulatedVariables',P),('draw_survey computes known distances',S),('Population.__setattr__',P)],
 [('_selection','detected objects',P),('_known_distance_idx','position among the detected objects',P)],['Population public properties'])
p('C03','Each sampler is drawn once per survey, after what it depends on',
 'In one survey every attached sampler, at any nesting depth and however many other samplers depend on it, draws its true values exactly once and, if it is observed, its observed values exactly once afterwards, and only after all the samplers it depends on are complete. Every sampler sees the distances and sky positions of that very survey and, if it is attached directly or declares that it uses luminosity, the luminosities of that survey, and the values it drew are those reported in the population. A derived luminosity is computed once, after the samplers it depends on.',
 ['programs','configurations'],'every dependency graph of samplers (chains, diamonds, sharing with a derived luminosity), observed or not, with or without distance and luminosity dependence',
 'The tests use a few fixed two-level graphs and never observe the order or number of draws.',
 [A,S],[('AuxiliarySampler.draw recursion with the do-not-resample guard',A),('draw_survey passes luminosities and spatial values',S),('get_secondary_properties collects nested values',A)],
 [('_is_sampled','drawn in this survey',A),('_secondary_samplers','what a sampler depends on',A)],['calls of true_sampler, observation_sampler and compute_luminosity of user-defined samplers'])
p('C04','A survey depends on the current configuration and not on history',
 'Drawing a survey gives the same result whatever was drawn, cleaned, reset, detached or re-attached before: drawing again redraws every attached sampler and selection with the current parameters and sample size, and repeating a draw with nothing changed repeats the survey. Cleaning detaches every auxiliary sampler, derived luminosity and selection, and a reset sampler or selection holds no values until it is drawn again.',
 ['histories'],'every sequence of attaching, configuring, drawing, cleaning (with or without reset) and re-attaching, on one or several synths sharing the same objects',
 'Tests draw at most twice from a synth after the same calls; none compares a survey with the one of a fresh synth.',
 [S,A,Q+'selection_probability.py'],[('PopulationSynth.clean',S),('AuxiliarySampler.reset',A),('SelectionProbability.reset and select',Q+'selection_probability.py')],
 [('_auxiliary_observations','attached samplers',S),('_is_sampled','drawn and not reset',A)],['Population arrays of repeated draws'])
p('C05','A drawn population never changes',
 'Nothing done afterwards to the synth or its parts (changing parameters, attaching or removing samplers and selections, adding model spaces, drawing again, cleaning, resetting, exporting its configuration) changes any value, parameter, truth, graph, model space or stored configuration of a population that was already drawn.',
 ['histories'],'every later sequence of operations on the synth, its distributions, samplers and selections',
 'No test looks at a population again after its synth has been used further.',
 [S,P,D],[('draw_survey copies what it hands to Population',S)],[('Population fields','the snapshot',P)],['all public properties of earlier populations'])
p('C06','Fluxes and observed values derive from the same objects latent values',
 'The latent flux of every object is the spatial distribution\'s transform of its own luminosity and distance, where the luminosity comes from the derived luminosity sampler if one is attached and from the luminosity distribution otherwise. Without a flux error or without a flux selection the observed flux is the latent flux; otherwise it is the latent flux scattered, independently per object and always positive, by a normal error of the given width in log10 (or in natural log if so requested), and the population records the error used. An unobserved auxiliary quantity has observed values equal to its true values; the built-in transforms are L/(4 pi dL^2) with the luminosity distance for cosmological, L/(4 pi (1+r)^2) for spherical distributions and L itself in flatland.',
 ['inputs','configurations'],'every distribution, sample size, flux error, noise mode and combination of derived and direct luminosity',
 'Tests do not compare observed and latent values; statistical scatter cannot be seen in the few objects they draw.',
 [S,A],[('draw_survey transform and flux error',S),('draw_log10_fobs and draw_log_fobs',S),('AuxiliarySampler.draw unobserved branch',A)],
 [],['Population.fluxes and its latent values','Population.luminosities','Population.flux_sigma'])
p('C07','A population records its complete and current provenance',
 'A population records the current parameter values of the spatial distribution, of the luminosity distribution or derived luminosity sampler that was used, and of every attached sampler at every nesting depth. Its directed graph has exactly the nodes and edges of the attached configuration: every sampler to the samplers that depend on it, every observed sampler to its observed node, the spatial distribution to every sampler that uses distance, and the spatial distribution and the luminosity source to the observed flux, with nothing left over from earlier configurations.',
 ['programs','histories'],'every nesting of samplers and every history of attaching and cleaning before the draw',
 'Tests only draw the graph or read single truth entries of flat configurations.',
 [S,A],[('truth collection in draw_survey',S),('_build_graph and get_secondary_properties',S)],[('_graph','dependency graph',S)],['Population.truth','Population.graph'])
p('C08','Invalid registrations are rejected and change nothing',
 'Attaching something of the wrong type as a distribution, sampler or selection, attaching a sampler under a name that is already attached, or attaching a sampler that is a secondary of another raises an error and leaves the synth as it was. Drawing raises an error if there is neither a luminosity distribution nor a derived luminosity sampler, or if an attached sampler has since become the secondary of another.',
 ['histories','inputs'],'every sequence of valid and invalid attach calls on samplers, selections and synths',
 'Tests try a few wrong types once and never check that the synth still behaves as before.',
 [S,A],[('type and name checks of add_observed_quantity and the set_ methods',S),('set_selection_probability check',A)],[('_auxiliary_observations','attached samplers',S)],['raised exceptions and later draws'])
p('C09','A configuration rebuilds an equivalent synth',
 'Exporting a synth to a dictionary, to a YAML file, or with a population stored in HDF5, and rebuilding it gives a synth with the same distributions, rate flag, parameters, samplers at every nesting depth with their order and secondaries, selections and what they act on, and seed, which draws the identical survey and exports the identical configuration. Rebuilding leaves the given dictionary unchanged, so it can be rebuilt any number of times.',
 ['programs','histories'],'every configuration built from registered distributions, samplers and selections, every chain of dictionary, YAML and HDF5 exports',
 'Tests read one YAML file and draw from it without comparing with the original.',
 [S,A,'popsynth/utils/hdf5_utils.py',P],[('to_dict and from_dict',S),('get_secondary_objects',A),('recursively_save_dict_contents_to_group',"popsynth/utils/hdf5_utils.py")],[],['to_dict of the rebuilt synth','populations of both synths'])
p('C10','Populations survive being written to HDF5',
 'A population read back from a file or from any group of a file equals the one written there in every value, count, index, parameter, text, truth, graph node and directed edge, model space, probability and stored configuration, through any number of generations, including populations with no objects or no detections; one in a file without known distances or probabilities, as older versions wrote, is read with none of the distances known or without probabilities. Adding a population as a new group leaves the other populations of the file as they were, adding under a name in use is refused, and writing a file replaces what it held.',
 ['histories','inputs'],'every population, every sequence of write, add to group, read and re-write over several files',
 'Tests write one population once and compare a few arrays.',
 [P,'popsynth/utils/hdf5_utils.py'],[('_writeto and _loadfrom',P),('hdf5_utils recursive save and load','popsynth/utils/hdf5_utils.py')],[],['Population.from_file and from_group'])
p('C11','Sub-populations hold exactly the chosen objects',
 'The observed (or unobserved) sub-population contains exactly the detected (or undetected) objects of its parent in the same order with all their values, every object of it is detected, and the parent is unchanged. The observed sub-population keeps the known distances and their indices, the unobserved one has none known, and both keep the parameters, truth, graph, seed and stored configuration, so they can be split, stored and reloaded like any population.',
 ['histories','inputs'],'every population and selection pattern including none or all detected, every sequence of splitting, storing and reloading',
 'The tests never split a population with known distances or store the result.',
 [P],[('to_sub_population',P)],[],['Population.to_sub_population'])
p('C12','The Stan export describes the detected objects',
 'The Stan data of a population has the number of detected objects and of known and unknown distances, the selected distances, observed fluxes and their log10, the observed values of every auxiliary quantity of the detected objects in the same order, one-based known and unknown indices that together cover one to the number of detections, the flux error, maximum distance and all model spaces, each being the grid of model points (logarithmic unless asked to be linear, from start to stop) that was last asked of the synth under its name. It is the same before and after storing and reloading the population.',
 ['inputs','histories'],'every population with detections, selection pattern, distance selection and set of model spaces',
 'Tests call the export without looking at what it contains.',
 [P],[('to_stan_data',P)],[],['Population.to_stan_data'])
p('C13','Arithmetic acts alike on observed and latent values',
 'Arithmetic, comparison and other numpy universal functions applied to a simulated variable, including in place, give the result for the observed values with, as its latent values, the same operation on the latent values and keep the selection; operands other than an in-place target are unchanged. Indexing by slice, mask or list picks the same objects from observed values, latent values and selection, and the selected (non-selected) view holds exactly the selected (unselected) objects, all marked as such, so that views and operations can be chained.',
 ['programs'],'every sequence of operations, indexing and views, for observed and latent values sharing memory or not',
 'Tests try three operations on one array; chains, in-place operations and shared memory are never exercised.',
 ['popsynth/simulated_variable.py'],[('__array_ufunc__, __getitem__, selected, non_selected','popsynth/simulated_variable.py')],[('_latent_values, _selection','carried along by every operation','popsynth/simulated_variable.py')],['values, latent and selection of results'])
p('C14','Parameters accept exactly the allowed values',
 'A parameter of a distribution, sampler or selection accepts a value exactly if it is free and the value is within its inclusive bounds, a refused value raises an error and leaves the previous one, and reading gives the last accepted value, else the default, else an error. Values belong to one object only: setting a parameter never changes another object, another parameter, or the defaults. A class can declare at most one normalization parameter.',
 ['histories','inputs'],'every sequence of sets and reads on several objects of every registered class, values below, at, inside, at and above the bounds',
 'Tests set parameters to valid values only, on single objects.',
 ['popsynth/utils/meta.py',D,A,Q+'selection_probability.py'],[('Parameter descriptor','popsynth/utils/meta.py'),('ParameterMeta','popsynth/utils/meta.py')],[('_parameter_storage','values of one object','popsynth/utils/meta.py')],['attribute get and set'])
p('C15','Log and progress switches combine and undo correctly',
 'Silencing the logs (or quiet mode) silences the console and user logs, loud mode sets both to show information, debug mode switches only the console, and re-activating the logs restores the levels in force before they were silenced, however often they were silenced. Warnings can be switched off and on independently of levels, the temporary console silence restores the levels it found even if its body fails, and progress bars follow the last progress, quiet or loud switch and nothing else does.',
 ['histories'],'every sequence of logging and progress calls, nested temporary silence, bodies that raise',
 'The test calls each switch once and asserts nothing.',
 ['popsynth/utils/logging.py'],[('LoggingState and the module functions','popsynth/utils/logging.py')],[('handler levels and filters','what is shown','popsynth/utils/logging.py')],['handler levels, warning filter, popsynth_config.show_progress'])
p('C16','The user configuration file is merged over the defaults',
 'Importing the package without a user configuration file uses the defaults and writes them to it; with one, every value it gives overrides the default and every value it leaves out keeps the default, and the file itself is left as it was. Values that are unknown or of the wrong type are refused, and the log levels, handlers, cosmology and progress setting in force after the import are the merged ones.',
 ['configurations','histories'],'every partial configuration file and every sequence of imports with it',
 'The tests build two fixed configurations and do not import the package under them.',
 ['popsynth/utils/configuration.py','popsynth/utils/logging.py','popsynth/utils/cosmology.py'],[('merge at import','popsynth/utils/configuration.py'),('setup_logger','popsynth/utils/logging.py')],[],['popsynth_config and file content after import'])
p('C17','The number of objects is what was asked for',
 'A survey has exactly the requested number of objects if one is given; otherwise the number is Poisson distributed around the volume integral of the spatial density divided by its time adjustment out to the maximum distance, or, if the survey is normalized, around the value of the normalization parameter (one if there is none). Drawing, normalized or not, leaves every parameter of the distributions as it was.',
 ['inputs','configurations'],'every spatial distribution, normalization, maximum distance and seed, and any requested size including zero',
 'Tests never check the number of objects against the integral, nor that parameters survive a normalized draw.',
 [S,D],[('integration and Poisson draw in draw_survey',S),('normalization parameter handling',D)],[('_normalization_parameter','name of the parameter that scales the density',D)],['Population.n_objects over many seeds'])
p('C18','Distances follow the spatial density',
 'Unless the spatial distribution moves its objects itself, drawn distances lie between zero and the maximum distance and are distributed as the spatial density times the volume element divided by the time adjustment, so none lies where that vanishes, and the overall scale of the density does not matter. The same holds with and without normalization and with and without progress bars.',
 ['inputs','configurations'],'every density shape, maximum distance, normalization, sample size and both progress modes',
 'Tests only draw from a few densities and check that values are finite; one mode is never exercised in tests.',
 [D,'popsynth/utils/rejection_sample.py','popsynth/distributions/'],[('SpatialDistribution.draw_distance',D),('rejection_sample','popsynth/utils/rejection_sample.py')],[],['SpatialDistribution.distances'])
p('C19','Selectors decide each object by their documented rule',
 'Lower bound, upper bound, box, distance-range and galactic-plane selections accept exactly the objects on the inclusive side of their bounds in the quantity they act on; a Bernoulli selection accepts each object with its probability and a soft selection with a probability rising with the value, one half at its boundary. A selection once made stays the same until it is reset, after which it is made anew, and has no result before; the counts and index lists agree with it. Combining selections gives their conjunction and leaves them unchanged.',
 ['histories','inputs'],'every selector, bound, value (below, at, above), size including zero, and sequence of select, reset and combine',
 'Tests construct the selectors but hardly look at what they select.',
 [Q+'selection_probability.py',Q+'generic_selectors.py',Q+'spatial_selection.py',Q+'flux_selectors.py'],[('draw of every selector',Q+'generic_selectors.py'),('select, reset and __add__',Q+'selection_probability.py')],[('_is_sampled, _selection','made and its result',Q+'selection_probability.py')],['selection, n_selected, selection_index'])
p('C20','The same configuration and seed give the identical survey',
 'Two surveys drawn with the same configuration, seed and draw options are identical in every value, whatever the state of the global random generator, whatever was drawn before in the process, with or without progress bars, logs and compiled code caches, and in different processes. Surveys with different seeds differ.',
 ['histories','configurations'],'every built-in distribution, sampler and selection, every prior history of the process, and both progress and compilation modes',
 'No test draws the same survey twice and compares, and tests run with compilation disabled.',
 [S,'popsynth/aux_samplers/','popsynth/distributions/',D],[('np.random.seed in draw_survey',S)],[('global numpy random state','source of all randomness',S)],['all arrays of Population'])
p('C21','Built-in samplers and luminosity functions follow their documented laws',
 'Every built-in auxiliary sampler and luminosity distribution returns as many values as asked, inside its documented support or truncation bounds, distributed by its documented law for every admissible parameter value, whole or not, and a fixed value where its width vanishes. Observed values of the built-in samplers scatter around the true ones normally with the given measurement error. The density a luminosity distribution reports is the normalized density of the luminosities it draws, zero outside its bounds.',
 ['inputs'],'every built-in sampler and luminosity distribution, parameter set and size',
 'Tests check signs and finiteness of small samples and one truncated sampler.',
 ['popsynth/aux_samplers/','popsynth/distributions/'],[('true_sampler and observation_sampler','popsynth/aux_samplers/'),('draw_luminosity','popsynth/distributions/')],[],['true_values, obs_values, draw_luminosity'])
p('C22','The draw probability is the product of its contributions',
 'The probability recorded for an object is the spatial density (with its normalization parameter set to one, and divided by its integral if the survey is normalized) at its distance times the luminosity function at its luminosity, unless the luminosity is derived, times the probability reported by every auxiliary sampler at any depth that carries a selection. Samplers that report no probability contribute one.',
 ['configurations','inputs'],'every combination of distributions, samplers with and without probability or selection, nesting and normalization',
 'No test looks at the probability of a population.',
 [S,D,A],[('probability product in draw_survey',S),('SpatialDistribution.draw_distance probability',D)],[],['Population.probability'])
p('C23','Ready-made populations are the advertised composition',
 'Every ready-made population class is equivalent to composing its named spatial and luminosity distributions with each constructor argument given to the parameter of that name, the rate flag and the seed: both have the same configuration and draw the identical survey.',
 ['configurations','inputs'],'every ready-made population class and every assignment of distinct argument values',
 'Tests construct them with sampled values but never check which parameter each argument reached.',
 ['popsynth/populations/'],[('constructors','popsynth/populations/')],[],['to_dict and drawn populations'])
p('C24','Sky positions are uniform on the sphere and consistently expressed',
 'Unless the spatial distribution defines its own sky structure, sky positions have a polar angle between zero and pi and an azimuth between zero and two pi, one pair per object, uniformly over the sphere and independently of distance; right ascension is the azimuth in degrees and declination is ninety degrees minus the polar angle in degrees, in the distribution, in what samplers see and in the population, and the objects of a spiral galaxy lie around its four wound arms, equally many on each, at exponential heights above and below its plane with distances blurred by seven percent.',
 ['inputs'],'every sample size and seed',
 'The test looks at one small sample.',
 ['popsynth/utils/spherical_geometry.py',D,P],[('sample_theta_phi','popsynth/utils/spherical_geometry.py'),('ra and dec properties',D)],[],['theta, phi, ra, dec'])
p('C25','Cosmological distances and volumes are those of the current cosmology',
 'Every cosmology answers for the matter density and Hubble constant it currently has, which for the one of the package are the configured ones: luminosity distances agree within half a percent with those of a flat universe with cosmological constant for matter densities from 0.25 to 1 at every redshift, are zero at zero and rise with redshift, transverse distances are those divided by 1+z, and the comoving volume element is (c/H0) times the squared transverse distance divided by E(z). Distributions, samplers and surveys use the distances and volumes of the package\'s cosmology, and a query depends on nothing but redshift and the two parameters.',
 ['inputs','histories','configurations'],'every redshift, every cosmology and every history of making, changing and asking cosmologies',
 'Accuracy at every redshift is a continuous quantifier; tests do not compare with a reference and never change the cosmology.',
 ['popsynth/utils/cosmology.py','popsynth/distributions/cosmological_distribution.py'],[('Cosmology','popsynth/utils/cosmology.py'),('CosmologicalDistribution.transform and differential_volume','popsynth/distributions/cosmological_distribution.py'),('AuxiliarySampler.luminosity_distance','popsynth/auxiliary_sampler.py')],[],['cosmology.luminosity_distance','cosmology.differential_comoving_volume','SpatialDistribution.transform'])
p('C26','Displays show populations and synths as they are and change nothing',
 'Displaying a population puts on the given or on new axes, after what is there, the true fluxes of all objects, the observed fluxes of exactly the detected ones, arrows from true to observed fluxes of exactly the detected ones, the luminosities of detected and hidden objects in their colours and histograms that count all and the detected objects between zero and the end of the survey; a sphere shows exactly the detected, hidden or all objects at their positions with colours that rise with the observed flux, whatever is detected, and the figure is returned. Tables and representations give the numbers of objects and detections, the parameters of the population, and every part attached to a synth with its current parameters, and no display changes the population.',
 ['inputs','histories','configurations'],'every population, including empty ones and ones without or with only detections, and every sequence of displays on shared axes',
 'Tests call some displays and never look at what they show.',
 [P,S,'popsynth/utils/array_to_cmap.py'],[('display methods',P),('display and __repr__',S),('array_to_cmap','popsynth/utils/array_to_cmap.py')],[],['Population.display_fluxes and the other displays','PopulationSynth.display','repr'])
p('C27','Classes are found by their names, and only complete ones',
 'Every complete distribution, auxiliary sampler and selection, of the package or of a user, is listed once, in the order in which the names first came up, in the registry of its kind and in no other, and is found there under its name as the class that was last defined with that name; defining a class changes what no other name stands for. A class for which a required method is missing, in itself and in everything it inherits, is neither listed nor found nor has objects, and a class with more than one normalization is refused and leaves no trace. Looking a class up by name makes a new object with the given arguments and with parameters of its own every time, and subclass and instance tests follow the ancestry.',
 ['histories','inputs'],'every history of defining, listing, looking up and making classes, for every base class, every set of implemented and required methods, with names used again',
 'Tests define a few complete samplers and never redefine, leave out or list anything.',
 ['popsynth/utils/registry.py','popsynth/utils/meta.py',D,A,Q+'selection_probability.py'],[('registries and list_available functions','popsynth/utils/registry.py'),('ParameterMeta computes what is abstract','popsynth/utils/meta.py'),('AutoRegister metaclasses of the three families',D)],[('registries','the name to class mappings','popsynth/utils/registry.py')],['list_available_distributions and the other lists','registry lookups','issubclass and isinstance'])
p('C28','Built-in densities and luminosity functions follow their documented formulas',
 'Every built-in spatial density, volume element, time adjustment, flat and spherical flux and power-law luminosity function is, at all times, the documented function of the present values of its own object\'s parameters, for single values and arrays alike. A question fails while a parameter it needs has no value, and asking, copying and setting other objects changes no answer.',
 ['inputs','histories'],'every value of the parameters, every place or luminosity, and every history of setting and asking on any number of objects',
 'Tests evaluate few of the densities, at default parameters, and never compare with the formula after a parameter was set again.',
 ['popsynth/distributions/','popsynth/distribution.py'],[('densities and volume elements of the built-in spatial distributions','popsynth/distributions/'),('phi of the power-law luminosity functions','popsynth/distributions/'),('transform of flat and spherical distributions','popsynth/distributions/')],[('values of the parameters','kept per object','popsynth/utils/meta.py')],['dNdV','differential_volume','time_adjustment','transform','phi'])
with open('/verif/properties.jsonl','w') as f:
    for r in rows: f.write(json.dumps(r)+'\n')
print(len(rows))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for r in rows: jsonschema.validate(r,sch); assert r['statement'].count('. ')<=2,(r['id'])
