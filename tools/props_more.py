EXP = ["exp_utils.py"]
DATA = [S + "data.py"]

p("C12", "A mixture routes every row to its component, whatever the batch or faults",
  "A mixture answers for every complete row with the component whose centroid is closest (marginalised scopes left out, in all channels), and the answer does not depend on the other rows, their order or the batch size, nor on failures before it. "
  "Marginalised scopes and explanations are passed to every component, samples pick components with the mixture's weights (after initialisation: the share of rows each received) and are as many as asked for, and conditional answers are returned in the order of the evidence rows with that evidence kept.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "For every number and kind of components, centroids, weights (empty clusters included), batch composition, query and failure history.",
  "The mixture has no tests: its third-party clustering package is not even installed.",
  [S + "mixture.py", S + "einet.py"],
  [("closest centroid routing and un-sorting of rows", S + "mixture.py:forward / sample"), ("weights and centroids learned from data", S + "mixture.py:initialize"),],
  "Seeded search; exact comparison of rows, components and weights (half of the runs with stand-in components answering their own number), two-stage test of component frequencies. k-means is a deterministic stand-in.",
  [("centroids, mixture_weights", "decide routing and sampling, travel in the state dict", S + "mixture.py")],
  ["Mixture.forward / sample / mpe"])

p("C13", "The order of training data is decided by seeds alone and visits every row",
  "A training sampler with a seed yields the same infinite stream of indices on every iteration, in every process and in any ambient random state; every consecutive block of as many indices as there are rows is a permutation of the rows (in order when shuffling is off). "
  "Loaders visit every row once per pass (or endlessly when looping) and hand out the requested batch sizes; loader workers get numpy and Python seeds that differ from each other and are decided by torch's base seed and their number alone.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "For every number of rows, seed, batch size, order in which workers start, interleaving of several iterators, ambient draws and reading errors.",
  "No test builds a loader or sampler.",
  DATA + EXP,
  [("infinite seeded index stream", S + "data.py:TrainingSampler"), ("loaders", S + "data.py:_make_loader / build_dataloader"), ("worker seeding", "exp_utils.py:worker_init_reset_seed / seed_all_rng")],
  "Seeded search over interleavings of iterators and simulated workers; exact comparison of streams and seeds.",
  observe=["indices and batches delivered", "numpy, Python and torch state in simulated workers"])

p("C14", "A data set is split the same way every time, into disjoint labelled parts",
  "Loading a data set (again, after failed downloads, in any ambient random state, in any process) gives the same train, validation and test parts; the parts are disjoint and keep every row with its own label. "
  "Parts that a configuration carves out of one pool use each pool row at most once and together use all of it; items have the announced shape, value range and labels below the announced number of classes, tables are scaled with the training part's statistics, upstream test sets stay test sets, and loading leaves the ambient random generators as it found them.",
  ["histories", "fault_sequences", "inputs"],
  "For every supported data set, pool size and content, configuration (normalisation, validation share), ambient random state and sequence of failed and repeated loads.",
  "The tests load no data set; downloads need a network.",
  DATA, [("splits and transforms", S + "data.py:get_datasets"), ("synthetic data", S + "data.py:generate_data"), ("shapes and class counts", S + "data.py:get_data_shape / get_data_num_classes"),
         ("binary density-estimation tables", S + "data.py:load_debd")],
  "Simulated pools whose rows carry their number; exact tracing of rows and labels over repeated, failing loads. Synthetic and fake sets: repeatability, shapes, labels only.",
  observe=["items of the three data sets", "get_data_shape, get_data_num_classes"])

p("C15", "A data set download is complete or absent, whatever crashes in between",
  "If the process downloading the binary density-estimation data sets is killed, interrupted, runs into a file system or git error, or overlaps another process doing the same, every later load either gets the complete data at the pinned revision or repeats the download and then does; partial downloads are never read as data. "
  "A failing download raises an error in the process that met it, a complete download is not repeated, and nothing outside the data directory is deleted or changed.",
  ["crash_points", "fault_sequences", "schedules"],
  "For every crash point, failing step and overlap between two or three process lives.",
  "The tests never download; no test kills a process.",
  DATA, [("clone into a temporary directory, check out, move into place", S + "data.py:maybe_download_debd")],
  "Forked process lives on a scratch disk with simulated git and network; kills at every counted file system or process step, chosen by seed. Real git is not run.",
  [("data directory", "present means complete", "scratch disk")], ["load_debd", "get_datasets", "directory contents after each life"])

p("C16", "Experiment results are never lost or mixed up, and errors stay the original ones",
  "Every run gets a results directory of its own, also when names repeat or runs start at the same moment, and files of earlier runs stay as they were. "
  "A failing run raises its original error and, when the disk allows, leaves a report in its directory and marks it as failed; a checkpoint directory is resumed from the most recently written checkpoint in any listing order; directory helpers tolerate existing directories and concurrent creation and report real errors.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "For every sequence of runs with equal or different names, every failing or killed file system step and every overlap of two runs.",
  "No test touches result directories.",
  EXP,
  [("unique results directory", "exp_utils.py:make_results_dir"), ("error report and re-raise", "exp_utils.py:catch_exception / catch_kb_interrupt"),
   ("latest checkpoint", "exp_utils.py:load_from_checkpoint"), ("directories", "exp_utils.py:ensure_dir / mkdir_p / generate_run_base_dir")],
  "Forked lives on a scratch disk with faults at counted file system steps; every file is accounted for afterwards.",
  [("results directory", "one per run", "scratch disk")], ["returned paths", "directory contents", "raised errors"])

p("C17", "Initialising a model from data depends on the data only and survives failures",
  "Initialising piecewise linear leaves, a mixture's components or the leaf statistics from data gives the same model for the same data and seed, however a loader splits the data into batches, and initialising again after a failed attempt gives what a first successful attempt would have given. "
  "Initialised piecewise linear leaves are normalised densities of each feature's values in the cluster (discrete features: the smoothed frequencies of their domain), statistics equal mean and deviation over all rows, and the initialised model is usable in every query, for constant features, duplicated rows and empty clusters too.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "For every data set, split into batches, domain, smoothing, number of components, and every failing point of loader or initialiser.",
  "The one test of piecewise linear leaves checks a shape after one initialisation.",
  [S + "layers/distributions/piecewise_linear.py", S + "mixture.py", S + "sampling_utils.py", S + "histogram.py"],
  [("piecewise linear densities", S + "layers/distributions/piecewise_linear.py:initialize"), ("mixture components", S + "mixture.py:initialize"), ("leaf statistics", S + "sampling_utils.py:init_einet_stats")],
  "Seeded search over data, partitions and faults; bitwise equality of repeated initialisations, densities compared with frequencies and moments computed independently.",
  [("piecewise linear functions", "replaced only when complete", S + "layers/distributions/piecewise_linear.py")], ["model parameters", "forward", "sample", "mpe"])

p("C18", "Training and evaluation steps score exactly the batch they are given",
  "The loss of a training, validation or test step is the stated function of the batch and the model (mean negative log-likelihood; cross entropy and accuracy of the class posterior) and nothing else: evaluation and sampling in between, failed and repeated steps, and a process death followed by resuming change neither later losses nor parameters, and no step changes the caller's batch. "
  "Evaluating data in pieces and weighting by piece sizes equals evaluating it at once, repeated steps on one batch make the loss fall, and images are quantised to the configured number of bits in the range their leaves expect.",
  ["histories", "fault_sequences", "crash_points", "configurations", "inputs"],
  "For every model kind and configuration, sequence of train, validation, test, sampling and failing steps, batch partition and crash point between steps.",
  "No test runs a training or evaluation step.",
  ["models_pl.py", "main.py", S + "dist.py", S + "einet.py"],
  [("steps", "models_pl.py:SpnGenerative / SpnDiscriminative"), ("training and evaluation loops", "main.py:train / test"), ("quantisation", "models_pl.py:preprocess, simple_einet/utils.py:preprocess / reduce_bits"),
   ("leaf choice", S + "dist.py:get_distribution")],
  "A simulated trainer drives the real modules against a twin that only sees the successful batches; bitwise for parameters, tolerance across partitions. Lightning's own trainer is not run.",
  observe=["losses and logged metrics", "parameters after every step"])

p("C19", "Numbers can be trusted: no NaN, float32 agrees with float64, true gradients",
  "For finite parameters and rows (or rows with missing values), log-likelihoods are never NaN or plus infinity, a discrete model never reports a probability above one, and gradients of finite log-likelihoods are finite. "
  "With moderate parameters the single precision answers agree with a double precision copy for any number of features and rows far in the tails, and backward passes give the derivatives of the forward pass, for parameters, inputs and differentiable samples, after any history of training, failures and restarts.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "For every configuration (up to about a hundred features), parameters up to extreme logits, rows up to a thousand standard deviations out, and every history.",
  "The tests never compare a log-likelihood or gradient with a reference.",
  CORE[:2] + LEAVES + SUMS,
  [("log-sum-exp in every sum layer", S + "layers/sum.py, einsum.py, linsum.py, mixing.py"), ("leaf densities in log space", S + "layers/distributions/"), ("reparametrised sampling", S + "layers/sum.py, einsum.py, linsum.py: differentiable sampling")],
  "Seeded search after histories; double precision twin, central differences along random directions. Tolerances 2e-4 relative for values, 2e-3 for directional derivatives.",
  observe=["forward", "backward", "sample(is_differentiable=True)"])

p("C20", "Class posteriors are Bayes' rule, and sampled classes follow them",
  "The posterior of a row is the softmax of its class-conditional log-likelihoods (uniform prior): non-negative, summing to one, also with missing values, in any batch and after any history of failures and training. "
  "Averaged over the model's own samples the posterior of a class equals its share, among rows drawn for class c, conditionally drawn rows follow the posterior given the evidence, and a list of requested classes is answered row by row.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "For every model with two or more classes, every evidence pattern, class request, batch and history.",
  "The posterior is tested for its shape only, and never against sampling.",
  [S + "einet.py"] + SUMS[:2], [("Bayes' rule", S + "einet.py:posterior"), ("class choice", S + "einet.py:sample")],
  "Comparison with the code's own class-conditional likelihoods; martingale identities over seeded samples, two-stage test at 5.5 then 7 standard errors.",
  observe=["posterior", "sample(class_index=...)"])


p("C23", "Leaf parameters handed out instead of samples are those of the sampled leaves",
  "Asking an Einet's sampling for leaf parameters returns, for every requested row, channel and feature in the order of the features, the complete parameters of the one leaf that a sample on the same path comes from: with a most probable path or with the same seed, their modes are the values that sampling with modes at the leaves returns in unobserved entries, they are the same whether or not the request is differentiable, and for a model with one leaf per feature they reproduce the model's likelihood. "
  "This holds for unconditional, class-conditional and conditional requests, leaves of mixed families are padded with zeros, and the request changes neither the model nor the caller's tensors, also after earlier requests failed.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "For every Einet whose leaf families offer their parameters (normal, ratnormal, binomial, categorical and mixes of them), every number of samples, seed, evidence pattern, class request and failure history.",
  "No test asks for leaf parameters.",
  [S + "einet.py", S + "layers/factorized_leaf.py"] + LEAVES[:5] + [LEAVES[6]],
  [("selection of leaf parameters", S + "layers/factorized_leaf.py:_index_leaf_params"), ("selection without factorisation", S + "layers/distributions/abstract_leaf.py:dist_sample"),
   ("order and padding of mixed families", S + "layers/distributions/multidistribution.py:sample / get_params")],
  "Seeded search; comparison with sampling on the same path, membership in the leaf layer's own parameters, and likelihoods written from the families' definitions.",
  observe=["sample(return_leaf_params=True)", "sample(mpe_at_leaves=True)", "forward", "get_params"])


p("C24", "A Lightning experiment is decided by its configuration, its model is its result",
  "Running main_pl's experiment again with the same configuration, or with the configuration file the first run stored (also when its seed came from the clock), reports the same figures and images at the same steps and saves the same weights, whatever random state the process was in, whichever experiments ran, failed or were killed before, in the same process or in another; another seed gives another model. "
  "The test figures it reports for the training, validation and test part are those of the saved model on these parts, the saved model restores into a fresh one and evaluating it reports the same figures; a run that fails or dies says so, leaves no other model under the result's name and does not disturb the results of other runs.",
  ["configurations", "schedules", "crash_points", "histories", "fault_sequences"],
  "For every experiment configuration (data set, leaf family, generative or discriminative, mixture, Einet or ConvPc, structure, seed), every ambient random state, sequence of earlier runs, fault and moment of death.",
  "No test runs an experiment.",
  ["main_pl.py", "models_pl.py", S + "data.py", "exp_utils.py", S + "sampling_utils.py"],
  [("seeding, order of the steps, what is stored", "main_pl.py:main, preprocess_cfg"), ("figures", "models_pl.py: training_step, validation_step, test_step"), ("parts and loaders", S + "data.py:build_dataloader"),
   ("checkpoints", "exp_utils.py:load_from_checkpoint")],
  "Seeded search over whole experiments in simulated processes: ambient random state, clock, earlier experiments, injected tensor and disk faults and kills are chosen by the seed; outcomes compared bitwise, figures recomputed from the saved model.",
  observe=["main", "config.yaml", "model.pt", "the tracker's figures and images"])


p("C25", "The command line script trains what it saves and evaluates what was saved last",
  "Training with main.py twice with the same arguments saves the same weights and writes the same pictures, whatever random state the process started in and whatever ran in the same home directory before; another seed gives another model. "
  "Evaluating answers from the model that was saved last for the data set: it writes the pictures of the run that saved it, prints the losses and accuracies of that model on the three parts, repeats itself, changes no model, and is refused when nothing was saved. Training lowers the loss printed for the training part, and with no epochs or a learning rate of zero saves the initial model. "
  "A run that fails or dies says so and leaves the earlier or the finished model, never another one, and no run touches the results of other data sets.",
  ["configurations", "schedules", "crash_points", "histories", "fault_sequences"],
  "For every set of arguments (data set, leaf family, layer, structure, bits, seed, classification), every sequence of training and evaluation runs in one home directory, ambient random state, fault and moment of death.",
  "No test runs the script.",
  ["main.py", "args.py", S + "data.py", S + "utils.py", S + "einet.py"],
  [("order of seeding, training, saving and loading", "main.py: the main program"), ("figures", "main.py:test, log_likelihoods"), ("arguments", "args.py:parse_args"), ("pictures", "main.py: samples, reconstructions, mpe")],
  "Seeded search over sequences of whole invocations in simulated processes on a shared scratch home; weights and pictures compared bitwise, figures recomputed from the saved model.",
  observe=["model.pth", "the pictures", "standard output"])


def na(id, title, statement, text, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=["inputs"], text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=[], hook_needed=None)), reason))


na("C21", "A configuration the library cannot represent is refused at construction",
   "Building a model from an inconsistent configuration (sizes that are not positive, a depth the features do not allow, a cardinality the structure cannot group, unknown layer, structure or distribution names) raises an error that names the problem; it never yields a model.",
   "For every combination of configuration values.",
   "The tests try a handful of valid configurations.",
   [S + "einet.py", S + "conv_pc.py", S + "type_checks.py", "models_pl.py"], [("validation", S + "einet.py:EinetConfig.assert_valid"), ("type and range checks", S + "type_checks.py")],
   "A pure function of its arguments: no scheduling, time, I/O, randomness, state or failure takes part, so a simulator has nothing to decide; this is plain input generation.")

na("C22", "Stand-alone numeric helpers compute what they say",
   "The helpers that convert a loss to bits per dimension, reduce the bit depth of an image, invert a permutation and choose histogram bins return the documented value for every argument.",
   "For every argument.",
   "The tests do not call them, or on one value.",
   [S + "utils.py", S + "histogram.py", S + "data.py"], [("helpers", S + "utils.py, histogram.py")],
   "Pure functions without state, I/O, time or randomness: nothing for a simulator to schedule or to break. Where system behaviour depends on them they are exercised inside C04-C06, C14, C17 and C18.")
