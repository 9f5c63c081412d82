#!/usr/bin/env python3
"""writes properties.jsonl"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over.split(), text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech])))


STALE = ('Most of the suite targets an interface that no longer exists and fails; the tests that pass do not reach this code. ')

prop('G01', 'State and transition posteriors are exact marginals over all paths',
     '''For a compiled HMM graph and any matrix of per-frame log-likelihoods, the state posteriors and the transition
     posteriors are the exact marginals of the distribution over complete state paths weighted by initial, transition, final
     and observation weights: each frame sums to one, transition posteriors marginalise to the state posteriors, and
     paths of zero weight get none of the mass. The reported log-likelihood is the log of the summed weight of all paths.
     Adding a constant to the log-likelihoods of a frame changes only the reported log-likelihood.''',
     'inputs configurations', 'all log-likelihood matrices, all weights and zero patterns, any number of states and frames',
     STALE + 'The claim is over all real inputs and all graphs.',
     'beer/graph.py', [('forward/backward recursions and normalisation', 'beer/graph.py:CompiledGraph')])
prop('G02', 'The decoded path is a maximum-weight path',
     '''For every compiled graph and every matrix of log-likelihoods that admits a complete path, the returned best path has
     one state per frame, has non-zero weight, and no other complete path (initial, transition, final and observation weights
     included) has a larger weight. Emission scores of any sign are allowed.''',
     'inputs configurations', 'all log-likelihood matrices and all graph weights including forbidden transitions',
     STALE + 'Optimality is a claim about every competing path for every input.',
     'beer/graph.py', [('Viterbi recursion and backtracking', 'beer/graph.py:CompiledGraph.best_path')])
prop('G03', 'Compiling a graph preserves its weighted path language',
     '''Compiling a graph keeps one compiled state per emitting state in creation order together with its density index, and
     the weight from one emitting state to another (and from the start, and to the end) is the sum over all routes through
     non-emitting states of the product of the arc weights. Initial and final weights are normalised to one, and each row
     with a self-loop keeps its self-loop probability and shares the remainder over the other arcs in proportion to their
     weights.''',
     'programs inputs', 'all graphs built from states and weighted arcs whose non-emitting states form no cycle',
     STALE + 'The claim quantifies over graph shapes and over all weights.',
     'beer/graph.py', [('search through non-emitting states, normalisation', 'beer/graph.py:Graph.compile')])
prop('G04', 'Graph editing keeps the language and the caller\'s sub-graphs',
     '''Normalising a graph makes the outgoing arc weights of every state that has arcs sum to one and keeps their ratios.
     Replacing an inner state by a sub-graph yields exactly the paths in which each visit to the state is expanded into a path of the
     sub-graph, with the weights multiplied; state identifiers stay unique, and neither the sub-graph nor the rest of the
     graph is altered.''',
     'programs histories', 'all graphs, all weights, all sequences of replacements including repeated use of one sub-graph',
     STALE + 'Editing histories and weights are unbounded.',
     'beer/graph.py', [('normalisation and state replacement', 'beer/graph.py:Graph.normalize, Graph.replace_state')])

prop('D01', 'Natural and standard parameters of every distribution convert exactly',
     '''For every distribution in the library, the natural parameters are those documented for the standard parameters, and
     converting natural parameters back recovers the standard parameters, one distribution at a time or in a batch.
     Updating one distribution never alters another, and one element taken out of a batch behaves as that distribution alone.''',
     'inputs configurations', 'all valid parameters, dimensions and batch sizes',
     STALE + 'The identity must hold for all valid parameter values.',
     'beer/dists/dirichlet.py beer/dists/gamma.py beer/dists/isonormalgamma.py beer/dists/normalgamma.py beer/dists/normalwishart.py beer/dists/normaldiag.py beer/dists/normal.py beer/dists/basedist.py',
     [('parameter conversions', 'beer/dists/*:natural_parameters, from_natural_parameters, update_from_natural_parameters'),
      ('batch views', 'beer/dists/basedist.py:ParametersView')])
prop('D02', 'Expected statistics, log-normalisers, divergences and draws agree',
     '''For every distribution in the library and every valid parameter value, the expected sufficient statistics are the
     gradient of the log-normaliser with respect to the natural parameters, the divergence between two members equals its
     closed form and is zero for equal members, and expected values and entropies equal their closed forms.
     Random draws are distributed as mean plus a factor of the covariance times standard noise.''',
     'inputs configurations', 'all pairs of valid parameters, dimensions, batch sizes and noise values',
     STALE + 'Equality of functions over continuous parameters.',
     'beer/dists/dirichlet.py beer/dists/gamma.py beer/dists/isonormalgamma.py beer/dists/normalgamma.py beer/dists/normalwishart.py beer/dists/normaldiag.py beer/dists/normal.py beer/dists/basedist.py',
     [('expected statistics and log-normalisers', 'beer/dists/*'), ('divergence', 'beer/dists/basedist.py:kl_div, entropy')])
prop('D03', 'Likelihood statistics dotted with parameter vectors give log densities',
     '''For every likelihood in the library, the inner product of the statistics of a data point with the parameter vector
     built from real-valued coordinates is the log density of that data point, for each data point and each vector of a batch.
     Recovering parameters from such a vector returns the ones it was built from, and the advertised dimension is the
     number of real coordinates. The Normal likelihood with known covariance is relative to its base measure.''',
     'inputs configurations', 'all data points, all coordinates, dimensions and batch sizes',
     STALE + 'Equality of functions over continuous data and parameters.',
     'beer/dists/dirichlet.py beer/dists/gamma.py beer/dists/isonormalgamma.py beer/dists/normalgamma.py beer/dists/normalwishart.py beer/dists/normaldiag.py beer/dists/normal.py',
     [('likelihood functions', 'beer/dists/*Likelihood'), ('density evaluation', 'beer/dists/normaldiag.py, beer/dists/normal.py:forward')])

prop('B01', 'A conjugate update moves the natural parameters as Bayes\' rule prescribes',
     '''Updating a parameter with learning rate r sets the natural parameters of its posterior to (1-r) times their old value
     plus r times the prior plus the stored statistics; with r = 1 this is the exact Bayesian posterior. The prior and every
     other parameter are untouched, observers run before and after the change as registered, and stored statistics do not
     survive a reset.''',
     'inputs histories', 'all priors, posteriors, statistics, learning rates, and sequences of store, reset and update',
     STALE + 'Equality over all continuous values and update histories.',
     'beer/models/parameters.py beer/inference/optimizers.py',
     [('natural gradient step', 'beer/models/parameters.py:ConjugateBayesianParameter.natural_grad_update'),
      ('optimiser', 'beer/inference/optimizers.py:VBConjugateOptimizer')])
prop('B02', 'Accumulated objectives equal one pass over the union of the batches',
     '''The objective of a batch is the expected log-likelihood scaled by total size over batch size minus the divergence of
     the posteriors from the priors, and summing objectives of batches in any order or grouping gives the same value, the same
     sizes and the same statistics for every parameter. Back-propagating the sum stores, for every parameter, the summed
     statistics scaled by total size over accumulated size, so that a full pass over any partition of the data yields the
     update of a single pass; objectives over different total sizes cannot be added.''',
     'inputs histories', 'all data, all partitions into batches, all orders and groupings of the additions, save/load of partial sums',
     STALE + 'The claim is over all partitions, orders and data values.',
     'beer/inference/objectives.py',
     [('objective, addition and back-propagation', 'beer/inference/objectives.py:evidence_lower_bound, EvidenceLowerBoundInstance')])
prop('B03', 'The objective bounds the evidence with a gap equal to the divergence',
     '''For models with a conjugate prior, the objective plus the divergence from the current posterior to the exact
     posterior equals the log evidence, whatever the current posterior; hence it never exceeds the log evidence and a full
     update attains it. For mixtures, recomputing responsibilities and updating the parameters never decreases the objective.''',
     'inputs', 'all priors, posteriors and data sets',
     STALE + 'An identity between functions of continuous parameters and data.',
     'beer/inference/objectives.py beer/models/normal.py beer/models/normalset.py beer/models/categorical.py beer/models/mixture.py',
     [('objective', 'beer/inference/objectives.py'), ('models', 'beer/models/normal.py, beer/models/mixture.py')])


prop('B04', 'The gradient handed to optimizers is the exact derivative of the reported bound',
     '''For every model whose parameters are not all conjugate (variational auto-encoders with any prior, including hidden Markov models,
     subspace models, mixtures of subspaces, hierarchical subspaces), after backward() the gradient of every entry of every
     standard parameter equals minus the derivative of the objective at the drawn noise, no parameter being left out. With a hidden
     Markov model as prior the objective is the one with the exact log-likelihood of all state sequences.''',
     'inputs', 'all data, statistics, parameters, priors, weights of the terms and noise values', 'Tests never look at a gradient.',
     'beer/inference/objectives.py beer/models/vae.py beer/models/gsm.py beer/models/hmm.py beer/models/mixture.py beer/dists/normaldiag.py',
     [('backward', 'beer/inference/objectives.py:EvidenceLowerBoundInstance.backward'), ('auto-encoder', 'beer/models/vae.py:VAE.expected_log_likelihood'), ('subspaces', 'beer/models/gsm.py:GSM.expected_log_likelihood')])

prop('M01', 'A mixture uses the exact posterior of the component given the data',
     '''For a mixture of any components and weights, the responsibilities are proportional to exp of the expected component
     log-likelihood plus the expected log weight and sum to one per data point; the reported value is the log of the sum of those terms;
     statistics are accumulated per component with these responsibilities. With given labels, each data
     point counts for its label alone, and stand-alone posteriors equal the training responsibilities.''',
     'inputs configurations', 'all data, parameters, numbers of components and label assignments',
     'The mixture tests that pass check shapes and types only. ' + 'Equality over all values.',
     'beer/models/mixture.py beer/models/categorical.py beer/utils.py',
     [('responsibilities', 'beer/models/mixture.py:Mixture'), ('weights', 'beer/models/categorical.py')])
prop('M02', 'A set of mixtures behaves as its members side by side',
     '''The value a set of mixtures reports for each member is the log of its weighted component sum, and the statistics
     it accumulates for given state occupancies are, for every component and every weight, occupancy times within-mixture
     responsibility. Taking one member or a slice of the set gives a model with the same values as those members.''',
     'inputs configurations', 'all data, occupancies, parameters, numbers of mixtures and components, indices and slices',
     STALE + 'Equality over all values and index ranges.',
     'beer/models/mixtureset.py beer/models/categoricalset.py beer/utils.py',
     [('per-mixture responsibilities', 'beer/models/mixtureset.py:MixtureSet'), ('weights', 'beer/models/categoricalset.py:CategoricalSet')])
prop('M03', 'An HMM scores, accumulates and decodes with the exact path distribution',
     '''For an HMM over any graph and emission set, per-frame values and accumulated emission statistics are weighted by the state
     posteriors computed from the scaled emission scores, with states sharing a density pooled and the statistics scaled
     alike. A supplied path or the best path makes the posteriors the indicator of that path, an alignment graph
     supplied for one utterance is used only for that call, and decoding returns the density indices along a best path of the
     graph used.''',
     'inputs configurations', 'all features, emission parameters, graphs, density sharing maps, scales and inference graphs',
     STALE + 'Equality over all values and graph shapes.',
     'beer/models/hmm.py beer/models/modelset.py beer/graph.py',
     [('inference and accumulation', 'beer/models/hmm.py:HMM'), ('density sharing', 'beer/models/modelset.py:DynamicallyOrderedModelSet')])
prop('M04', 'A phone loop keeps its transitions in step with its unit weights',
     '''In a phone loop, leaving any unit leads to unit u with weight (one minus the self-loop of the last state) times the
     exponential of the current expected log weight of u, right after creation and after every update of the weights, while transitions
     inside units are unchanged. Training counts for the weights are the expected number of times each unit is
     entered (start of the utterance included), and alignment-graph training contributes nothing to the weights.''',
     'inputs histories', 'all weights, graphs, posteriors and update sequences; all weight priors',
     STALE + 'The claim is over all values and sequences of updates.',
     'beer/models/phoneloop.py beer/models/hmm.py', [('weight callback and accumulation', 'beer/models/phoneloop.py:PhoneLoop')])
prop('M05', 'Stick-breaking weights follow the stick-breaking construction',
     '''For truncated stick-breaking weights, the mean weight and the expected log weight of each category follow the stick-breaking
     construction in the current order of the categories, and every category's statistics are the counts of that category
     and of all categories after it. The order is by decreasing count, reordering permutes nothing
     else, a prior over the concentration is updated with the expected log remaining sticks, and a set of such weights starts at
     the mean of its root.''',
     'inputs histories', 'all concentrations, counts, truncations and update sequences',
     STALE + 'The claim is over all values, permutations and histories.',
     'beer/models/categorical.py beer/models/categoricalset.py',
     [('stick-breaking', 'beer/models/categorical.py:SBCategorical, SBCategoricalHyperPrior'), ('sets', 'beer/models/categoricalset.py:SBCategoricalSet')])
prop('M06', 'A bigram phone loop follows each unit\'s own successor distribution',
     '''In a bigram phone loop, leaving unit i leads to unit j with weight (one minus the self-loop of the last state of
     i) times the exp of the expected log weight of j in i's own distribution, after creation and after every update. Training
     counts for i's distribution are the expected number of i-to-j transitions, and alignment-graph training contributes none.''',
     'inputs histories', 'all weights, graphs, posteriors and update sequences',
     STALE + 'The claim is over all values and sequences of updates.',
     'beer/models/phoneloop.py beer/models/categoricalset.py', [('weight callback and accumulation', 'beer/models/phoneloop.py:BigramPhoneLoop')])
prop('M07', 'Concatenated, reordered and repeated model sets match their members',
     '''A concatenation of model sets reports the members' values side by side, splits responsibilities accordingly and returns
     the k-th model of the concatenation for index k. A reordered set reports column order[k] in position k and credits
     responsibilities back to that model, summing repeats; a repeated set tiles the values and sums the responsibilities.''',
     'inputs configurations', 'all data, responsibilities, set sizes, orders and repetition counts',
     STALE + 'Equality over all values and index maps.',
     'beer/models/modelset.py beer/models/normalset.py', [('model sets', 'beer/models/modelset.py'), ('normal sets', 'beer/models/normalset.py')])
prop('M08', 'Basic models report expected log-likelihoods and summed statistics',
     '''Normal models of every covariance type, sets of them, categorical models and gamma models report, for each data point,
     the expectation of the log density under the parameter posterior, and accumulate the sum (weighted by responsibilities in
     sets) of the data points' statistics, so that a full update gives the textbook posterior. A newly created model has the
     requested mean and covariance.''',
     'inputs configurations', 'all data, parameters, dimensions, covariance types and forms in which a covariance is given',
     STALE + 'Equality over all values.',
     'beer/models/normal.py beer/models/normalset.py beer/models/categorical.py beer/models/categoricalset.py beer/models/gamma.py',
     [('expected log-likelihood and accumulation', 'beer/models/normal.py, normalset.py, categorical.py, gamma.py')])
prop('M09', 'Models expose all their Bayesian parameters once, in consistent groups',
     '''Every Bayesian parameter reachable in a model (except the concentration of stick-breaking weights, which the update of
     the weights drives) is listed exactly once by its parameter iterator and in exactly one mean-field group, filters select exactly the matching ones, and the model's divergence is the sum over them.
     Statistics are returned for every listed parameter, and replacing a parameter replaces it everywhere it is used and
     nowhere else.''',
     'configurations programs', 'all ways of nesting the models of the library',
     STALE + 'The claim is over all compositions of models.',
     'beer/models/basemodel.py beer/models/mixture.py beer/models/mixtureset.py beer/models/phoneloop.py beer/models/modelset.py',
     [('parameter iteration', 'beer/models/basemodel.py:Model'), ('grouping', 'mean_field_factorization of every model')])

prop('N01', 'The autoregressive network is strictly autoregressive',
     '''For any input dimension, depth, width, conditioning input and hidden connectivity that may be drawn, output d of the
     autoregressive network (mean and variance) depends on no input coordinate at or after d, and masked-out weights have no
     influence. Outputs follow the documented affine and bounded-variance form.''',
     'inputs configurations', 'all weights, inputs, activations and all random connectivity choices',
     'The existing tests check masks for a few fixed orderings; nothing covers the composed network for all weights.',
     'beer/nnet/arnet.py', [('masks', 'beer/nnet/arnet.py:create_mask, create_final_mask, MaskedLinear, AutoRegressiveNetwork')])
prop('N02', 'Probabilistic layers report the log density of the samples they draw',
     '''Every probabilistic output layer returns samples that are the stated transformation of the noise and, for each sample,
     the log density of the distribution parameterised by the layer at that sample; using the mean gives the sample for noise zero. For the
     flow layer the log density is that of the base noise corrected by the log-determinant of the whole transformation.''',
     'inputs configurations', 'all inputs, weights, noise values, dimensions and numbers of flow steps',
     STALE + 'Equality of functions over all real inputs.',
     'beer/nnet/problayers.py', [('layers', 'beer/nnet/problayers.py')])
prop('N03', 'Network descriptions build exactly the described computation',
     '''A network built from a textual description applies the described elements in order, sums the outputs of merged
     elements (each applied to its own input, or all to a single one), adds the residual branch applied to the block input, and passes each parameter value through unchanged.
     Building or applying a network never modifies the caller's input, and residual networks add each block's output to its input.''',
     'inputs programs', 'all descriptions from the supported grammar, all weights and all inputs',
     'Existing tests parse three fixed strings.',
     'beer/nnet/neuralnetwork.py beer/nnet/residual.py recipes/timit_v2/utils/nnet-create.py',
     [('parser and builder', 'beer/nnet/neuralnetwork.py'), ('tool', 'recipes/timit_v2/utils/nnet-create.py'), ('residual network', 'beer/nnet/residual.py')])

prop('V01', 'Subspace models map latent positions to valid model parameters',
     '''A generalised subspace model maps each latent position through its affine transformation to parameters of the target model
     in a fixed layout, so that the expected log-likelihood of a model placed at a latent position equals the log density at the mapped
     parameters. Its objective is the averaged data term minus the divergence of the latent posterior (and of the subspace
     parameters) from their priors.''',
     'inputs configurations', 'all latent positions, subspace parameters, noise values, statistics and supported model families',
     STALE + 'Equality of functions over all real inputs.',
     'beer/models/gsm.py', [('affine transformation and parameter views', 'beer/models/gsm.py')])
prop('V02', 'The auto-encoder objective is the sampled bound for each data point',
     '''The per-data-point value of the variational auto-encoder is the weighted average over samples of the log density of that
     data point under its own decoded distribution, minus the weighted sampled divergence of its own latent posterior from
     the prior. With a prior that treats data points independently, values of one data point never depend on the other data points or on the batch size; the prior is trained
     on the latent statistics of the samples.''',
     'inputs configurations', 'all data, weights, noise values, numbers of samples, batch sizes and priors',
     STALE + 'Equality and non-interference over all real inputs.',
     'beer/models/vae.py beer/dists/normaldiag.py', [('objective', 'beer/models/vae.py:VAE')])

prop('F01', 'Filter banks are triangular on the requested perceptual scale',
     '''The mel and bark conversions are increasing and inverse of each other. Every filter of a filter bank is the triangle that is
     one at its own centre and zero at its neighbours' centres, the centres being equally spaced on the scale between the cut-off
     frequencies for the given sampling rate (provided they fall in distinct bins), and the same call always gives the same bank.''',
     'inputs configurations', 'all frequencies, filter counts, cut-offs, sampling rates and FFT lengths',
     STALE + 'The claim is over all frequencies and bank configurations.',
     'beer/features.py', [('scales and filters', 'beer/features.py:hz2mel, mel2hz, hz2bark, bark2hz, create_fbank')])
prop('F02', 'Frames, spectra and derivatives follow their definitions',
     '''The mean of the signal is removed, frames of the requested length are taken at the requested shift wherever a whole frame fits, and each is pre-emphasised, windowed
     and turned into its magnitude spectrum; the caller's signal is left unchanged. Derivative features are half the regression slope over the window with edge
     frames repeated, have the length of the input, and leave the static part unchanged. The extraction command applies the configured steps in this order to every file.''',
     'inputs configurations', 'all signals, lengths, frame rates, window lengths and derivative orders',
     STALE + 'The claim is over all signals.',
     'beer/features.py beer/cli/subcommands/features/extract.py',
     [('framing and spectrum', 'beer/features.py:short_term_mspec, fbank'), ('derivatives', 'beer/features.py:add_deltas'),
      ('cosine transform', 'beer/cli/subcommands/features/extract.py:compute_dct_bases')])

prop('F03', 'Feature post-processing of the recipes is frame exact',
     '''The statistics tool reports the mean, variance and number of all frames of the archive; stacking replaces each frame by
     itself between its neighbours in time order, repeating edge frames; the central-frame tool extracts for every
     maximal run of equal labels one frame in the middle of the run together with the number of its label.''',
     'inputs', 'all features, contexts, lengths and alignments',
     'No test covers the recipe tools.',
     'recipes/timit_v2/utils/features-stats.py recipes/timit_v2/utils/features-stack-parallel.py recipes/timit_v2/utils/features-extract-central-frame.py',
     [('statistics', 'recipes/timit_v2/utils/features-stats.py:main'), ('stacking', 'recipes/timit_v2/utils/features-stack-parallel.py:main'), ('central frames', 'recipes/timit_v2/utils/features-extract-central-frame.py:main')])

prop('C01', 'Unit graphs realise the configured topology with disjoint densities',
     '''Building the HMMs of a list of units from a configuration gives each unit a graph with exactly the configured arcs and
     weights, non-emitting first and last states, and its own consecutive block of density indices; together the blocks cover
     the emission set without gap or overlap, group by group, and each density belongs to the group of its unit. The tool of the TIMIT recipe does the same
     (weights normalised per state), sharing the densities of a group when asked to.''',
     'configurations inputs', 'all topologies, numbers of units and groups',
     'No test covers the command-line tools.',
     'beer/cli/subcommands/hmm/mkphones.py recipes/timit_v2/utils/hmm-create-graph-and-emissions.py', [('topology parsing and graph creation', 'beer/cli/subcommands/hmm/mkphones.py')])
prop('C02', 'Phone-loop, decoding and alignment graphs accept exactly the intended sequences',
     '''The phone-loop graph accepts every non-empty sequence of units (restricted at both ends to the start/end group when one
     is given), with uniform unit weights. The decoding graph is that loop with every unit expanded into its HMM and records each
     unit's entry and exit densities; an alignment graph accepts exactly the transcribed unit sequence, repeats and order included. The graph tools of the TIMIT recipe
     (optionally with silence at both ends) obey the same rules.''',
     'configurations inputs', 'all unit lists, groups, unit HMMs and transcriptions',
     'No test covers the command-line tools.',
     'beer/cli/subcommands/hmm/mkphoneloopgraph.py beer/cli/subcommands/hmm/mkdecodegraph.py beer/cli/subcommands/hmm/mkaligraph.py beer/graph.py recipes/timit_v2/utils',
     [('graph building', 'beer/cli/subcommands/hmm/mkphoneloopgraph.py, mkdecodegraph.py, mkaligraph.py')])
prop('C03', 'Decoded state paths and posteriors are reported as the right units',
     '''Turning a decoded path into units yields one unit per entry into the unit's first state (staying in that state is no new
     entry), or in per-frame mode the current unit for every frame, in order; an alignment graph given for an utterance is
     followed (by the decoding and alignment scripts of the TIMIT recipe too) and utterances that are not in the data set are left out. Unit posteriors are the sum of the posteriors of the unit's own states, so
     that they sum to one over units in every frame.''',
     'inputs', 'all valid state paths, unit layouts and posterior matrices',
     'No test covers the command-line tools.',
     'beer/cli/subcommands/hmm/decode.py beer/cli/subcommands/hmm/posteriors.py recipes/timit_v2/utils',
     [('conversions', 'beer/cli/subcommands/hmm/decode.py:state2phone, posteriors.py:state2phone'), ('scripts', 'recipes/timit_v2/utils/hmm-align.py, hmm-decode-parallel.py')])
prop('C04', 'Data sets and distributed training equal single-machine training',
     '''A compiled data set reports the exact global mean, variance and frame count of its utterances, and iterating visits every
     utterance once with its own features. Accumulating utterances on any number of machines, saving, and updating the
     model from the saved files gives the same model as one accumulation and update in memory, for any split and
     order of the utterances, empty jobs and unknown utterances included; training on a single machine with all utterances as
     one batch gives that model too.''',
     'inputs histories configurations', 'all utterances, splits into jobs, orders, scales and learning rates',
     'No test covers the command-line tools.',
     'beer/cli/dataset.py beer/cli/subcommands/dataset/create.py beer/cli/subcommands/hmm/accumulate.py beer/cli/subcommands/hmm/update.py',
     [('statistics', 'beer/cli/subcommands/dataset/create.py:accumulate'), ('pipeline', 'beer/cli/subcommands/hmm/accumulate.py, update.py')])
prop('C05', 'Phone-loop creation commands assemble the intended model',
     '''Creating a phone loop from a decoding graph and HMMs stores a loop with the arcs of the graph, the entry and exit states of
     the units, and the given emission models unchanged; units follow each other with the expected weights of the chosen prior with the
     requested concentration, whatever the type of prior. A bigram loop made from a unigram loop has the same units, emissions and
     arcs, its hierarchical prior starts at the trained unigram weights, and the unigram loop on disk stays as it was. Every unit is listed once.''',
     'inputs configurations', 'all unit layouts, types of priors, HMM weights, trained weights and emission parameters',
     'No test covers the command-line tools.',
     'beer/cli/subcommands/hmm/mkphoneloop.py beer/cli/subcommands/hmm/mkphoneloopbigram.py beer/cli/subcommands/hmm/phonelist.py beer/models/phoneloop.py',
     [('loops', 'beer/cli/subcommands/hmm/mkphoneloop.py:main'), ('bigram loops', 'beer/cli/subcommands/hmm/mkphoneloopbigram.py:main')])
prop('C06', 'Subspace phone-loop commands create, initialise and train the intended models',
     '''Creating a subspace phone loop puts exactly the parameters of the chosen group of units in the subspace, leaves the other groups
     as they were, starts from the statistics of the trained units (spread over their states and densities), and stores the layout,
     classes and positions of the units; initial positions come from the given file, which is left as it was. After every command
     the units lie where the stored subspace model and positions place them. Initialisation and prior setting take over
     the given model (prior means at its posterior, requested variance). Training equals training the same model in memory,
     for any number of epochs, samples, learning rates and stored optimizer state, and trains only the
     positions when asked to; accumulating and updating hand the statistics of the data to the subspace.''',
     'inputs histories configurations', 'all models, statistics, positions, draws, optimizer steps, unit layouts and epochs',
     'No test covers the command-line tools.',
     'beer/cli/subcommands/shmm/mksphoneloop.py beer/cli/subcommands/shmm/init.py beer/cli/subcommands/shmm/setprior.py beer/cli/subcommands/shmm/train.py beer/models/gsm.py',
     [('creation', 'beer/cli/subcommands/shmm/mksphoneloop.py:main'), ('initialisation', 'beer/cli/subcommands/shmm/init.py, setprior.py'), ('training', 'beer/cli/subcommands/shmm/train.py:main')])
prop('C07', 'Hierarchical subspace commands treat every language consistently',
     '''Creating a hierarchical subspace model from phone loops of several languages gives one subspace per language on top of one
     shared transformation, puts the largest group of units of each language in its subspace, leaves the other groups as they were, and
     stores each loop both jointly and under its language. Units lie where the stored model places them. Training equals
     training in memory on all languages together, each language with its own units and positions, for all numbers of epochs and samples, and
     the parts that are to be kept fixed keep their values. Initialisation combines the shared transformation of one
     model with the languages of another one as requested and moves only the units of the target language.''',
     'inputs histories configurations', 'all models, statistics, positions, draws, optimizer steps, unit layouts and numbers of languages',
     'No test covers the command-line tools.',
     'beer/cli/subcommands/hshmm/mksphoneloop.py beer/cli/subcommands/hshmm/init.py beer/cli/subcommands/hshmm/train.py beer/models/gsm.py',
     [('creation', 'beer/cli/subcommands/hshmm/mksphoneloop.py:main'), ('initialisation', 'beer/cli/subcommands/hshmm/init.py'), ('training', 'beer/cli/subcommands/hshmm/train.py:main')])

prop('E01', 'The token error rate is the exact edit distance',
     '''The reported token error count between a reference and a hypothesis is the minimum number of substitutions, insertions
     and deletions turning one into the other, for every pair of sequences, empty ones included, and applying a mapping to
     transcriptions replaces each token by its image and nothing else (a token without image is dropped when scoring, and
     replaced by the unknown symbol or reported by the mapping tool).''',
     'inputs', 'all pairs of token sequences and all mappings',
     'One doctest checks three fixed pairs.',
     'recipes/aud/utils/ter.py recipes/aud/utils/maptrans.py', [('edit distance', 'recipes/aud/utils/ter.py:wer'), ('mapping', 'recipes/aud/utils/maptrans.py:map_trans')])
prop('E02', 'Boundary scoring matches each boundary at most once within tolerance',
     '''Boundary evaluation reports hits that pair each hypothesised boundary with at most one reference boundary (and conversely)
     no further apart than the tolerance, so that recall, precision and F-score stay between zero and one; identical
     segmentations score one, every boundary of the alignment is taken into account, and no hypothesised and reference boundary
     within tolerance are both left unpaired.''',
     'inputs', 'all pairs of alignments and tolerances',
     'No test covers the scoring scripts.',
     'recipes/aud/utils/score_boundaries.py', [('matching', 'recipes/aud/utils/score_boundaries.py')])
prop('E03', 'Unit-phone mapping and mutual information follow the frame counts',
     '''Every discovered unit is mapped to a phone it overlaps most in frames, counting each aligned frame once. The
     normalised mutual information reported from those counts equals its definition, is symmetric in the normalised version, is
     100 for a one-to-one correspondence and 0 for independent labels.''',
     'inputs', 'all alignments and count tables',
     'No test covers the scoring scripts.',
     'recipes/aud/utils/maxoverlap_mapping.py recipes/aud/utils/nmi.py', [('mapping', 'recipes/aud/utils/maxoverlap_mapping.py:main'), ('measure', 'recipes/aud/utils/nmi.py:main')])
prop('E04', 'Alignment comparison and entropy reports equal their definitions',
     '''Comparing two sets of alignments counts, for every pair of reference and hypothesis units, the frames carrying both (plus the given
     epsilon), over the utterances both sets share, merging the groups of units given. The mutual information reported from such counts is the entropy of
     the hypothesis minus its conditional entropy given the reference, in bits, and in percent of the entropy of the reference. The reported entropy and perplexity of a
     transcription are those of its tokens after merging immediate repetitions.''',
     'inputs', 'all alignments, symbol maps, groups, transcriptions and count tables',
     'No test covers the scoring scripts.',
     'recipes/timit_v2/utils/compare-alignments.py recipes/timit_v2/utils/mutual-information.py recipes/aud/utils/entropy_rate.py',
     [('counts', 'recipes/timit_v2/utils/compare-alignments.py:main'), ('information', 'recipes/timit_v2/utils/mutual-information.py:main'), ('entropy', 'recipes/aud/utils/entropy_rate.py')])
prop('E05', 'The phone error rate is exact after the documented filtering',
     '''The printed phone error rate of the TIMIT recipe is 100 times the summed minimum edit distance of all utterances, matched by
     name, divided by the number of reference tokens, after dropping the units to remove, applying the phone map, and
     merging immediate repetitions when asked to. Files with different utterances are refused.''',
     'inputs', 'all transcriptions, removed units and phone maps',
     'No test covers the scoring scripts.',
     'recipes/timit_v2/utils/score.py', [('scoring', 'recipes/timit_v2/utils/score.py')])
prop('E06', 'Alignments and transcriptions are converted without loss',
     '''The recipe tools that convert alignments and transcriptions (frames to transcription, segments to frames, states or densities to units,
     words to phones or phone numbers, spellings to numbers of sounds, label files to frames, phones to reduced sets, units to numbers and states, speakers to labels, prefixing, unit lists) preserve utterances and order: each
     frame or token becomes its image and nothing else, a unit visited once is written once and visited twice in
     a row twice, equal names get equal numbers and different names different ones.''',
     'inputs', 'all alignments, transcriptions, lexicons, symbol tables and speaker maps',
     'No test covers the recipe tools.',
     'recipes/aud/utils recipes/timit_v2/utils recipes/aud/local', [('words to numbers', 'recipes/aud/local/alffa/prepare_transcripts.py, recipes/aud/local/google_lr/prepare_transcripts.py'), ('labels to tokens', 'recipes/aud/utils/ali2trans.py, recipes/aud/utils/convert_states_to_phone.py, recipes/timit_v2/utils/pdf2unit.py'),
     ('tokens to numbers', 'recipes/timit_v2/utils/prepare_trans.py, prepare_state_labels.py, prepare-spk-labels.py, convert-ali-to-best-path.py'), ('text', 'recipes/aud/utils/prepare_phone_trans.py, prepare_lang_aud.py, add_prefix.py, convert_align.py')])
prop('R01', 'Inference stays finite far from the model',
     '''Whatever the scores of the data under the states and components of a model, in particular when every state and component explains a frame
     very badly, when scores differ by orders of magnitude between states or frames, and when sequences are long, HMM posteriors (states and
     transitions), mixture responsibilities, their log normalisers, categorical probabilities of any natural parameters and Bernoulli
     log-likelihoods of saturated outputs are finite, and posteriors and probabilities sum to one: no exponential overflows and no
     sum of exponentials that is divided by, or whose logarithm is taken, vanishes in double precision.''',
     'inputs', 'all scores, natural parameters and activations, however large, and all weights of arcs and components',
     STALE + 'An overflow shows only for inputs far outside those of a test.',
     'beer/graph.py beer/utils.py beer/models/mixture.py beer/models/mixtureset.py beer/models/hmm.py beer/dists/dirichlet.py',
     [('forward-backward', 'beer/graph.py:CompiledGraph.posteriors'), ('responsibilities', 'beer/models/mixture.py, beer/models/mixtureset.py'), ('log of sums', 'beer/utils.py:logsumexp'),
      ('categorical', 'beer/dists/dirichlet.py:CategoricalLikelihood'), ('Bernoulli', 'beer/nnet/problayers.py:BernoulliLayer')])
prop('U01', 'Numeric helpers equal their mathematical definitions',
     '''One-hot encoding sets exactly the labelled position of each row, the log-sum-exp helper equals the log of the sum of the
     exponentials along the chosen dimension including rows that are entirely minus infinity, and symmetrising, the Jacobian and
     the Hessian approximation helpers return the matrices they document. Sampling helpers return mean plus standard deviation
     times noise for each distribution.''',
     'inputs', 'all tensors, shapes, dimensions and labels',
     STALE + 'Equality of functions over all real inputs.',
     'beer/utils.py', [('helpers', 'beer/utils.py')])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
