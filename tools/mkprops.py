"""Writes properties.jsonl (kept as a generator so the text stays in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())),
      why_tests_cant=' '.join(why.split()), anchors=dict(files=['brainstorm/'+f for f in files],
      mechanism=[dict(name=n, where='brainstorm/'+w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

L='layers/'
prop('C01', "Backward pass of every layer computes the exact gradient of its forward pass",
 """For every layer type, activation function, shape, parameter value, input, incoming deltas and (for recurrent layers) starting
 state, running a layer's forward pass and then its backward pass yields exactly the vector-Jacobian product of what the forward pass
 computed: parameter gradients are the derivatives with respect to each parameter, and each input's deltas are increased (added to what
 is already there) by the derivative with respect to that input (wherever the function is differentiable; the numerical clipping of probabilities
 in cross-entropy losses is not differentiated, dropout and batch normalisation are meant in training mode, and the deltas-scaling layer scales deltas on purpose).""",
 ['inputs','configurations'], """all layer types x activations x time/batch/feature sizes x parameters x inputs x output deltas x starting context;
 gradient buffers start cleared as the network does""",
 """gradient tests sample one or two shapes per layer in floating point with a tolerance, always with zero starting state and random inputs; a
 wrong coefficient, a missed peephole/recurrent term at the sequence boundary or an overwrite instead of an accumulate survives them""",
 [L+'fully_connected_layer.py',L+'recurrent_layer.py',L+'lstm_layer.py',L+'clockwork_layer.py',L+'clockwork_lstm_layer.py',L+'highway_layer.py',
  L+'batch_normalization_layer.py',L+'dropout_layer.py',L+'merge_layer.py',L+'mask_layer.py',L+'squared_error_layer.py',L+'softmax_ce_layer.py',
  L+'sigmoid_ce_layer.py',L+'binomial_cross_entropy_layer.py',L+'loss_layer.py',L+'l1_decay.py',L+'l2_decay.py',L+'elementwise_layer.py'],
 [('backward_pass of each layer implementation',L)], ['gradients','input deltas'])
prop('C02', "Forward pass of every layer computes its documented function",
 """For every shape, parameter setting and input, each layer's forward pass computes exactly its published equations (affine map plus activation,
 recurrent and LSTM recurrences, clockwork timing, highway gating, batch normalisation with training and inference statistics, dropout with
 inverse scaling only in training, masking, merging, losses averaged per sequence), at every time step and for every batch entry independently
 (except batch statistics).  A forward pass changes neither its inputs nor its parameters (except running statistics of batch normalisation in training).""",
 ['inputs','configurations'], "all layer types x activations x sizes x parameters x inputs x training flag",
 """tests only check that a forward pass runs or compare against itself through the gradient check; nothing pins the values, and no test can
 cover all shapes and sequence lengths""",
 [L+'fully_connected_layer.py',L+'recurrent_layer.py',L+'lstm_layer.py',L+'clockwork_layer.py',L+'highway_layer.py',L+'batch_normalization_layer.py',
  L+'dropout_layer.py',L+'mask_layer.py',L+'softmax_ce_layer.py',L+'squared_error_layer.py'],
 [('forward_pass of each layer implementation',L)], ['layer outputs'])
prop('C03', "Sequences can be continued across forward passes without changing the result",
 """Processing a batch of sequences in consecutive chunks, handing each chunk the state taken after the previous one, gives the same outputs at
 every time step as processing the whole sequence at once, for every way of cutting it (clockwork layers excepted: their clock restarts with every pass).  Without a given state every recurrent computation starts from
 zero regardless of what ran before, and neither taking, applying nor resetting the state alters any of the data the network was given.""",
 ['inputs','histories','configurations'], "all networks with recurrent layers x all sequences x all chunkings x all preceding runs",
 "no test runs a network with a carried-over state; the stale-data and chunk-boundary cases depend on the history of earlier passes and on which buffers share storage",
 ['structure/buffers.py','structure/network.py',L+'recurrent_layer.py',L+'lstm_layer.py',L+'clockwork_layer.py',L+'clockwork_lstm_layer.py'],
 [('context rows: get/apply/clear','structure/buffers.py'),('index t-1 wraps to the context row',L+'recurrent_layer.py')], ['outputs','get_context','inputs'])
prop('C04', "Buffer layout gives every buffer its own memory and wires inputs to sources",
 """For every network that can be built and every time and batch size, each layer output, internal buffer, parameter and gradient occupies memory
 that no other one overlaps; each layer input is exactly the (flattened) concatenation of all the outputs connected to it and nothing else, sharing their memory; the
 corresponding delta buffers are wired the same way; and the flat parameter and gradient vectors consist of exactly all layers' parameters and gradients in one and the same order.""",
 ['configurations','inputs'], "all architectures (any number of layers, named inputs/outputs, fan-in, fan-out) x all time/batch sizes",
 "layout tests check a handful of hand-written architectures; overlap or a wrongly ordered source only shows for particular connection patterns and sizes",
 ['structure/layout.py','structure/buffers.py','structure/buffer_structure.py','structure/buffer_views.py'],
 [('hub grouping by forward closure','structure/layout.py'),('row permutation so every sink is contiguous','structure/layout.py'),('slices from cumulative sizes','structure/buffers.py')], ['net.buffer'])
prop('C05', "Parameters survive resizing, data changes, handler changes and passes unchanged",
 """A network's parameter values change only through initialisation, training updates, weight modifiers or loading (and running statistics of
 batch normalisation in training passes): providing data of any size, growing or shrinking the batch or sequence length in any order, changing the computation backend, and forward or backward passes leave every
 parameter exactly as it was.  Reading a buffer returns an independent copy, and the buffers a user reaches by name always refer to the memory currently in use.""",
 ['histories','inputs'], "all networks x all sequences of resize / handler change / provide data / pass / read operations",
 "tests resize once or twice with one network; loss of parameters depends on the order of growing and shrinking and on stale views",
 ['structure/buffers.py','structure/network.py','structure/buffer_views.py'],
 [('copy of the parameters around reallocation','structure/buffers.py'),('existing views adjusted in place','structure/buffer_views.py')], ['net.get("parameters")'])
prop('C06', "Layers always run in a deterministic dependency order and cycles are rejected",
 """For every architecture, the order in which layers are computed contains every layer exactly once, places each layer after all the layers that feed it, and
 depends only on the architecture's content, not on the order in which it is written down; backward passes use the reverse.  An architecture with a cycle,
 an unknown connection target, a missing, second or wrongly fed input layer, or an invalid layer name is refused.""",
 ['configurations'], "all architectures (dicts in any key order)",
 "tests contain a few fixed graphs; ordering mistakes need particular diamond-shaped or skip-connected graphs",
 ['structure/architecture.py','structure/network.py'],
 [('canonical layer order','structure/architecture.py'),('architecture validation','structure/architecture.py')], ['net.layers','exceptions'])
prop('C07', "Every numeric backend operation computes its documented result and nothing else",
 """Each array operation offered by the CPU backend writes into its output exactly the documented function of its arguments (matrix products with every combination of transposition,
 row/column broadcasting, reductions over any axis, conditional copies, indexing, activation functions and their derivatives), for every shape and value, accumulates only where documented,
 allows the output to be one of the element-wise arguments, and modifies no other array.""",
 ['inputs'], "all operations x all shapes x all values x output aliasing",
 "tests compare with a reference implementation on a few fixed shapes, without aliasing, and without checking that the arguments stay unmodified",
 ['handlers/numpy_handler.py','handlers/base_handler.py'], [('one method per operation','handlers/numpy_handler.py')], ['out arrays'])
prop('C08', "Convolution and pooling are exact for every geometry and stay in bounds",
 """For every image size, kernel, stride and padding the 2D convolution, max pooling and average pooling compute exactly the windowed correlation plus bias, the maximum, and the mean over the
 in-image part of each window; their backward operations are the exact adjoints (each max-pooled delta goes to the one position the maximum was taken from), adding to the existing input deltas.  No access ever
 leaves the arrays, and output sizes follow from the geometry.""",
 ['inputs','configurations'], "all batch/height/width/channel sizes x kernel x stride x padding x values",
 "tests use a few square images with symmetric strides and padding; index arithmetic errors need non-square windows, unequal strides or borders, and bounds checks are compiled out",
 ['handlers/_cpuop.pyx','handlers/numpy_handler.py',L+'convolution_layer_2d.py',L+'pooling_layer_2d.py'],
 [('pooling, im2col and col2im kernels','handlers/_cpuop.pyx'),('output size formula',L+'convolution_layer_2d.py')], ['outputs','input deltas'])
prop('C09', "Describing and re-creating, and saving and loading, preserve everything static",
 """Every describable object (initialisers, modifiers, hooks, steppers, schedules, trainers, scorers, handlers, networks) has a JSON-serialisable description, and the object re-created from it (also after a
 JSON round trip) has the same description and behaves like a freshly built one; describing does not change the object.  A network loaded from a saved file has the same architecture, modifiers and bit-identical
 parameters and computes the same outputs as the one saved.""",
 ['inputs','configurations'], "all describable classes x all constructor arguments x nesting; all networks",
 "tests describe a few toy classes and one network; an attribute missing from a description or lost on re-creation shows only for particular arguments",
 ['describable.py','structure/network.py','initializers.py','value_modifiers.py','hooks.py','randomness.py'],
 [('generic description of members minus undescribed/default ones','describable.py'),('HDF5 save/load','structure/network.py')], ['get_description','create_from_description','save/load'])
prop('C10', "Layer and view patterns select exactly the intended parameters",
 """Given initialisers or modifiers keyed by names and wildcard patterns, every parameter receives exactly those whose layer pattern and view pattern both match its full name; the default applies to exactly the parameters no
 other pattern matches and the fallback is used only where the selected initialiser cannot handle the shape.  Ambiguous, unmatched or missing assignments are rejected, lists of modifiers run in the given order, and modifiers on different parameters never share state.""",
 ['inputs','configurations'], "all networks x all (nested) pattern dictionaries",
 "tests enumerate a few reference dictionaries; precedence mistakes need particular combinations of overlapping wildcards, nested defaults and fallbacks",
 ['structure/view_references.py','structure/network.py'], [('recursive reference resolution','structure/view_references.py'),('exactly-one check','structure/network.py')], ['initialize','set_weight_modifiers','set_gradient_modifiers'])
prop('C11', "Initialisers respect shape, range, structure and seed",
 """Every initialiser returns an array of exactly the requested shape whose entries obey its documented range or structure for every shape it accepts (uniform and fan-in/fan-out bounds, scaled orthogonality, spectral radius, number of
 non-zero connections per unit, identity plus noise), and refuses shapes it cannot handle with an initialisation error.  Initialising a network with a given seed always gives the same parameters, whatever ran before.""",
 ['inputs','histories'], "all initialisers x arguments x shapes x seeds x preceding random draws",
 "tests call each initialiser on one shape; bounds, sparsity counts and reproducibility depend on shape orientation and on global random state",
 ['initializers.py','randomness.py','structure/network.py'], [('one callable class per initialiser','initializers.py'),('seeding of sub-initialisers','initializers.py')], ['net.initialize','initialiser call'])
prop('C12', "Data iterators deliver every sample exactly once, aligned, unharmed",
 """In every epoch a minibatch iterator yields each sequence exactly once, in the announced number of batches, with all named data items of a batch covering the same sequences in the same order, cut to the longest sequence of the batch and losing no
 unmasked time step; shuffling only permutes whole batches.  Noise, flipping, padding, cropping and one-hot/multi-hot wrappers transform precisely the named items as documented, leave others alone, never modify the underlying data set, and behave the same in every epoch.""",
 ['inputs','histories','configurations'], "all data sets x batch sizes x masks x shuffling seeds x wrapper stacks x numbers of epochs",
 "tests run one epoch on one small array per iterator; last partial batches, fully masked sequences and accumulation over epochs are not visited",
 ['data_iterators.py','handlers/_cpuop.pyx'], [('batch slices from shuffled batch indices','data_iterators.py'),('lengths from mask','data_iterators.py')], ['iterated batches','data set arrays'])
prop('C13', "Trainer calls steps and hooks in the documented order, exactly when due",
 """During training every batch of every epoch triggers exactly one update followed by the weight modifiers and then the due update-hooks; epoch-hooks run once after each epoch; a hook runs exactly when the count of its timescale is a multiple of its interval
 (also once before training), in the order the hooks were added, with the current epoch and update numbers.  Training ends right after the first point at which a hook asks to stop - all other hooks due at that point still run - and every returned log value is appended in order under the hook's name.""",
 ['histories','configurations'], "all hook sets x intervals x timescales x data lengths x points and sources of stop signals",
 "no test runs the trainer with hooks at all; ordering and stop handling depend on combinations of hooks",
 ['training/trainer.py','training/utils.py','hooks.py'], [('training loop','training/trainer.py'),('hook emission','training/trainer.py')], ['hook calls','trainer.logs'])
prop('C14', "Stopping and saving hooks act exactly on their documented condition",
 """For every history of logged values, early stopping fires exactly when the best value (first occurrence) is at least `patience` checks old, threshold stopping exactly when some value has reached the threshold, epoch stopping exactly at the given epoch, and
 non-finite stopping exactly when a checked log, the training loss or a parameter is not finite, for both the minimum and the maximum criterion.  The best-network hook always holds the parameters belonging to the best value so far (the earliest such value), whatever happens afterwards.""",
 ['histories','inputs'], "all log histories x patience x thresholds x criteria",
 "hooks have no tests; off-by-one and tie cases need specific histories",
 ['hooks.py'], [('stopping conditions','hooks.py'),('best-so-far bookkeeping','hooks.py')], ['StopIteration','saved parameters'])
prop('C15', "Schedules return the documented value at every step",
 """For every configuration, step count and interval: the linear schedule starts at the initial value, changes by equal amounts once per interval and stays at the final value after the given number of changes; the exponential one is the initial value times the factor to the
 number of elapsed intervals, limited to its bounds; the multi-step one switches exactly at the listed steps; and the decreasing one is constant for the given epochs and then inversely proportional to the epoch.  The modifying hook assigns exactly that value to the chosen attribute.""",
 ['inputs','histories'], "all schedule parameters x epoch/update numbers x timescale x interval",
 "tests check a few points of each schedule; boundary steps and large counts are not covered",
 ['training/schedules.py','hooks.py'], [('schedule call','training/schedules.py')], ['returned value'])
prop('C16', "Training steps apply exactly their update rule to all parameters",
 """For every network, parameter, gradient, learning rate and momentum (also when changed between steps), one step of gradient descent, momentum and Nesterov momentum performs exactly one forward (in training mode) and one backward pass and updates every parameter and the velocity by the documented
 formula, including the optional scaling of the learning rate; a forward-only step changes no parameter.  Starting a step on a network resets its state.""",
 ['inputs','histories'], "all networks x parameter/gradient values x hyper-parameters x sequences of steps",
 "tests only check that a step can be constructed or that the loss decreases; a wrong coefficient or stale velocity still trains",
 ['training/steppers.py','structure/network.py'], [('run methods','training/steppers.py')], ['net.buffer.parameters'])
prop('C17', "Weight and gradient modifiers enforce their constraint and touch nothing else",
 """For all values and shapes: after norm constraining no unit's incoming weight norm exceeds the limit and units within the limit are unchanged (others keep their direction); clipping puts every value in the interval and leaves inner values alone; masking multiplies by the
 mask; freezing restores the first-seen or given values exactly; L1/L2 decay add the factor times sign/value to the gradient and leave the parameters alone.  Modifiers act only on the parameter they are attached to, in the network's modification calls, and keep working after the batch size or handler changes.""",
 ['inputs','histories'], "all modifiers x parameters x shapes x values x repeated application",
 "two tests on one matrix each; the limit case, conv-shaped weights and repeated application are not covered",
 ['value_modifiers.py','structure/network.py','structure/view_references.py'], [('modifier calls','value_modifiers.py'),('application loops','structure/network.py')], ['parameters','gradients'])
prop('C18', "Scores and losses are aggregated correctly over batches of any size",
 """Accuracy, Hamming score and mean squared error computed over a data set equal the score of the whole data set (weighted by the number of unmasked entries) however it is split into batches, and reported losses are the batch-size-weighted averages; with several loss layers the
 total is their sum.  Evaluating or extracting features visits the complete data, returns the buffers of every batch in order, and changes neither parameters nor data.""",
 ['inputs','configurations'], "all targets/predictions/masks x all splits into batches x loss layers",
 "scorer tests check single calls; aggregation over unequal batches and masks is untested",
 ['scorers.py','tools.py','structure/network.py'], [('gather and aggregate','scorers.py'),('evaluate/extract','tools.py')], ['evaluate result'])
prop('C19', "Wiring layers in code yields the same architecture with unique names",
 """However layers are created and connected (any order of wiring, named inputs/outputs, merging of separately built parts), the generated architecture contains every connected layer exactly once under a unique valid name (its own name if
 nobody else has it, numbered in creation order otherwise), exactly the connections that were made, and each layer's arguments; building a network from that architecture and from the layers is equivalent.  Input shapes are the concatenation of the connected output shapes, and a mismatch is refused.""",
 ['configurations','histories'], "all sequences of layer creations and connections x names",
 "naming tests use a few layers; collisions between generated and explicit names and scope merging depend on the wiring order",
 ['structure/construction.py','structure/architecture.py','structure/buffer_structure.py'], [('scoped unique names','structure/construction.py'),('architecture generation','structure/architecture.py')], ['generated architecture'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
