DEFAULT = ('exploration', 'contracts on the real functions, bounded run-time checking (deductive part under construction)',
           'bounded stand-in: the contract is checked on generated inputs, not proved')
PROOF = 'contract-based deductive verification: the real functions are executed symbolically (loops by inductive invariants / recursive lemmas), obligations discharged by polynomial normal form + z3; bounded run-time checking of the same contracts stands in for what is listed as bounded'
LEVELS = {
    'C01': ('proof', PROOF, 'every layer except Convolution2D and Pooling2D proved for all sizes, lengths and contents (real arithmetic); those two are bounded'),
    'C02': ('proof', PROOF, 'every layer except Convolution2D and Pooling2D proved for all sizes, lengths and contents (real arithmetic); those two are bounded'),
    'C08': ('proof', PROOF, 'all kernels and the handler methods around them proved for all sizes and contents (real arithmetic), with every array access in range; float rounding and the compiled C are bounded'),
    'C07': ('proof', PROOF, 'every NumpyHandler operation except convolution and pooling proved for all shapes and contents (real arithmetic); float rounding is bounded'),
    'C03': ('other', PROOF + '; connection graphs are enumerated', 'row-wise computation of every layer except Convolution2D and Pooling2D proved for all sizes and lengths; saving, applying and clearing the state proved for every generated connection graph (bounded) and all sizes; induction over time proved; real networks are bounded'),
    'C05': ('other', PROOF + '; connection graphs are enumerated', 'one operation from an arbitrary state (any sizes, any memory held) proved for every generated connection graph (bounded), induction over histories; real networks and backends are bounded'),
    'C04': ('other', PROOF + '; connection graphs are enumerated', 'for every generated connection graph (bounded) the layout is proved for all layer sizes, sequence lengths, batch sizes and previously held memory; one array in its hub is proved for all hubs; real networks are bounded'),
    'C06': ('proof', PROOF + '; sets, relations and loops over them by z3 with inferred invariants', 'validation, canonical order, instantiation and the order of passes proved for architectures of any size; the names of layers and connections are arbitrary; real networks are bounded'),
    'C10': ('proof', PROOF + '; sets, relations and families of sets by z3; the regular expressions as languages', 'selection, defaults, fallbacks, the exactly-one check, copies and order of modifiers proved for networks and reference dictionaries of any size; patterns with up to three wildcards around arbitrary text; a "default" that is itself a dictionary and real networks are bounded'),
    'C09': ('proof', PROOF + '; dictionaries and lists of any size by z3; arguments as uninterpreted terms', 'the generic mechanism proved for objects with any members and containers of any size, class hierarchies up to four deep; round trips of every initialiser, modifier, hook, scorer, stepper and schedule proved for all arguments; the save/load steps proved with JSON and HDF5 assumed faithful; trainers, handlers, arrays and files on disk are bounded'),
    'C19': ('proof', PROOF + '; graphs, scopes and searches of any size by z3 with inductive invariants', 'creating, wiring, merging of scopes, naming, the connected set, the description of layers and the combined shapes proved for any number of layers, connections and names; building networks from the result is bounded'),
    'C15': ('proof', PROOF, 'all schedules proved for all parameters and all call histories; describe/recreate is bounded'),
    'C16': ('proof', PROOF, 'all steppers proved for any number of parameters, any values and any number of updates; batch-size and trainer integration is bounded'),
    'C17': ('proof', PROOF, 'all value and gradient modifiers proved for all shapes and contents and any number of buffers; float rounding is bounded'),
    'C11': ('proof', PROOF, 'every initialiser proved for all shapes and arguments in terms of the numbers drawn, seeding proved for any history; the distribution of the draws and float rounding are bounded'),
    'C12': ('proof', PROOF, 'Minibatches, Undivided and all wrappers proved for data of any size and contents, any batch size and any number of batches, in terms of the numbers drawn; nesting and float rounding are bounded'),
    'C13': ('proof', PROOF, 'Trainer.train and its helpers proved for any number of hooks, epochs, batches and any hook behaviour; the shipped hooks in a real training run are bounded'),
    'C14': ('proof', PROOF, 'the stopping and saving hooks proved for any log of scores; files on disk and real training runs are bounded'),
    'C18': ('proof', PROOF, 'scorers, aggregation, evaluate and extraction proved for all shapes, contents and numbers of batches; real networks and float rounding are bounded'),
}
