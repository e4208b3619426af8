SA = 'src/'
P('C01', 'Operator dispatch is complete and type-correct',
  'For every operator of the published CPU operator set and every element type it supports, calling the operator runs exactly the implementation of that operator instantiated for that element type. '
  'Dispatch is decided by the device and element type of the first tensor or options argument, and every argument reaches the implementation unchanged and in order. '
  'No operator is served by another operator\'s implementation and none of the supported combinations is missing.',
  ['inputs', 'configurations'], 'every operator, device, element type and argument list',
  'the tests call a sample of operators, nearly always in Float32; a missing or crossed registration for another (operator, dtype) pair is never exercised',
  ['src/Tensor/Dispatch.h', 'src/Operation/OpElemWiseCpu.cpp', 'src/Operation/OpReduceCpu.cpp', 'src/Operation/OpTransformCpu.cpp'],
  [('registration macros and dispatch tables', 'src/Tensor/Dispatch.h'), ('register*Cpu initialisers', 'src/Operation/*Cpu.cpp')],
  'registry extraction by abstract interpretation of the static initialisers + table completeness/injectivity rules',
  'exact for every registration that the initialisers make unconditionally; reference matrix confirmed by hand. CUDA tables are not part of the CPU build.')
P('C02', 'Tensor memory is only accessed as its declared element type',
  'Tensor contents are only ever read or written as the C++ element type that belongs to the tensor\'s dtype: a typed access with any other element type traps instead of reinterpreting bytes. '
  'Wherever an operator fixes a dtype itself (results and index tensors it allocates, operands it asserts), its accesses agree with that dtype.',
  ['inputs', 'programs'], 'every operator, every combination of operand dtypes',
  'the tests use matching dtypes throughout; a mismatch silently reads out of bounds or garbage',
  ['src/Tensor/TensorImpl.h', 'src/Tensor/Tensor.h', 'src/Tensor/DType.h', 'src/Operation/OpElemWiseCpu.h'],
  [('dtype test in the data accessor', 'src/Tensor/TensorImpl.h dataPtr'), ('dtype/type tables', 'src/Tensor/DType.h')],
  'path-sensitive abstract interpretation of the accessor plus dtype inference over every registered kernel',
  'accessor rule is exact; kernel accesses with statically unknown dtype rely on the accessor trap.')
P('C03', 'Elementwise operators compute their definition in every variant and dtype',
  'For every elementwise unary, binary, comparison, logical, ternary and scalar operator and the elementwise backward helpers, in each supported dtype and in each of its forms (returning, writing to a given result, in place), '
  'every element of the result is the operator\'s mathematical definition applied to the corresponding broadcast elements of its operands in their stated order. '
  'The forms and dtypes of an operator agree with one another.',
  ['inputs'], 'every operand value, shape and dtype; rounding, NaN, sign of zero excluded',
  'tests compare a few Float32 values of a few forms; Half/BFloat16/Int64 instances and the out/in-place forms are mostly unexercised',
  ['src/Operation/OpElemWiseCpu.h', 'src/Operation/OpElemWise.h', 'src/Operation/OpElemWiseCpu.cpp'],
  [('functor structs OpCpu*', 'src/Operation/OpElemWiseCpu.h'), ('kernel templates', 'src/Operation/OpElemWiseCpu.h')],
  'symbolic term extraction by abstract interpretation + rational-function normal form against the definition table',
  'decides the real-number formula; IEEE rounding is out of scope. Unrecognised loop shapes are counted as undecided, not reported.')
P('C04', 'Writing through one tensor never changes the value of another',
  'Clones, detached tensors and views share storage but behave as values (two handles copied from one another are the same tensor): an in-place operator, an out-form, an index assignment, a fill, a load or any other write through one tensor changes the values seen through that tensor only; the raw Tensor::copy_, which by design writes through into shared storage, is excepted. '
  'Every other tensor that shared its storage keeps the values it had, and nobody keeps writing through a buffer obtained before the copy was made. '
  'Cloned and detached-for-write storage holds the complete original contents.',
  ['inputs', 'histories'], 'every mutating operator, every history of copies and views',
  'the tests check results of the mutated tensor, not the tensors it shared storage with, and each history of copies is a different case',
  ['src/Tensor/TensorImpl.cpp', 'src/Tensor/Storage.cpp', 'src/Operation/OpElemWiseCpu.h', 'src/Operation/OpTransformCpu.h', 'src/Operation/OpFillingCpu.h', 'src/Serializer.cpp'],
  [('copy-on-write primitive', 'src/Tensor/TensorImpl.cpp copyOnWrite'), ('kernels that store into caller tensors', 'src/Operation/*Cpu.h')],
  'must-precede analysis: every store into a buffer the storing code did not allocate is dominated by copyOnWrite of that tensor, and uses a pointer acquired after it',
  'exact on the resolved call paths from every registered kernel and public entry point; buffers reached through containers of tensors are counted, not decided.')
P('C06', 'Backward passes deliver the derivative of the forward pass',
  'For every differentiable function and loss: each input that requires a gradient receives, exactly once and on every path, the vector-Jacobian product of what forward computed, with the incoming gradient propagated, the right operand order, scale factors and '
  'reduction, summed back over broadcast dimensions; an input that does not require a gradient receives none, independently of the other inputs. '
  'Backward reads the values forward saved, in the order and with the types they were saved.',
  ['inputs', 'programs'], 'every input value, shape, scale factor and combination of requiresGrad flags',
  'tests compare gradients for a few fixed values with upstream gradient 1, alpha 1 and all inputs requiring gradients',
  ['src/Function/FuncElemWise.h', 'src/Function/FuncNNLayer.h', 'src/Function/FuncTransform.h', 'src/Function/FuncReduce.h', 'src/Function/FuncLoss.h', 'src/Operation/OpLossCpu.h'],
  [('forward/backward pairs', 'src/Function/Func*.h'), ('context save/restore', 'src/Tensor/Function.h'), ('loss gradient kernels', 'src/Operation/OpLossCpu.h')],
  'symbolic differentiation of the extracted forward term compared with the extracted backward term, plus guard/coverage dataflow over the gradient deliveries',
  'decides real-valued formulas at points where the function is differentiable; functions whose backward is NOT_IMPLEMENTED are counted, not checked.')
P('C07', 'Backward replays exactly the recorded graph and accumulates gradients',
  'Applying a function records its inputs and links to their producers exactly when gradient recording is enabled and at least one input requires a gradient; only then does the result require one. '
  'A backward pass runs every recorded function that leads to a leaf, once, after all functions that feed it, with the complete gradient of its own result. Gradients add up in a tensor owned by the leaf, over calls and over uses, '
  'and the gradients of intermediate results never leak into a later pass. Guards nest and are per thread, hooks run once with the leaf\'s gradient and are addressed by a stable identifier, compound assignment keeps the recorded history.',
  ['inputs', 'programs', 'histories'], 'every graph shape, every combination of requiresGrad flags and guards, every sequence of backward passes',
  'tests run small graphs once from a single root; diamonds, repeated passes, nested guards and hook removal have unbounded many shapes',
  ['src/Tensor/AutogradMeta.cpp', 'src/Tensor/Function.h', 'src/Tensor/Function.cpp', 'src/Tensor/NoGradGuard.cpp', 'src/Tensor/Tensor.cpp'],
  [('graph recording', 'src/Tensor/Function.h apply'), ('graph construction and replay', 'src/Tensor/AutogradMeta.cpp buildBackwardGraph/backward'), ('gradient accumulation', 'src/Tensor/AutogradMeta.cpp addGrad')],
  'exhaustive case analysis of the extracted guards of every Function::apply instance; typestate/dataflow rules on graph construction, seeding, accumulation, hooks and guards',
  'graph construction is decided by structural rules (each edge counted once, released once, emitted when ready) rather than by a proof over all graphs.')
P('C08', 'Optimizers apply their update rule to every parameter in every mode',
  'One step of SGD (momentum, dampening, Nesterov, weight decay), Adagrad, RMSprop (centered, momentum), AdaDelta, Adam and AdamW (AMSGrad) replaces each parameter and each piece of its state by exactly the published update rule, '
  'in every combination of the mode switches. Parameters without a gradient, and their state, stay as they are. State lives in tensors of its own, starts at its defined initial value, and gradients are not changed by the step. '
  'step() advances the step counter before the update and runs it without gradient recording; zeroGrad clears every parameter; setLr takes effect; StepLR multiplies the rate by gamma exactly at positive multiples of the step size.',
  ['inputs', 'configurations', 'histories'], 'all parameter, gradient and state values, all hyperparameters and mode switches, any number of steps',
  'tests run one or two steps on fixed numbers in the default mode; the update rule is a formula over all values and the modes combine',
  ['src/Optimizer.cpp', 'src/Optimizer.h', 'src/Scheduler.cpp', 'src/Scheduler.h'],
  [('update rules', 'src/Optimizer.cpp *::doStep'), ('state initialisation', 'src/Optimizer.cpp constructors, initCache'), ('learning rate schedule', 'src/Scheduler.cpp StepLR::getLr')],
  'symbolic extraction of one step over one parameter under every mode, compared as formulas with the published rule (normal form over the reals), plus ownership and ordering rules on the extracted writes',
  'rules are compared over the reals: floating-point rounding order is not part of the property. AMSGrad keeps the maximum of the bias-corrected second moment.')
P('C09', 'Softmax and normalisation kernels compute their definition over every lane',
  'softmax and log-softmax along any dimension, their backward kernels, layer normalisation and RMS normalisation compute, for every element, their mathematical definition over exactly the lane (or row) the element belongs to: '
  'the whole lane is reduced, no element of another lane takes part, softmax is shifted by the maximum of its own lane, normalisation uses mean, variance and epsilon of its own row and applies weight and bias by position in the row.',
  ['inputs'], 'every shape, every dimension (also negative), every input value',
  'tests use one or two small shapes; lanes, strides and tails depend on the shape and the dimension',
  ['src/Operation/OpNNLayerCpu.h', 'src/Operation/OpNNLayer.h'],
  [('softmax kernels', 'src/Operation/OpNNLayerCpu.h'), ('normalisation kernels', 'src/Operation/OpNNLayerCpu.h')],
  'loop summarisation of the extracted kernels into closed forms over (lane, position), compared with the definition by normal form',
  'decided over the reals for summarisable loop nests; unrecognised loop shapes are undecided, not reported.')
P('C10', 'Reductions compute their definition over exactly the reduced dimensions',
  'sum, mean, variance, minimum, maximum and their positions, over all elements, over one dimension or over any set of dimensions, compute each result element from exactly the input elements of its own group, each once: '
  'sums start at zero, means divide by the number of reduced elements, variances divide the squared deviations from their own group\'s mean by n or n-1 as asked, positions are those of the first extreme along the dimension. '
  'The reduced dimensions (negative ones count from the end) are dropped from the result shape, or kept with size 1. A scalar input is its own reduction. The mean returned next to a variance over dimensions has the shape of the variance.',
  ['inputs'], 'every shape, every set of reduced dimensions, keepDims or not, every value (finite)',
  'tests use a few 2-d and 3-d shapes; strides, dimension sets and keepDims combine',
  ['src/Operation/OpReduceCpu.h', 'src/Operation/OpReduceCpu.cpp', 'src/Operation/OpReduce.cpp'],
  [('reduction kernels', 'src/Operation/OpReduceCpu.h'), ('index arithmetic', 'src/Operation/OpReduceCpu.cpp'), ('result shapes', 'src/Operation/OpReduce.cpp')],
  'loop summarisation of the extracted kernels into closed forms over the result index, compared with the definition by normal form',
  'values are compared over the reals; infinities and empty tensors are out of scope.')
P('C11', 'Indexing, reordering and joining operators move exactly the right elements',
  'permute, transpose, index and advanced index (reading and writing), tril/triu, gather, scatter, expand, indexSelect, repeatInterleave, narrow, split, chunk, concat and stack give a result of the defined shape in which every element is '
  'the input element that the definition names: nothing is skipped, duplicated, left unwritten or taken from a neighbouring row, and the writing forms change exactly the named elements. '
  'Negative dimensions and negative positions (where accepted) count from the end, and an input that is itself a view is read at its own place in the storage. All element types behave alike.',
  ['inputs'], 'every shape, dimension, position list, split size and element type',
  'tests use one or two small Float32 shapes per operator; batch dimensions, negative positions, views of views and other element sizes are not combined',
  ['src/Operation/OpTransformCpu.h', 'src/Operation/OpTransform.cpp', 'src/Operation/OpTransform.h'],
  [('element-moving kernels', 'src/Operation/OpTransformCpu.h'), ('views, split and join', 'src/Operation/OpTransform.cpp')],
  'loops of the extracted kernels solved into closed-form element maps (stores, block copies, counters, prefix products); the maps are compared with the definition over a family of finite shapes',
  'the closed forms hold for every shape; their equality with the definition is decided on 40 generated shape/argument combinations per kernel, not by a general proof. Positions out of range and empty tensors are out of scope.')
P('C12', 'Matrix products, dot products and window unfolding compute their definition',
  'matmul (both transposition flags, 1-d operands, batch dimensions broadcast against each other) and dot give, in every result element, the sum of products of exactly the elements the definition names; im2col copies every window position of every channel and batch item, with zero outside the image, '
  'and col2im adds every window element back onto exactly its image position. The result shapes are those of the definition (a dimension added for a 1-d operand is dropped again).',
  ['inputs'], 'every shape, transposition, batch broadcast, kernel size, stride and padding for which the operation is defined',
  'tests use a handful of small shapes; transposition, broadcast, asymmetric strides and padding are not combined',
  ['src/Operation/OpLinalg.cpp', 'src/Operation/OpLinalgCpu.h', 'src/Operation/OpLinalg.h'],
  [('matmul and batch broadcast', 'src/Operation/OpLinalg.cpp'), ('gemm, dot, im2col, col2im', 'src/Operation/OpLinalgCpu.h')],
  'loops of the extracted kernels solved into closed-form sums of products per address; the forms are compared with the definition over a family of finite shapes',
  'values are compared over the reals; the closed forms hold for every shape, their equality with the definition is decided on 60 generated shape/argument combinations per kernel. A BLAS or CUDA gemm is not part of this build.')
P('C05', 'Operator results are tensors of their own, untracked, of the defined type',
  'every tensor returned by a registered operator implementation and by the forward step of an autograd function is a tensor object of its own: never one of the arguments (writing the result cannot change an argument) and never a copy that carries over requiresGrad or a gradient function of an input; '
  'only the autograd engine marks results, so that operators work on gradient-tracking tensors inside a NoGradGuard. The element type of a result is that of the first operand, Bool for comparisons and Int64 for positions.',
  ['inputs'], 'every operator and overload, every combination of gradient mode, requiresGrad, element type and shape special case (scalars, nothing to do)',
  'tests run most operators only on plain tensors; the special-case returns and evaluation mode are not combined with gradient tracking',
  ['src/Operation', 'src/Function', 'src/Tensor/Tensor.cpp'],
  [('operator results', 'src/Operation/OpTransformCpu.h'), ('autograd forwards', 'src/Function/FuncNNLayer.h'), ('the engine requires untracked results', 'src/Tensor/Function.h')],
  'abstract evaluation of the gradient bit, identity and element type of every returned tensor term, inductively over the operators',
  'CPU implementations. An operator result is trusted by its callers because every operator is itself an obligation.')

P('C13', 'Shape operations leave the documented shape, matching strides and element count',
  'reshape/view, flatten, squeeze of one dimension and unsqueeze leave exactly the documented shape (one inferred dimension, negative dimensions counted from the end, an invalid request leaves the tensor as it was), row-major strides of that shape and an unchanged element count; '
  'the operators and their in-place forms hand their arguments unchanged to the shape method, out of place on a copy of the handle that they return. A tensor that is given a storage addresses its elements at storage base + (offset + i) * element size, also after copy-on-write.',
  ['inputs'], 'every shape, every dimension argument (negative, out of range, inferred) and every storage offset',
  'tests reshape a handful of shapes with mostly non-negative arguments and zero offsets',
  ['src/Tensor/TensorImpl.cpp', 'src/Operation/OpTransform.cpp'],
  [('shape methods and data pointer', 'src/Tensor/TensorImpl.cpp'), ('operator wrappers', 'src/Operation/OpTransform.cpp')],
  'closed forms of the final object state (shape, strides, element count, data pointer) extracted by abstract interpretation and compared with the reference; argument forwarding rule for the wrappers',
  'equality of the closed forms is decided on 250 generated shape/argument combinations per method; unflatten and squeeze of a list of dimensions are followed only up to the argument forwarding.')

P('C14', 'Every entry point of the public API carries out the operation it names',
  'each operator, Tensor method and in-place form, each function:: entry point and factory runs exactly the operation its name denotes, on its own arguments, each in its own place (operand order of a - b, a / b and the comparisons, also with a scalar on the left; scale factors, dimension lists, flags such as unbiased, keepDims, largest, sorted), '
  'with the defaults and the options it was given: fill_, ones, zeros, full, uniform and the *Like factories fill the value and range their name says on the shape and options requested, in-place forms leave the result in the object itself and return it.',
  ['inputs'], 'every argument value, dtype, gradient mode and overload of the entry points',
  'there are some 230 thin entry points, many with several adjacent parameters of one type; tests call each with one argument combination in which swapped arguments often agree',
  ['src/Tensor/Tensor.h', 'src/Tensor/Tensor.cpp', 'src/Functions.h', 'src/Function'],
  [('tensor methods and operators', 'src/Tensor/Tensor.cpp'), ('functional entry points', 'src/Functions.h'), ('autograd forwards', 'src/Function/FuncElemWise.h')],
  'abstract evaluation of each entry point, through function:: and FuncX::forward, to a term over its parameters; the term is compared with the operation the name denotes',
  'linear, dropout, maxPool2d, conv2d, embedding and sdpAttention combine several operators: here only the forwarding of their arguments is decided. Operator definitions themselves are C03, C10-C13.')

P('C15', 'Layers compute their definition and back-propagate its derivative',
  'linear, conv2d, maxPool2d (padding counts as zero), dropout, embedding and sdpAttention give, for every admissible shape, stride, padding, kernel, mask, scale and dropout argument, with and without bias, exactly the values and the shape of their definition, leave their arguments unchanged, '
  'and backward gives every tracked tensor argument the derivative of that definition - whatever subset of the arguments is tracked - and nothing to the others. Dropout masks keep an element with probability 1 - p, scale by 1 / (1 - p) and are reused by backward.',
  ['inputs'], 'every shape, kernel, stride, padding, mask kind and subset of tracked arguments',
  'tests use one channel, symmetric strides and paddings, and all arguments tracked',
  ['src/Function/FuncNNLayer.h'],
  [('layer compositions', 'src/Function/FuncNNLayer.h')],
  'abstract interpretation of forward and backward to the ordered operator calls with their conditions; the call sequence is composed by operator definitions on a family of finite models and compared with the layer definition',
  'the extracted composition holds for every input, its equality with the definition is decided on 6 to 16 generated models per layer. embedding, sdpAttention, layerNorm, rmsNorm and rope have no backward in this code base. The kernels behind the operators are C10-C13.')

P('C16', 'Losses and fused model kernels compute their definition',
  'mseLoss and nllLoss (no reduction, mean, sum) give the values and the shape of their definition - the squared difference over the broadcast shape, minus the input at each row\'s target class - and backward gives the input the derivative of it, reduced to the input\'s own shape (a tracked target is rejected); '
  'siluMul multiplies the SiLU of the first half of every row by its second half; ropeInit tabulates cosine and sine of position times inverse frequency (with the Llama-3 scaling by wavelength when configured), and ropeApply rotates every pair of a head\'s elements by the angle of its position plus offset.',
  ['inputs'], 'every shape, reduction, broadcast of the operands, offset and head size',
  'tests use one small shape per loss, equal operand shapes and reduction mean; the fused kernels are tested on one shape with offset 0',
  ['src/Function/FuncLoss.h', 'src/Operation/OpLossCpu.h', 'src/Operation/OpNNLayerCpu.h', 'src/Operation/OpFusedCpu.h'],
  [('losses', 'src/Function/FuncLoss.h'), ('fused kernels', 'src/Operation/OpFusedCpu.h'), ('rope kernels', 'src/Operation/OpNNLayerCpu.h')],
  'loops of the kernels solved into closed-form contents, operator calls of the losses composed; both compared with the definition on a family of finite models',
  'the closed forms hold for every shape, their equality with the definition is decided on generated shapes. Targets and positions out of range are out of scope.')

P('C17', 'Fills and draws write exactly the requested elements, from one seeded stream',
  'fill, fillConstant with an offset, masked fills (in place, out of place, into a destination) and linSpace write exactly the named elements with the named value and leave all others; uniform, normal and bernoulli fills and the dropout mask draw once per element, in order, with the requested parameters, '
  'and every draw comes from the one shared generator, which advances with each draw and, once seeded, is reset only by manualSeed: equal seeds and calls give equal sequences, consecutive calls continue the sequence.',
  ['inputs', 'histories'], 'every shape, mask, value, distribution parameter, seed and sequence of calls',
  'tests fill small tensors and seed at most once; that consecutive calls differ and that no other component touches the generator needs histories of calls',
  ['src/Operation/OpFillingCpu.h', 'src/Operation/OpFilling.h', 'src/Utils/RandomGenerator.h', 'src/Operation/OpNNLayerCpu.h', 'src/Data'],
  [('fill kernels', 'src/Operation/OpFillingCpu.h'), ('generator', 'src/Utils/RandomGenerator.h')],
  'loops of the kernels solved into closed-form contents (with distribution draws as uninterpreted events of the engine they are taken from); by-reference and who-touches rules for the generator over the whole program',
  'the quality of the standard library\'s engine and distributions is trusted, not decided.')

P('C18', 'Modules compute their layer and the module tree reaches every parameter',
  'Each layer module (linear, convolution, pooling, normalisations, embedding, dropout, activations, softmax, rope) and loss module applies its function to the input with its constructor arguments and its own weights, lists exactly those weights as parameters and states, shapes them from its arguments and '
  'initialises them as documented; namedParameters, namedStates, parameters, states, resetParameters, train, eval, zeroGrad, to, registration, ModuleList and Sequential reach every registered submodule (at every depth), name entries by their path, and convert every state to what was asked for.',
  ['inputs', 'histories'], 'every constructor argument, tree of modules and order of registration',
  'tests build one small flat model with all optional parts present; nesting, non-square arguments, buffers and mode changes across late registration are not exercised',
  ['src/Module', 'src/Initializer.cpp'],
  [('module tree', 'src/Module/Module.h'), ('layer modules', 'src/Module'), ('initialisers', 'src/Initializer.cpp')],
  'abstract interpretation of constructors, forward, listings and walks; the resulting terms in the constructor arguments compared with the definition; whole-container, unconditional-visit rule for the walks',
  'a user-defined Module that overrides the walks is outside; initial value bounds are compared on generated shapes.')

P('C19', 'Samplers and loaders visit every index once, and the same way for the same seed',
  'A sequential sampler gives 0..n-1 in order, a random sampler a permutation that is a function of seed and epoch alone and changes with the epoch; the distributed sampler gives every replica equally many indices, which together cover the dataset (with dropLast: are disjoint), for any number of replicas; '
  'a loader visits the order it was given (or all indices, shuffled if asked), in batches of the requested size counted exactly, each batch the stack of the fields of its items; Compose applies its transforms in order, Normalize is (x - mean) / std, the MNIST reader pairs image and label and decodes big-endian sizes and unsigned pixels.',
  ['inputs', 'histories'], 'every dataset size, batch size, number of replicas, rank, epoch history and flag',
  'there are no tests of samplers; the loader is only used whole by examples, never at edge sizes or across epochs',
  ['src/Data', 'src/Distributed/DistributedSampler.cpp'],
  [('loader', 'src/Data/DataLoader.h'), ('samplers', 'src/Data/Sampler.h'), ('distributed sampler', 'src/Distributed/DistributedSampler.cpp'), ('MNIST', 'src/Data/DatasetMNIST.cpp')],
  'abstract interpretation to list effects (resize, iota, shuffle as an uninterpreted permutation of engine state, append, assign) under closed-form loops, composed on a family of sizes, replicas, epochs and flags and compared with the definition',
  'the list effects hold for every input, their comparison is decided on generated sizes including one beyond 2^24; quality of the shuffles is trusted. Reading of damaged MNIST files is outside.')

P('C20', 'Broadcast operators combine the aligned elements of their inputs, for any shapes',
  'For inputs of any ranks and sizes the broadcast shape aligns dimensions at the last one and takes, per dimension, the size that is not 1; shapes that disagree (neither equal nor 1) are refused before any element is touched; every output element is computed exactly once, from the element of each '
  'input at the same coordinates (coordinate 0 along dimensions that input broadcasts), whichever of the fast walks is chosen; out and in-place variants refuse an output whose shape is not the broadcast shape.',
  ['inputs'], 'every combination of ranks, sizes (including 0 and 1) and number of inputs',
  'tests combine a few two-operand shapes; wrong carries, alignments or choices of the fast walk need particular shapes to show',
  ['src/Tensor/TensorIterator.cpp', 'src/Tensor/TensorIterator.h', 'src/Operation'],
  [('walks', 'src/Tensor/TensorIterator.h'), ('alignment', 'src/Tensor/TensorIterator.cpp'), ('users', 'src/Operation/OpElemWiseCpu.h')],
  'inductive invariant of the coordinate walk (offset = sum of coordinate times increment) proved on the effects of its loops, decision tables for alignment and combination of dimensions, the choice of the walk decided for every combination of input kinds, guard domination at every user',
  'a walk written without per-dimension coordinates (for example by division of the linear index) is left undecided. CUDA iterators are outside.')

P('C21', 'Sorting, top-k, running sums and weighted draws are right line by line',
  'For every shape, dimension (negative ones wrap), element type and flag: topk returns, per line along the dimension, the k largest (or smallest) elements of the whole line with their coordinates, in order when asked; sort returns the whole line in the asked order with coordinates; cumsum stores at every element the sum of '
  'its line up to and including it; multinomial draws every result of a row from that row\'s own weights by inverting their cumulative sum with one uniform draw scaled by the current total, and without replacement removes a drawn index before the next draw. Results of a line go to that line, indices are Int64, and a dimension or k out of range is refused.',
  ['inputs'], 'every shape, dimension, k, flag and line length',
  'the tests try each operator on one or two small inputs; lines of inner dimensions, long lines and ties are not reached',
  ['src/Operation/OpSamplingCpu.h'],
  [('topk', 'src/Operation/OpSamplingCpu.h'), ('multinomial', 'src/Operation/OpSamplingCpu.h')],
  'typestate of the line buffer (filled, best k in front, sorted prefix) over the extracted algorithm calls with comparator truth tables; closed-form addresses of every read and write compared with the address of the line on a table of extents; recurrences unfolded symbolically',
  'the semantics of the standard algorithms is trusted, addresses are compared on generated extents (including ones around every constant in the kernel). Which of equal elements comes first and the statistics of the draws are outside.')

P('C22', 'A checkpoint loads back exactly; truncated or mismatching files are refused',
  'Serializer::save writes prefix, one header (name length, rank, dtype, data offset, data size) with name and dimensions per state of the module, then every state\'s bytes, in that order and at the offsets the headers state, and returns true only if the stream is good after the last write was flushed. '
  'Serializer::load reads exactly this layout; it never reads outside the file, however truncated or hostile; it copies into a state only the bytes of the record with its name and only after shape, dtype and size were found equal, all of them, and after detaching shared storage. It returns false for a foreign '
  'prefix, a record that is cut off or does not match its state, and, when strict, for unexpected and missing keys; otherwise true. The mapping is released exactly once on every path.',
  ['inputs', 'fault_sequences'], 'every module, every byte string as a file, failing writes, strict or not',
  'no test saves or loads anything; truncated files, odd sizes and shared storage are not what a round-trip test tries',
  ['src/Serializer.cpp', 'src/Utils/MMapUtils.cpp'],
  [('save', 'src/Serializer.cpp'), ('load', 'src/Serializer.cpp'), ('mapping', 'src/Utils/MMapUtils.cpp')],
  'effects of both functions extracted with their guards; the writer\'s stated sizes and offsets compared with the bytes it writes; the reader\'s reads, copies and verdict decided by decision tables over records that are whole, cut off, mismatching or overflowing; release typestate of the mapping',
  'the tables enumerate relations of sizes around the bounds, not all 64-bit values; alignment of the reads, byte order and the contents of module state names (C18) are outside.')
P('C23', 'Tensor memory comes from the allocator whole, unshared, and goes back once',
  'Every allocation yields at least the requested bytes, aligned, and disjoint from all memory in use; releasing or allocating other memory, and releasing caches when memory runs out, never touches memory in use. '
  'Freed blocks are coalesced and reused, none is lost or freed twice, and an allocation only fails after cached memory was handed back. '
  'A Storage returns its memory exactly once to the allocator it came from, also when it was moved or the cache was switched on or off; concurrent use is safe.',
  ['histories', 'inputs', 'schedules', 'fault_sequences'], 'every history of allocations and releases, every size, failures of the underlying allocator, several threads',
  'tests see allocation only through small tensors and never exhaust memory; which blocks are split, merged and released depends on the whole history',
  ['src/Tensor/CachedAllocator.cpp', 'src/Tensor/CachedAllocator.h', 'src/Tensor/Allocator.h', 'src/Tensor/Storage.cpp'],
  [('block lists, split and merge', 'src/Tensor/CachedAllocator.cpp mallocImpl, tryMergeBlocks'), ('release on failure', 'src/Tensor/CachedAllocator.cpp releaseCachedBlocks'), ('ownership of memory', 'src/Tensor/Storage.cpp')],
  'shape analysis: abstract interpretation of every entry point from every invariant-satisfying block-list shape, with linear size constraints (polyhedra); lock-held rule; typestate of owned memory',
  'shapes up to 5 blocks per segment (an operation touches at most the two neighbours of a block and their links); sizes symbolic and unbounded; unsigned overflow of sizes near 2^64 out of scope.')

P('C24', 'Data-parallel training averages every gradient once and keeps replicas in step',
  'Wrapping a module for data-parallel training first gives every parameter the value it has on the root rank. After every backward pass in which all parameters received a gradient, the gradient of every parameter is the sum of the gradients of this same '
  'parameter over all replicas, divided by the number of replicas, whatever the order in which gradients became ready and however the parameters were grouped into buckets; the next step starts afresh. '
  'A bucket holds more than one parameter only within the byte limit, sections of a bucket neither overlap nor leave its buffer, and a buffer is not touched while its collective operation is under way.',
  ['schedules', 'inputs', 'histories'], 'every parameter size, bucket limit and order of gradient readiness',
  'the distributed part needs several GPUs and is not even compiled by the default build; which bucket a parameter falls into and when it is reduced depends on sizes and order',
  [SA + 'Distributed/Reducer.cpp', SA + 'Distributed/Reducer.h', SA + 'Distributed/DistributedModule.cpp'],
  [('buckets and their sections', SA + 'Distributed/Reducer.cpp buildBuckets, createBucket'), ('reduction', SA + 'Distributed/Reducer.cpp onGradReady, checkAllBucketsReady'), ('first broadcast', SA + 'Distributed/DistributedModule.cpp')],
  'abstract interpretation of the reducer over symbolic parameter sizes and bucket limit (linear constraints) and all orders of readiness; tensor contents as terms, collectives as transfer functions that take effect when waited for',
  'up to 3 parameters (their grouping is a fold over the parameters that looks at one at a time); collective operations and autograd hooks are taken as specified (C07 decides when hooks run). Parameters that receive no gradient are outside.')

P('C25', 'Element counts, extents and offsets are carried in 64 bits',
  'Tensors of more than 2^31 (or 2^24, 2^32) elements or bytes are handled like small ones: a number computed from an element count, an extent, a stride or a byte count of a tensor is never converted to an integer type of less than 64 bits, '
  'never accumulated in one, never bounds a loop with a narrower counter and never passes through a 32-bit float on its way back to an integer. Ranks, axis numbers and list lengths are not counts.',
  ['inputs'], 'every tensor size', 'a test would need tensors of several gigabytes; a narrow counter behaves perfectly on everything smaller, and optimisers often hide the overflow',
  ['src/Operation', 'src/Tensor', 'src/Function'],
  [('counts of a tensor', SA + 'Tensor/TensorImpl.h numel, shape, stride'), ('loops over elements', SA + 'Operation/OpTransformCpu.h'), ('division of a dimension into pieces', SA + 'Operation/OpTransform.cpp')],
  'interprocedural origin (taint) analysis of integer values over the type-checked syntax tree, with a width rule at every conversion, accumulation and loop comparison',
  'flow- and context-insensitive; overflow of 64-bit products is outside. Counts that a caller passes as plain numbers carry an origin only where the code relates them to a tensor. Conversions to the element type of a kernel are values, not counts.')

P('C26', 'Results depend on arguments only: no hidden state between calls or threads',
  'What an operator, function, layer or loader computes does not depend on which calls were made before or run at the same time, apart from the documented services (random generator, default options set by the caller, operator registry, allocator, logger, '
  'process group): no variable with static storage is changed by a computation without synchronisation, no static local keeps a value taken from the arguments of the call that came first, and the default device and element type are changed by their setters only, '
  'which the library itself does not call.',
  ['histories', 'schedules'], 'every sequence and every interleaving of calls', 'a test makes a few calls in one order on one thread; a value kept from the first call or a shared scratch buffer is right for all of them',
  ['src/Operation', 'src/Function', 'src/Tensor', 'src/Module', 'src/Data'],
  [('default options', SA + 'Tensor/Options.h'), ('scratch of the index helpers', SA + 'Operation/OpTransform.cpp'), ('distribution and tables of the layer kernels', SA + 'Operation/OpNNLayerCpu.h')],
  'effect analysis of all variables with static storage duration over the type-checked syntax tree: writers (through references, pointers, accessor functions, member calls), locks held, and dependence of one-time initialisers on the first call',
  'a cache guarded by a lock or an atomic counter is accepted without asking whether it is keyed by everything it depends on; thread-local scratch is accepted; state held in objects (layers, optimizers) is outside, as is sharing one tensor between threads.')

P('N01', 'Floating-point results stay within a few units of the exact value',
  'For every operator, loss, layer and optimizer the floating-point result differs from the exact real result by a small multiple of the rounding error of its element type; overflow and cancellation are avoided where the definition allows.',
  ['inputs'], 'every operand value', 'the rounding behaviour of sums and exponentials depends on the operand values; tests sample a few with tolerances',
  ['src/Operation/OpReduceCpu.h', 'src/Operation/OpNNLayerCpu.h'], [('accumulation order', 'src/Operation/OpReduceCpu.h')],
  na='bounds on rounding quantify over the runtime values of whole tensors; no sound static error analysis for these loop nests with unbounded extents is in reach. C03, C09-C12 decide the formulas over the reals.')
P('N02', 'Conversions between Float32, Half and BFloat16 round to nearest even',
  'Conversion of every Float32 bit pattern to Half and BFloat16 rounds to nearest, ties to even, keeps signs, infinities and NaN, and conversion back is exact.',
  ['inputs'], 'all 2^32 bit patterns', 'tests convert a handful of values; subnormals, ties and NaN payloads are separate code paths',
  ['src/Utils/Half.h', 'src/Utils/BFloat16.h'], [('bit conversion', 'src/Utils/Half.h')],
  na='the bit-level rounding of every pattern is a question for exhaustive execution or a bit-vector solver, both outside this family; a dataflow argument over the shifts and masks would only restate the code.')
P('N03', 'Random fills and samplers have the requested distribution',
  'Values drawn by rand, randn, bernoulli, multinomial and the initialisers are distributed as documented, and independent of one another.',
  ['inputs', 'histories'], 'every seed and shape', 'a statistical statement about unboundedly many draws',
  ['src/Operation/OpFillingCpu.h', 'src/Utils/RandomGenerator.h'], [('draws', 'src/Operation/OpFillingCpu.h')],
  na='a statistical property of runtime values. C17 and C21 decide that every draw is taken from the right engine with the right distribution parameters, once per element.')
P('N04', 'CUDA kernels compute what the CPU kernels compute',
  'For every operator with a CUDA implementation, the CUDA kernel gives the result of the CPU kernel on every input, without data races between threads of a block.',
  ['inputs', 'schedules'], 'every operator, shape and launch configuration', 'no GPU is available to the tests here',
  ['src/Operation'], [('CUDA kernels', 'src/Operation/*Cuda.cu')],
  na='the CUDA headers are not installed, so the kernels cannot be parsed type-correctly; an analysis of guessed declarations would not decide the real code.')
P('N05', 'Collective operations of the NCCL backend deliver what they promise',
  'allReduce, broadcast, send and the other collectives of the NCCL backend deliver the reduction or the root value on every rank, ordered with the work on the caller\'s stream, and time out or abort instead of hanging when a rank is lost.',
  ['schedules', 'fault_sequences'], 'every number of ranks, every interleaving of streams, loss of a rank', 'needs several processes and NCCL',
  ['src/Distributed/BackendNCCL.cpp', 'src/Distributed/WorkNCCL.cpp'], [('collectives', 'src/Distributed/BackendNCCL.cpp')],
  na='the NCCL and CUDA headers are not installed, so the backend cannot be parsed; the behaviour depends on streams and communicators outside the source. C24 decides the gradient reduction built on top.')
P('N06', 'FileStore operations of several processes are linearizable',
  'set, get, add, check, wait and deleteKey of FileStore, called by any number of processes on one file, take effect one at a time.',
  ['schedules', 'crash_points'], 'every interleaving of processes, every crash point', 'tests do not start several processes',
  ['src/Distributed/FileStore.cpp'], [('file locks', 'src/Distributed/FileStore.cpp')],
  na='depends on the semantics of POSIX record locks, buffered streams and crashes of other processes, which the source does not show; see "Other observations" in DESIGN.md for the defects found by reading.')
