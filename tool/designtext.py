HEAD = r'''# Static analysis of keith2018/TinyTorch

(Generated by `tool/design.py` from `tool/designtext.py`, `tool/proplist.py`, `seeded/*/meta.json` and `known_findings.json`.)

## What runs

`python3 run.py <property> [thorough]` decides one property from the source in /repo and exits 0 (held on everything analysed), 1 (VIOLATION) or 2
(analysis broken: /repo does not parse, a rule lost its anchors, or the analyser crashed; never a pass). Nothing of TinyTorch is executed, compiled into
a runnable or handed to a solver: the pipeline is

1. `tool/ttx.cpp` (Clang LibTooling, built by the setup command into `build/`) parses every CPU and Distributed translation unit of /repo/src with the flags of the real
   build and exports the *type-checked, template-instantiated* AST as JSON: functions with their bodies, resolved callees, implicit conversions,
   classes, enums, globals. `sa/extract.py` caches the export by the contents of the sources, so that it is redone whenever /repo changes. `stubs/headers.cpp`
   includes the headers that no translation unit instantiates otherwise and instantiates the templates users instantiate (DataLoader, Half/BFloat16 paths).
   CUDA and NCCL sources need headers that this sandbox does not have and are not part of the build; they are not parsed.
2. `sa/interp.py` is a forward abstract interpreter over that AST. A location maps to a provenance term (`sa/term.py`); branches join to gated phi terms; a loop is
   analysed once with what it assigns havocked; conditions of the path are kept with every effect. Calls into the repository are analysed in the context of the caller, so
   helper extraction, renaming, reordering of independent statements and changes of loop syntax leave the result the same. Calls that leave the repository, stores, allocations, traps,
   divisions, conversions and locks become logged *effects* with arguments, guard, enclosing loops and held locks.
3. `sa/kern.py` solves the recurrences of loop nests into closed forms (induction, sums, products, maxima, mixed-radix digits), so a kernel becomes
   "buffer[address] = value, for these counters, under this condition" for all shapes at once. `sa/alg.py` decides equality of such forms by a normal form (rational functions over atoms with
   symbolic exponents and the laws of exp; case analysis over orderings for comparisons).
4. `sa/heap.py` is a second abstract interpreter for pointer-linked structures: objects with identity, linear forms over symbolic sizes with
   Fourier–Motzkin feasibility, containers with symbolic keys, every path enumerated. Its operations, too, are analysed from abstract states, not from test histories.
5. One module per group of properties (`sa/c_*.py`) states the obligations and reports each violated one with the function, the construct and the path.

### Finite models, and why this is still static

Where the normal form cannot decide that an extracted closed form equals its definition, both are tabulated on generated small models (shapes, flags, sizes) and a violation is reported only with
a model on which they differ (`kev.py`, `kcontent.py`, `topeval.py`). What is tabulated is the closed form or the composition of operator calls that was *extracted from the AST*; the program is never run, and no path is given to a solver.
The direction "they agree on all models, hence they are equal" is an argument from degree (the models separate the polynomials that occur), not a proof; it is stated in each level note.

### Verdict policy

A construct that the analyser does not recognise leaves its obligation *undecided* (counted in the evidence, never a violation). A violation needs a positive argument: a
model on which the formulas differ, a path without the required effect, an effect that is forbidden. Each check has instance floors of about 60 % of what was counted by hand; falling below
one is exit 2. Violation keys name the construct (operator/form/role), not line numbers or local names.

No hooks or instrumentation are added to /repo; MANIFEST `hooks` is empty. `thorough` enlarges the finite model families; the extraction itself is exhaustive in both tiers.

### Cost

One parse of the tree takes about 60–90 s on 8 cores the first time (setup or the first check after a change); a check takes 1–25 s after that.

### How the checks were tested

* planted bugs: `seeded/` (each with patch, demonstration and what it needs), listed below under the check that reports it. `tool/plant.py test ID` confirms in a scratch copy that a bug builds, passes the stable tests,
  fails its demonstration and is reported;
* behaviour-preserving edits: `refac/*.diff` (29 refactorings: extracted helpers, rewritten loops, reordered statements, renamed locals, changed container access) on which all checks stay quiet (`tool/plant.py refac ALL`);
* every genuine defect below was first a report on the unchanged tree, was demonstrated on the real code, and is reported again when its fix is reverted.
'''
DETAIL = {
'C01': '''The static initialisers (`register*Cpu`) are interpreted; each registration gives (operator, device, dtype) → function instance. Rules: the instance is the implementation of that operator (by its own semantic
identity: which functor/kernel it runs) instantiated for the C++ type of the dtype; the matrix of supported combinations, confirmed by hand, is complete; the dispatcher takes device and dtype from the first tensor/options argument and forwards every argument in order.''',
'C02': '''Rule 1: the accessor (`dataPtr<T>`) traps unless the dtype equals the tag of T, on every path that returns a pointer. Rule 2: dtype inference over every registered kernel: results it allocates,
operands it asserts, and its typed accesses agree. The `compare…Out` operators are dispatched on the dtype of their result but write Bool: unusable for every input, recorded as known findings because a repair changes the dispatch interface.''',
'C03': '''Every instance's scalar expression is extracted through the functor, the loops and the broadcast walk down to a term over element(a), element(b), scalars; compared by normal form to the definition table. SIMD bodies and scalar tails are separate stores and are checked each. Coverage: the stores cover [0, numel).''',
'C04': '''Every store into a buffer that the storing code did not allocate itself must be dominated by `copyOnWrite` of that tensor with the pointer acquired afterwards; along all resolved call paths from registered kernels and public entry points. The primitive itself is an obligation (it clones exactly when shared, with all bytes).''',
'C05': '''Inductive over operators: every operator's returned term must be a tensor constructed in the operator (or returned by another operator), with requiresGrad cleared, dtype equal to the defined one. Operators may then be trusted by their callers.''',
'C06': '''For each Function: the forward term is differentiated symbolically and compared with what `backward` delivers per input (index by index, with the needsInput guards); save/restore protocol of the context (values pushed in the order they are popped, from the right operands); reduction of broadcast gradients.
The alpha gradient of `add` is a known finding: the stable test `func_add` encodes the wrong value, so it cannot be repaired without editing tests.''',
'C07': '''`Function::apply` instances by exhaustive case analysis of their guards (grad mode × requiresGrad of inputs): recorded iff required; edges to the right inputs. Engine: dependency counts, ready queue, one release per edge, accumulation out of place, hooks applied in order, guards restored on all exits.''',
'C08': '''One step over one parameter is extracted under every combination of modes (momentum, nesterov, maximize, weight decay, amsgrad, centered, first step or later) and compared with the published rule; rules for state ownership, parameters without gradient, step counters, `zeroGrad`, schedulers as recurrences in the epoch.''',
'C09': '''softmax, logSoftmax and their backward, layerNorm, rmsNorm: the lane loops are solved; result, for every lane and position, equals the definition.''',
'C10': '''Closed form of result[index] as a sum/max over exactly the reduced digits; positions for min/max including ties; divisor and correction of mean and variance; keepDims shapes.''',
'C11': '''Element maps of index, indexSelect, indexPut, gather, scatter, permute, transpose, split, concat, stack, hstack/vstack, expand, triu/tril, where… tabulated per generated shape.''',
'C12': '''gemm with and without transposed operands, batched matmul with broadcast batches, dot, im2col/col2im, both as sums of products per result address.''',
'C13': '''Final object state of view/reshape/flatten/squeeze/unsqueeze/… as closed forms.''',
'C14': '''Every public name is evaluated through function:: and Func…::forward to a term over its own parameters.''',
'C15': '''linear, conv2d, maxPool2d, dropout, pooling, batch forms: composition of operator calls replayed by operator definition; backward the same way against derivative definitions.''',
'C16': '''mse, nll, cross entropy… with every reduction mode; silu-mul, rope: fused kernels as element maps.''',
'C17': '''Coverage and value of fills; one draw per element from the shared generator by reference; nobody else seeds it or copies it.''',
'C18': '''Constructor terms, forward in terms of constructor arguments, parameter/state listings and their names, initialisers' bounds, walks over the tree.''',
'C19': '''Samplers, batch samplers, distributed sampler, loaders, datasets and transforms as list effects.''',
'C20': '''The iterator's coordinate walk is decided by an inductive invariant; alignment and dimension combination by decision tables; the choice between contiguous, same-shape and strided walks for every combination of inputs; every user calls it under the guard it needs.''',
'C21': '''Typestate of the line buffer over partial_sort/nth_element/sort calls, comparators by truth table, closed-form addresses.''',
'C22': '''Writer: order and sizes of the writes as polynomials against the offsets stated in the header. Reader: decision tables over records that are whole, cut off at any field, mismatching in each attribute, with overflowing sizes.''',
'C23': '''The representation invariant (segments are disjoint; blocks of a segment are adjacent in address and linked in order; free blocks are in exactly one free list; no two free neighbours; used blocks are in the map) is assumed for every shape of up to 5 blocks, each entry point is interpreted on all paths with symbolic sizes, and the invariant, the caller's guarantees and lock ownership are checked at every exit, including failing underlying allocations.''',
'C24': '''`Reducer` and `DistributedModule` are interpreted with `heap.py`: parameters of symbolic extent, a symbolic byte limit (so both outcomes of every grouping decision are explored), flat buffers as lists of sections with symbolic offsets and term contents. allReduce and broadcast change the contents only when their work is waited for; reading, writing or scaling the buffer before is a violation. Hooks fire in every order for two steps (the second in a different order), afterwards the gradient term of parameter i must be div(sum(g_i)). Overlapping or overhanging sections, failing assertions, missing or doubled hooks and buckets above the limit are violations.''',
'C25': '''`c_width.py` gives every variable, field, parameter and return value of the CPU code the set of its origins by a fixpoint over all functions (assignments, initialisers, calls and returns, list elements, counters bounded by a count). Counts enter at numel, nbytes, shape, size and stride; modulo, comparison and min with a number that is no count end them. Every integer conversion, compound assignment and loop comparison with a narrower type is an obligation. On the original code it reported six kernels whose `auto i = 0` counters are ints; repaired in 2dc7e59 (reproduced with UBSan and, unoptimised, as a crash).''',
'C26': '''`c_state.py` lists every variable with static storage (namespace scope, static members, static locals; one per template instance) and every construct that can change it: assignments, increments, non-const member calls, arguments bound to non-const references or pointers, also through local references and functions that return a reference to it. Outside the services each change must happen under a lock; a static local's initialiser may mention constants and other statics only. The scratch buffer that the original permute kept in a static variable (repaired in fd8f2a8) is of this kind. 13 mutants and variants: 9 of 9 reported, 4 of 4 quiet.''',
}
TAIL = r'''
## Other observations

Found while reading or analysing, outside the claimed properties or not repaired because the intended behaviour is not documented:

* `indexAdvance`, `indexPutAdvance`, `indexSelect`, `nllLoss` targets and `embedding` do not check positions; out-of-range positions read outside (the statements of C11, C15 and C16 exclude them).
* `Module::zeroGrad` traps on a parameter without gradient metadata (a frozen parameter).
* `sign(0)` is -1; `max_pool2d` of a rank-3 input yields rank 4; scheduler base constructor calls a virtual function.
* A second `backward` over one graph traps for functions that saved values with `pushData` (the values are popped).
* TCPStore: `add` on a value that is no number throws (std::stoll) and ends the server, lengths received from a peer are not bounded, a `get` that times out closes the connection without a reply, EINTR counts as an error. Its lock, framing and shutdown defects were repaired (commits 3192b3f, 75cbf5f, 1aed20c, 096cecc).
* DistributedDataParallel: a parameter that receives no gradient in a step leaves its bucket incomplete and no gradient of that step is averaged; ranks whose gradients become ready in different orders would start collectives in different orders.
* FileStore: closing any descriptor of the file drops the fcntl lock of the process; a reader can see a file that was created but not locked yet; `deleteKey` of a missing key returns true.
'''
