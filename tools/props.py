#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one source of the property list)."""
import json, os
P = []
def p(id, title, st, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=observe, hook_needed=hook)))

p("C01", "Pooled memory: live blocks never overlap, and freed blocks are reused",
  "A block obtained from a recycling memory pool is at least as large as requested, overlaps no other block still in use and keeps its content until it is released. A released block is handed out again instead of asking for new memory whenever it fits, releasing an address the pool did not hand out is reported as an error, and the pool's own account of the memory it holds equals what it really obtained from the allocator. Releasing the pool itself never invalidates blocks that are still in use, and every byte obtained is returned exactly once.",
  ["histories", "inputs"], "Every history of allocations, releases, growths and pool destructions, for every sequence of sizes.",
  "The tests allocate a few fixed sizes in one order and look at nothing but the absence of a crash; overlap or leak needs a particular interleaving of sizes and releases.",
  ["src/memory/orz/vat.cpp", "src/memory/orz/vat.h", "src/memory/orz/pot.cpp", "src/memory/flow.cpp", "src/core/controller.cpp", "src/core/hard_memory.cpp", "src/core/memory.cpp"],
  [("best-fit free list", "src/memory/orz/vat.cpp"), ("controllers on top of it", "src/memory/flow.cpp, src/core/controller.cpp"), ("growing blocks", "src/core/hard_memory.cpp")],
  ["addresses and sizes returned by the pool", "calls that reach the registered allocator", "summary"],
  [("free blocks", "blocks the pool may hand out again", "src/memory/orz/vat.h"), ("live blocks", "blocks a client holds", "src/memory/orz/vat.h")])

p("C02", "Every device sees the last written value of a shared tensor memory",
  "When one memory is used from several devices, asking for it on a device that has no copy of it gives a copy of what the asking handle sees, made exactly once however many threads ask, and a device that has a copy keeps its own. Once the writer has marked its device's copy as authoritative (broadcast), the copies of all other devices are gone, so that asking for it on any device gives the content last written and never an older one, and handles obtained earlier keep referring to the same device's storage as long as that copy stays valid. Copying memory, whole or in part, transfers exactly the requested bytes between the requested devices and nothing else.",
  ["histories", "inputs"], "Every history of views, writes, broadcasts, clones and copies over several devices.",
  "One CPU device is all the tests use, so no copy is ever stale there; stale reads need a write on one device after a copy on another.",
  ["include/core/sync/sync_block.h", "include/core/sync/sync_memory.h", "include/core/sync/sync_controller.h", "src/core/memory.cpp", "src/global/hard_converter.cpp", "src/global/hard_allocator.cpp"],
  [("per-device values of one block", "include/core/sync/sync_block.h"), ("converter lookup by device type", "src/global/hard_converter.cpp")],
  ["bytes read through a view on each device", "converter calls"],
  [("values", "device -> copy", "include/core/sync/sync_block.h"), ("key", "the authoritative device", "include/core/sync/sync_block.h")])

p("C03", "Tensor handles: copies share, clones are independent, views follow",
  "Copying a tensor handle, reshaping it or taking a leading slice of it shares the underlying data, so a write through one is seen through all others at the corresponding element, while cloning gives data that later writes never touch. Packing tensors and taking fields gives back the same tensors in the same order, with shape, type and element access of the first field for the whole, and element count and byte size always agree with shape and type. Weak handles and slices never keep data alive: storage is given back as soon as the last strong handle on it goes. While one exists, weak handles and slices see the same data, and a weak handle can be turned back into a strong one, which from then on keeps the data alive. Threads may copy and drop handles on the same data at the same time. Shapes, positions and fields that do not fit are reported as errors.",
  ["histories", "inputs"], "Every history of construct, copy, clone, reshape, slice, pack, field access, view, weak and strong operations over a set of handles.",
  "The tests build a tensor or two and print them; aliasing mistakes need a write through one handle followed by a read through another, after a particular derivation chain.",
  ["src/core/tensor.cpp", "include/core/tensor.h", "src/core/memory.cpp", "include/core/threadsafe/smart.h", "src/core/tensor_builder.cpp", "include/core/tensor_iterator.h"],
  [("shared reference with weak counterpart", "include/core/threadsafe/smart.h"), ("fields of a packed tensor", "src/core/tensor.cpp")],
  ["element values through every live handle", "sizes, shapes, types", "expired and strong"],
  [("memory", "shared storage", "include/core/tensor.h"), ("fields", "further tensors of a pack", "include/core/tensor.h")])

p("C04", "The thread pool runs every task exactly once and joins before reporting",
  "Every task given to a thread pool runs exactly once, with the pool's size as the limit on how many run at the same time; waiting on the pool returns only after all tasks given before have finished, and their completion callbacks have run. Splitting a range for parallel work covers each index exactly once, in order, with no empty part and at most the requested number of parts, and a parallel loop has executed every index before it returns. Destroying a pool lets tasks already given finish and never blocks forever.",
  ["schedules", "inputs"], "Every interleaving of workers, submitters, waiters and destruction, and every range and part count.",
  "The tests run one happy interleaving; lost wake-ups and dropped tasks need the destruction or the submission to fall into a window of a few instructions.",
  ["src/runtime/inside/thread_pool.cpp", "include/runtime/inside/thread_pool.h", "include/runtime/inside/parallel.h", "include/utils/box.h", "src/utils/box.cpp", "src/runtime/runtime.cpp"],
  [("worker hand-over", "src/runtime/inside/thread_pool.cpp"), ("range splitting", "src/utils/box.cpp")],
  ["start and end of each task", "return of join, of the parallel loop and of the destructor"],
  [("task of a worker", "the task the worker owns or will take", "include/runtime/inside/thread_pool.h")])

p("C05", "Value stack: frame-relative addressing and disciplined frames",
  "On the value stack, non-negative positions count from the bottom of the current frame and negative ones from the top, and operations at positions of the frame never touch the values below it. Pushing, cloning, erasing ranges, swapping, popping and clearing behave as on a plain sequence, a position outside the frame is reported as an error without changing anything where a value is read or pushed, and entering and leaving nested frames restores exactly the frame that was current before. Values made on the stack live on the stack's device and clones of values never alias the original.",
  ["histories", "inputs"], "Every sequence of stack operations and frame changes, with every valid and invalid position.",
  "A single scripted sequence is tested; off-by-base mistakes show only when positions are used inside a nested frame.",
  ["src/runtime/stack.cpp", "include/runtime/stack.h"],
  [("frame base", "src/runtime/stack.cpp")], ["stack content after each operation", "errors"],
  [("values", "the sequence", "include/runtime/stack.h"), ("base", "bottom of the current frame", "include/runtime/stack.h")])

p("C06", "Running a compiled network equals evaluating its graph",
  "For any well-formed network, the outputs obtained by compiling and running it equal, in number, order and value, those obtained by evaluating each graph node from its inputs by definition. This holds for any sharing of intermediate results, any order or repetition of inputs and outputs, unused inputs, constants used directly as outputs, and operators producing several results through pack and field nodes. Each operator node needed is executed exactly once per run (those depending on constants only may be computed once beforehand), nodes that no output needs are not executed, and the value stack afterwards holds exactly the outputs.",
  ["programs", "inputs"], "Every finite acyclic graph over parameters, constants, single- and multi-result operators, every choice and order of inputs and outputs.",
  "The compile test runs one chain of two nodes; stack-slot mistakes show up only for particular sharing patterns and last-use orders.",
  ["src/compiler/compiler.cpp", "src/runtime/program.cpp", "src/runtime/instruction.cpp", "src/runtime/instruction/stack_instruction.cpp", "src/runtime/instruction/tensor_instruction.cpp", "src/runtime/instruction/instruction_factory.cpp", "src/runtime/workbench.cpp", "src/module/graph.cpp"],
  [("backward code generation with stack renaming", "src/compiler/compiler.cpp"), ("stack instructions", "src/runtime/instruction")],
  ["instruction list", "outputs of runs", "operator executions"],
  [("working nodes", "which node each stack slot holds", "src/compiler/compiler.cpp")])

p("C07", "A session's runs are isolated from each other and from errors",
  "Each run's outputs depend only on the inputs currently bound, the filters bound to them and the network: not on earlier runs, their input shapes, failed runs or nested calls. A failing bind, run or lookup raises an error and leaves the session usable and its bound inputs unchanged, and results read or bound by name are the same as by position; outputs fetched earlier keep their values after later runs. Inputs are bound by value of the handle at the time of binding and are converted to the element type the network declares.",
  ["histories", "inputs"], "Every history of binding inputs, binding filters, runs, failing runs, output reads, set-ups of programs, and nested evaluations.",
  "One bind, one run and a print is all the tests do; leaks between runs need a failing or differently shaped run in between.",
  ["src/runtime/workbench.cpp", "include/runtime/workbench.h", "src/runtime/program.cpp", "src/runtime/image_filter.cpp", "src/core/device_context.cpp", "src/memory/flow.cpp", "include/memory/flow.h"],
  [("guards restoring stack, frame and environment", "src/runtime/workbench.cpp"), ("run-local memory", "src/memory/flow.cpp")],
  ["outputs after every run", "errors", "names and counts"],
  [("inputs and outputs", "bound slots", "include/runtime/workbench.h"), ("stack", "value stack between runs", "include/runtime/workbench.h")])

p("C08", "Cloned sessions work independently, also in parallel threads",
  "A cloned session computes the same function as the original, with its own inputs, outputs, filters and memory: nothing bound, run or changed in one is visible in the other, and both may run at the same time in different threads with the results they would have had alone. Cloning a program, a filter or a session keeps input and output names and never depends on the original staying alive. Operator parameters changed in a session affect that session's program only as documented and take effect on the next run.",
  ["histories", "schedules"], "Every history of clones, destructions, binds and runs over several sessions, and every interleaving of threads each using its own session.",
  "No test clones a bench and uses both; interference needs particular interleavings or lifetime orders.",
  ["src/runtime/workbench.cpp", "src/runtime/program.cpp", "src/runtime/image_filter.cpp", "src/runtime/operator.cpp", "src/runtime/runtime.cpp", "src/core/controller.cpp"],
  [("program clone", "src/runtime/program.cpp"), ("per-session operators and context", "src/runtime/workbench.cpp, src/runtime/runtime.cpp")],
  ["outputs of each session", "names"], [("desktop", "the session's program", "include/runtime/workbench.h")])

p("C09", "Modules: inputs and outputs are resolved exactly, in order, or rejected",
  "Loading a network from graphs and output names gives exactly the requested outputs in the requested order and exactly the parameters they need as inputs, in the order asked for when one is given. Duplicate or missing names, unreachable or ambiguous requested inputs or outputs, and nodes that cannot be computed are reported as errors rather than ignored, and a rejected request leaves the network as it was. Linking nodes in a graph keeps the input and output relations mutually consistent, and merging modules keeps every node of both.",
  ["programs", "inputs", "histories"], "Every acyclic graph, every list of requested inputs and outputs, and every order of link and load operations.",
  "The tests load one hand-written graph with valid names only.",
  ["src/module/module.cpp", "src/module/graph.cpp", "include/module/node.h", "src/module/menu.cpp", "src/module/bubble.cpp", "src/frontend/frontend.cpp", "src/frontend/symbol.cpp", "src/frontend/desc.cpp"],
  [("graph walk from outputs", "src/module/module.cpp"), ("edge bookkeeping", "src/module/graph.cpp")],
  ["inputs, outputs of a module", "errors", "inputs and outputs of each node"],
  [("inputs/outputs", "resolved node lists", "include/module/module.h")])

p("C10", "Saved tensors, graphs and modules load back the same",
  "Writing a tensor, a packed tensor, a node, a graph or a module and reading it back gives an equal object: same types, shapes, values, names, parameters, edges with their order, and input and output order; reading consumes exactly the bytes written, so several objects can follow one another in one stream. A file or stream that is truncated, or whose header is not a module's, is never silently accepted as a complete object. Loading a saved network and running it gives the results of the original.",
  ["inputs", "programs", "crash_points"], "Every tensor, node and graph, every sequence of objects in a stream, and every prefix of a saved module.",
  "One small graph and one tensor are round-tripped by the tests, and no truncated file is ever read.",
  ["src/module/graph.cpp", "src/module/bubble.cpp", "src/module/module.cpp", "src/module/header.cpp", "src/core/tensor.cpp", "src/module/io/fstream.cpp", "src/module/io/sstream.cpp", "include/module/serialization.h", "src/module/loaders/open.cpp"],
  [("length-prefixed encoding", "include/module/serialization.h"), ("node and edge lists", "src/module/graph.cpp")],
  ["objects read back", "bytes consumed", "errors"])

p("C11", "Encrypted files decrypt to exactly what was written",
  "What is read from an encrypted file with the right key is exactly the sequence of bytes written, independent of how the writes and the reads are cut into pieces, up to the padding of the last block. Encrypting and decrypting one block are inverse to each other for every key and block and agree with the published standard. A module saved encrypted loads back as the same module with the key, and is not accepted as a module without it.",
  ["inputs", "histories"], "Every key, content length and cutting of reads and writes into pieces.",
  "No existing test covers encryption at all beyond a demonstration program; buffer-boundary mistakes need particular piece lengths.",
  ["src/encryption/aes.cpp", "src/encryption/aes_fstream.cpp", "src/encryption/encrypted_fstream.cpp", "include/encryption/encrypted_fstream.h"],
  [("block buffering", "src/encryption/aes_fstream.cpp"), ("key schedule and rounds", "src/encryption/aes.cpp")],
  ["bytes in the file", "bytes read back"])

p("C12", "Compile-time rewrites keep results and leave the source network alone",
  "Optimising, translating or converting a network at load time (weight packing, transpose folding, padding fusion, half precision, Winograd form, dropping of unneeded nodes) keeps its inputs, outputs, their order, and the values computed. The rewritten network is a separate one: the source network, its constants included, is unchanged, so the same network can be loaded again, with any options, with the same result. Options given as text are words between blanks: of those for one switch the last counts, and words that are no option change nothing.",
  ["programs", "configurations", "histories"], "Every network, every option set, and every history of repeated loading of one network, also when nodes share constants.",
  "The tests rewrite one network once and do not look at the source network afterwards.",
  ["src/compiler/translater.cpp", "src/compiler/zipper.cpp", "src/compiler/compiler.cpp", "src/compiler/argparse.cpp", "src/compiler/option", "src/runtime/program.cpp", "src/runtime/workbench.cpp"],
  [("node-by-node translation", "src/compiler/translater.cpp"), ("options", "src/compiler/option")],
  ["outputs with and without each option", "source graph before and after"])

p("C13", "Splitting a network into parts and wiring them back is the identity",
  "Cutting a network into a main network and sub-networks by a rule on its nodes yields parts which, wired back together, compute the same outputs in the same order as the original, which itself is left as it was. Every operator of the original that an output needs appears in exactly one part, nodes the rule forbids never appear inside a sub-network, every sub-network has a supported node and obeys the requested limits on its inputs, outputs and size, and the main network stays acyclic. With no limit requested, every supported operator that depends on an input is cut out.",
  ["programs", "configurations"], "Every acyclic network, every marking of its nodes, every combination of limits.",
  "The tests cut one fixed network and print it; wrong cuts need cross edges between marked and unmarked regions.",
  ["src/compiler/fence/splitter.cpp", "include/compiler/fence/splitter.h"],
  [("region growing and ref checks", "src/compiler/fence/splitter.cpp")],
  ["main module, sub-modules and their graphs"])

p("C14", "Announced shapes and types are the ones execution produces",
  "For every operator, the shape and type it announces before execution are those of the result it then produces, and executing again with other input shapes announces and produces the new ones. The static shape inference over a network never contradicts execution: each dimension it states is the one produced, and only what it marks unknown may be anything. Incompatible shapes, and element types an operator neither accepts nor promotes, are reported as errors instead of producing a result.",
  ["inputs", "programs"], "Every operator with every admissible parameter setting, input shape and type.",
  "A handful of operators are run with one shape; the static inference has no test of its own.",
  ["src/runtime/inferer.cpp", "src/runtime/inferer/factory.cpp", "src/global/shape_inferer_factory.cpp", "src/backend/base", "src/backend/zoo", "src/runtime/operator.cpp"],
  [("infer of each operator", "src/backend"), ("static inferers", "src/runtime/inferer/factory.cpp")],
  ["announced prototypes", "result prototypes"])

p("C15", "Data-movement operators place every element by definition",
  "Operators that only move data (reshape, flatten, squeeze, unsqueeze, transpose, dimension shuffle, concatenation, stacking, splitting, chunking, slicing in all variants, gathering, scattering, tiling, broadcasting, padding, cropping, space/batch exchange, cast, copy) put at each output position exactly the input element, or fill value, their documentation defines, for every rank, axis and parameter including negative axes and indices. They leave their inputs unchanged and behave the same when run again on other inputs. Parameters outside the documented range are reported as errors rather than read out of bounds.",
  ["inputs"], "Every rank up to the supported one, every axis, index, stride, padding and permutation, every element type.",
  "Each operator is tested, if at all, with one shape and one setting, and results are printed rather than compared.",
  ["src/backend/base", "src/backend/zoo", "src/kernels/cpu", "doc/zh_CN/operator.md"],
  [("index arithmetic of each operator", "src/kernels/cpu, src/backend/base")], ["output tensors"])

p("C16", "Element-wise, broadcast, reduction and ordering operators follow definition",
  "Element-wise binary operators combine elements with the usual broadcasting rule for every pair of compatible shapes, whichever specialised path is taken, promote mixed element types, and reject incompatible shapes; unary operators map each element. Reductions, arg-max, top-k, soft-max, normalisation, bias, scale and comparison operators give per position the documented function of the documented set of inputs, for every axis including negative ones. Inputs stay unchanged and the result does not depend on the number of threads or on earlier runs.",
  ["inputs"], "Every pair of broadcastable shapes, every axis and parameter, every element type.",
  "Broadcast paths are chosen by shape pattern and the tests use equal shapes only; reductions are tested on one axis.",
  ["src/backend/base/element_wise_reduce.cpp", "src/kernels/cpu", "src/backend/base", "doc/zh_CN/operator.md"],
  [("choice of the specialised path", "src/backend/base/element_wise_reduce.cpp, include/backend/base/element_wise_reduce.h"), ("kernels", "src/kernels/cpu")], ["output tensors"])

p("C17", "Windowed and matrix operators equal the sum over their window",
  "Convolution (plain, depth-wise, transposed, dilated, strided, packed or Winograd), pooling in all variants, matrix products and image resizing give at each output position the documented sum, maximum or mean over the documented window, for every kernel size, stride, dilation, padding and channel count, whichever algorithm is selected. Output sizes follow the documented rounding, padding contributes exactly the documented value, and windows that do not fit into the padded input are rejected. The result does not depend on the number of threads, on the instruction set path or on earlier runs.",
  ["inputs", "configurations"], "Every combination of kernel, stride, dilation, padding, channel and image sizes, including those that select special algorithms or leave remainders.",
  "Special kernels handle blocks and remainders separately, and only one or two sizes are tested.",
  ["src/kernels/cpu", "src/backend/base", "src/backend/tf", "src/backend/mxnet", "src/backend/onnx", "src/backend/dragon", "doc/zh_CN/operator.md"],
  [("algorithm selection", "src/kernels/cpu/conv2d_core.cpp, src/kernels/cpu/conv2d.cpp"), ("window arithmetic", "src/kernels/cpu")], ["output tensors"])

p("C18", "Operators accept exactly the parameters they declare, or refuse to start",
  "An operator starts only if every required parameter is given and, when checking is strict, none it does not declare; otherwise it reports an error naming what is wrong, and a parameter not given has its declared default. Looking up an operator gives the implementation registered for exactly that device and name, falling back only as documented, registering again replaces it, and unknown names are reported rather than substituted. Parameters set under one operator never show up in another.",
  ["inputs", "histories"], "Every set of declared, given and cleared parameters, and every history of registrations and look-ups.",
  "Registration is static in the tests and parameters are always complete.",
  ["src/runtime/operator.cpp", "include/runtime/operator.h", "src/global/operator_factory.cpp", "include/global/operator_factory.h", "src/global/device_admin.cpp", "src/global/memory_device.cpp", "src/global/fp16_operator_factory.cpp"],
  [("declared fields", "src/runtime/operator.cpp"), ("creator maps", "src/global/operator_factory.cpp")],
  ["errors", "the operator created", "parameters as read by the operator"])

p("C19", "C interface: failures are signalled, explained, and contained",
  "Every call of the C interface that cannot do what it says returns its documented failure value and leaves a non-empty explanation for the calling thread only, and every call that succeeds leaves none. Null handles and arguments, unknown names and failing user-supplied operators are reported this way and never crash or let an exception escape. Objects handed out stay valid until they are freed, whatever happens to the objects they came from.",
  ["inputs", "histories", "fault_sequences"], "Every sequence of calls with valid and invalid arguments, from several threads, with user-supplied operators that fail at any of their callbacks.",
  "The C interface has only a happy-path use in the tests.",
  ["src/api", "include/api"],
  [("try/catch wrappers and thread-local message", "src/api/common.cpp, src/api/declaration.h"), ("plug-in adapter", "src/api/operator.cpp")],
  ["return values", "last error message per thread"])

p("C20", "Context binding nests, is per thread, and is always restored",
  "Within nested scopes that bind a device, session or runtime context, the innermost binding is the one in effect, leaving a scope in any way (normally or by an error) restores the one before, and bindings made in one thread are never visible in another. Asking for a context where none is bound reports an error where one is required. Thread counts and other run-time settings are normalised as documented and survive cloning.",
  ["histories", "schedules"], "Every nesting of scopes, every way to leave them, every interleaving of threads.",
  "The tests open one scope in one thread.",
  ["include/utils/ctxmgr.h", "include/utils/ctxmgr_lite.h", "include/utils/ctxmgr_lite_support.h", "src/utils/ctxmgr_lite.cpp", "src/core/device_context.cpp", "src/runtime/runtime.cpp", "include/board/hook.h", "src/board/profiler.cpp", "src/runtime/switcher.cpp"],
  [("thread-local top pointer", "include/utils/ctxmgr_lite.h, include/utils/ctxmgr.h")], ["context read in each scope and thread"])

p("C21", "Image filters apply their steps in order to every image of a batch",
  "An image filter applies exactly the steps added, in the order they were added, to every image of the input, and each step (type conversion, scaling, mean and deviation, resizing, letter-boxing, cropping, channel reordering, layout change, greying, colouring, whitening) does what it documents for every image and target size. A filter compiled, cloned, reused or bound to a session input gives the same result as its steps done by hand, and clearing it gives the empty filter. Steps after conversion see the layout the earlier steps produced, and impossible requests are reported.",
  ["inputs", "histories"], "Every sequence of steps, every image size, channel count and batch size, every number of reuses.",
  "The tests run no filter pipeline against expected values.",
  ["src/runtime/image_filter.cpp", "include/runtime/image_filter.h", "src/backend/zoo", "src/kernels/cpu/resize2d.cpp", "src/kernels/cpu/norm_image.cpp", "src/kernels/cpu/prewhiten.cpp", "src/kernels/cpu/force_gray.cpp", "src/kernels/cpu/force_color.cpp", "src/frontend/intime.cpp"],
  [("graph of steps compiled on first use", "src/runtime/image_filter.cpp")], ["filter output"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
