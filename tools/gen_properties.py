#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))


prop("C01", "Conv, pooling and delay give the clip result for every chunking of a stream",
     "For every configuration of a convolution, pooling, delay or skip module, feeding a stream frame by frame, in chunks of any sizes, or in any mixture of the two yields exactly the outputs of the ordinary module applied to the whole stream so far, with the configured start fill in front. Each output appears at one fixed position of the stream (after the module's delay, then every temporal stride) and nowhere else, no matter how the frames were grouped or how long the stream runs.",
     ["schedules", "inputs", "configurations", "histories"],
     "all 1d/2d/3d kernel, stride, padding, dilation, group, bias, fill and padding-mode settings (temporal padding below the kernel size), all frame contents, all partitions of a stream into single steps and chunks (including one-frame chunks and chunks longer than the kernel), streams many times longer than the internal buffers, training and evaluation mode, single and double precision",
     "The unit tests feed a handful of fixed configurations one fixed way (mostly one forward_steps call followed by forward_step). Ring-buffer wrap-around, stride phase and dilation indexing depend on the joint choice of configuration, chunk schedule and stream length.",
     ["continual/conv.py", "continual/pooling.py", "continual/delay.py", "continual/skip.py", "continual/module.py"],
     [("partial-convolution ring buffer and stride phase", "conv.py _ConvCoNd._forward_step_py"),
      ("pooled-frame ring buffer and dilated selection", "pooling.py _PoolNd._forward_step"),
      ("chunk loop", "module.py CoModule._forward_steps_impl"),
      ("delay line", "delay.py Delay._forward_step")],
     [("state_buffer/state_index/stride_index", "ring buffer, write cursor, stride phase", "conv.py, pooling.py, delay.py")],
     ["return values of forward_step and forward_steps"])

prop("C02", "Composed networks stream exactly what they compute on the whole clip",
     "For any network composed from the library's modules and containers (sequential, parallel, broadcast, reduce, dispatch, residual, conditional, wrapped functions and converted plain layers, nested arbitrarily), every output produced while streaming equals the output the network defines for the stream so far: layer by layer, branch by branch, with parallel branches aligned to the same instant. This holds for every mixture of single steps and chunks, and a step during which some part is not ready yields no output rather than a wrong one.",
     ["programs", "schedules", "inputs", "configurations"],
     "all compositions of the modules including branches of different delay (automatic and explicit delay), strided stages followed by further temporal stages, all residual shrink modes, every reduce function, reordering/copying/grouping dispatch, per-step branch choices of conditionals; all chunk schedules",
     "Each container is tested in one or two hand-written nets with one schedule. Delay alignment, stride phase across layers and not-ready propagation are properties of the composition and the schedule together.",
     ["continual/container.py", "continual/closure.py", "continual/convert.py", "continual/shape.py", "continual/linear.py"],
     [("sequential chaining with early exit", "container.py Sequential.forward_step/forward_steps"),
      ("automatic delays", "container.py Parallel/BroadcastReduce __init__, add_delay"),
      ("residual shrink", "container.py Residual, delay.py Delay.forward, skip.py Skip"),
      ("branch routing", "container.py Conditional, ParallelDispatch, Reduce")],
     (), ["return values of forward_step, forward_steps and forward of containers"])

prop("C03", "Whole-clip forward is plain computation: it neither reads nor disturbs streams",
     "Calling a module or network on a whole clip returns exactly what the corresponding ordinary computation returns for that clip alone, whatever stream is in flight in the same module. It leaves the stream in flight untouched: all later streaming outputs are those of a run in which the clip was never evaluated.",
     ["histories", "inputs", "schedules", "configurations"],
     "all modules (except that a recycling positional encoding advances its position by its configured amount), all points of a stream at which a clip is evaluated, clips of other batch size, length and spatial size than the stream, train and eval mode",
     "Tests call forward on fresh modules or in one fixed order; interleavings of clip evaluation with warm-up, stride phases and wrapped buffers are not sampled.",
     ["continual/module.py", "continual/conv.py", "continual/pooling.py", "continual/container.py", "continual/rnn.py", "continual/multihead_attention/mha_base.py"],
     [("separate forward path", "*.forward"), ("child mode selection", "container.py child_call_mode")],
     (), ["outputs of forward, outputs of later steps, get_state before/after"])

prop("C04", "Steps with state update disabled are pure previews",
     "A step or chunk of steps executed with state update disabled returns exactly what the same call with update enabled would have returned at that point of the stream, and changes nothing: the retrievable state keeps its values and all later outputs are those of a run without the preview. This holds before the first frame, during warm-up, at every stride phase, with end padding requested, and when the preview is interrupted by an error.",
     ["histories", "inputs", "crash_points", "configurations"],
     "all modules and containers, all points of a stream, single-frame and chunk previews, previews repeated any number of times, previews aborted by an injected failure at any operation",
     "A few tests pass update_state=False once on a fresh module; in-place buffer writes only show at particular cursor positions, batch shapes or after particular histories.",
     ["continual/module.py", "continual/container.py", "continual/conv.py", "continual/pooling.py", "continual/multihead_attention/mha_base.py", "continual/rnn.py", "continual/positional_encoding.py", "continual/skip.py", "continual/transformer.py"],
     [("copy of the mutable buffer before a non-updating step", "module.py _clone_first, mha_base.py _clone_state")],
     (), ["outputs", "get_state before and after"])

prop("C05", "Cleaning the state makes a module indistinguishable from a fresh one",
     "After the state has been cleaned, a module or network behaves on every further operation exactly like a newly built one with the same weights, whatever happened before: any number of steps, previews, clips, restored snapshots, corrupted frames, aborted operations, or streams of another batch size or frame shape.",
     ["histories", "fault_sequences", "configurations"],
     "all histories of operations preceding the clean, including aborted ones and a different batch size or spatial size before and after",
     "clean_state is tested by checking a flag or one output after one step; leftovers (a cursor, a phase, a nested child's buffer) need specific histories.",
     ["continual/module.py", "continual/container.py", "continual/conv.py", "continual/pooling.py", "continual/delay.py", "continual/skip.py", "continual/rnn.py", "continual/positional_encoding.py", "continual/multihead_attention/single_output_mha.py", "continual/multihead_attention/retroactive_mha.py"],
     [("recursive clean-up", "container.py clean_state of all containers; *.clean_state")],
     (), ["outputs and availability of outputs after clean_state, get_state is None iff fresh"])

prop("C06", "A stream resumes exactly after a crash from its last snapshot",
     "A snapshot of a module's or network's state (a copy of what it reports as its state), stored together with its weights at any point of a stream, is complete: a crashed process that rebuilds the network, loads the weights, sets the snapshot and re-feeds the frames since the snapshot produces exactly the outputs of an uninterrupted run. A snapshot taken before the first frame restores the fresh condition, and restoring an old snapshot into a network that has moved on rewinds it.",
     ["crash_points", "histories", "schedules", "configurations"],
     "all networks whose state is retrievable, all snapshot points (including before the first frame and during warm-up), all crash points including mid-operation, repeated crashes, restore into a new instance or into the running instance",
     "No test persists and restores state of a running stream; containers' state is not exercised at all.",
     ["continual/module.py", "continual/container.py", "continual/conv.py", "continual/pooling.py", "continual/delay.py", "continual/skip.py", "continual/rnn.py", "continual/multihead_attention", "continual/positional_encoding.py"],
     [("state retrieval and installation", "get_state/set_state of every module, ContainerState in container.py")],
     (), ["outputs after restore"])

prop("C07", "Many streams multiplexed through one network never influence each other",
     "One set of weights can serve any number of independent streams in any interleaving, either by swapping each stream's state in and out of a module or by using the explicit-state step that takes a state and returns the output with the next state. Every stream receives exactly the outputs it would receive alone, and the explicit-state step neither reads nor changes the state held by the module itself.",
     ["schedules", "histories", "configurations", "inputs"],
     "all interleavings of streams with different start times, lengths and batch sizes over one module or network, mixing state swapping, explicit-state stepping and the module's own stream",
     "Tests drive one stream per module; the explicit-state form is only run inside ONNX export tests for a few steps.",
     ["continual/module.py", "continual/container.py", "continual/conv.py", "continual/pooling.py", "continual/delay.py", "continual/skip.py", "continual/rnn.py", "continual/positional_encoding.py", "continual/multihead_attention", "continual/transformer.py"],
     [("functional step", "_forward_step of every module"), ("state swap", "get_state/set_state")],
     (), ["outputs per stream, get_state of the module"])

prop("C08", "Flushing with end padding completes the clip and leaves the stream resumable",
     "Requesting end padding on a chunk of steps adds exactly the outputs the ordinary computation has at the end of the clip, so that a stream fed from its start and flushed with its last chunk has yielded, in order, precisely the outputs of the whole-clip computation; this holds for single modules and composed networks. For a single temporal module, the padding is not absorbed: the stream continues afterwards as if the flush had not been requested.",
     ["schedules", "histories", "configurations", "inputs"],
     "all padded configurations and networks of them, all chunkings before the flush, flushes at any time and repeatedly followed by more frames (single modules), zero and replicate fill",
     "Tests flush one fresh module with one chunk; a flush after other chunks, after single steps or followed by more frames is not tried.",
     ["continual/module.py", "continual/conv.py", "continual/pooling.py", "continual/delay.py", "continual/container.py"],
     [("end-padding loop on a copy of the state", "module.py _forward_steps_impl"), ("delay line flush", "delay.py forward_steps")],
     (), ["outputs of forward_steps(pad_end=True) and of later steps"])

prop("C09", "Declared delay, stride and receptive field describe the real stream",
     "The delay, temporal stride and receptive field a module or network reports are true of its streams: the first output appears after exactly that many further frames, outputs then appear exactly every stride frames, and a frame influences no output more than a receptive field later, so that a stream hit by corrupted (NaN or infinite) frames is exactly right again once they have left the receptive field. After warming up, outputs appear from the first frame on.",
     ["configurations", "programs", "inputs", "fault_sequences"],
     "all modules and compositions with finite memory (recurrent layers excluded; retroactive attention keeps running sums and is excluded from the corruption clause; for attention the first complete window is the first output), all frame contents, corruption at any point",
     "Tests assert the numbers for a few nets; that they describe the observable behaviour for every composition (stride products, padding, parallel branches) is never checked.",
     ["continual/module.py", "continual/container.py", "continual/pooling.py", "continual/conv.py", "continual/delay.py"],
     [("receptive_field/stride/padding/delay properties", "container.py Sequential/Parallel/BroadcastReduce/Conditional, pooling.py, conv.py, module.py"), ("warm_up", "module.py CoModule.warm_up")],
     (), ["receptive_field, delay, stride; position and values of outputs"])

prop("C10", "Call modes select the forward mode, nest, survive errors and leave no trace",
     "Calling a module runs whole-clip, single-step or multi-step computation according to its own call mode, or according to the innermost active call-mode context if there is one, and calling it this way is equivalent to invoking that computation by name. Contexts nest and can be left by an exception at any depth: afterwards the previously selected mode applies again, and explicit invocations, containers' children and registered hooks behave as if the context had never existed.",
     ["histories", "fault_sequences", "configurations", "programs"],
     "all nestings of contexts and permanent call modes on modules, converted layers and containers, with exceptions (also from inside the computation) unwinding any number of them, and streams in flight meanwhile; child-specific permanent modes inside containers are overridden by the container",
     "Tests enter one context at a time without errors and check the mode of one module.",
     ["continual/module.py", "continual/convert.py", "continual/container.py", "continual/utils.py"],
     [("context manager", "module.py _CallModeContext"), ("dispatch and hooks", "module.py CoModule._call_impl, convert.py forward_stepping"), ("temporary attribute", "utils.py temporary_parameter")],
     [("call_mode", "permanent mode of a module", "module.py")], ["results of __call__, number of hook invocations"])

prop("C11", "Streams served by different threads do not interfere",
     "Networks that do not share modules can be used from different threads at the same time: under every interleaving each thread obtains exactly the results it would obtain alone. In particular call-mode contexts and flattened-state-dict contexts entered in one thread have no effect in another, and several threads may use the whole-clip computation and the explicit-state step (each with its own state) of one shared network in evaluation mode.",
     ["schedules", "programs"],
     "all thread interleavings at source-line granularity of streaming, clips, contexts, state cleaning and checkpointing on separate networks (possibly sharing weight tensors), and of explicit-state steps on one shared network",
     "All tests are single-threaded.",
     ["continual/module.py", "continual/utils.py", "continual/container.py", "continual/convert.py"],
     [("per-thread context objects", "module.py call_mode, utils.py flat_state_dict"), ("no module-level mutable state", "all modules")],
     (), ["outputs per thread"], "none in /repo: threads are parked and released by the simulator at line events of the library's files")

prop("C12", "Continual attention and transformers equal attention over the sliding window",
     "At every instant once the window is full, the streaming outputs of the single-output and retroactive attention modules and of one- and two-layer transformer encoders equal what ordinary attention (or the ordinary transformer encoder) computes on the last window of frames, for the selected query position or for all positions; before that there is no output. This holds for every chunking, arbitrarily long streams and all supported memory layouts, and for streams with separate query, key and value.",
     ["histories", "schedules", "inputs", "configurations"],
     "all embedding sizes, head counts, window lengths >= 2, query positions, layouts, biases, activations, final norms, batch sizes and dtypes supported by the step functions; streams many windows long; dropout inactive",
     "Tests run one window plus a few steps with one configuration; drift of the running sums and roll errors appear only later or with other layouts.",
     ["continual/multihead_attention", "continual/transformer.py"],
     [("rolled memories", "single_output_mha.py, retroactive_mha.py _scaled_dot_product_attention_step"), ("retroactive running normalisation", "retroactive_mha.py"), ("two-layer assembly", "transformer.py TransformerEncoder, RetroactiveUnity, RetroactiveLambda")],
     [("Q_mem/K_T_mem/V_mem/d_mem/AV_mem", "sliding attention memories", "multihead_attention/")], ["outputs of forward_step(s)"])

prop("C13", "Recurrent modules carry their hidden state exactly across chunks and steps",
     "RNN, GRU and LSTM modules produce over any mixture of single steps and chunks exactly the outputs of the ordinary recurrent network on the uninterrupted sequence, including multiple layers, projections and an initial hidden state set by the user; the state they report equals the ordinary network's final state at that point.",
     ["schedules", "histories", "inputs", "configurations"],
     "all layer counts, hidden sizes, biases, nonlinearities, projection sizes; all chunkings; user-set initial states",
     "Tests use one configuration and one split of the sequence.",
     ["continual/rnn.py"],
     [("hidden state hand-over", "rnn.py forward_step/forward_steps/_forward_step of RNN, GRU, LSTM")],
     [("_hidden_state/_cell_state", "recurrent state", "rnn.py")], ["outputs, get_state"])

prop("C14", "Conversion and checkpoints migrate weights losslessly and without sharing",
     "Converting an ordinary network yields a continual network that computes (in the same training or evaluation mode) the same function, on clips and on streams, and whose library layers no longer share weights with the original (layers without temporal extent are enhanced in place). Checkpoints move between instances in both directions, in plain and flattened form, nested or not, so that a replica built anew and loaded from a checkpoint continues a stream exactly, and streaming never changes what a checkpoint contains.",
     ["programs", "configurations", "histories", "crash_points"],
     "all convertible layers and sequential networks of them including repeated (shared) layers, functions, recurrent, attention and transformer layers; checkpoints taken at any point of a stream; flattened-state-dict contexts nested and left by exceptions",
     "Tests convert individual layers and compare clips; weight independence, repeated layers, mid-stream checkpoints and nested flattening contexts are not exercised.",
     ["continual/convert.py", "continual/utils.py", "continual/container.py", "continual/conv.py", "continual/pooling.py", "continual/linear.py", "continual/rnn.py", "continual/transformer.py", "continual/multihead_attention/mha_base.py"],
     [("build_from", "*.build_from, convert.py continual"), ("flat state dict", "utils.py state_dict/load_state_dict, container.py FlattenableStateDict"), ("non-persistent stream buffers", "register_buffer(persistent=False)")],
     (), ["outputs, state_dict"])

prop("C15", "An exported ONNX step network is the same stream processor",
     "Exporting a warmed-up module or network to ONNX gives a graph whose repeated execution, feeding each returned state back in, produces at every step exactly the output the live network gives and a state from which the live network and the graph can take over from each other; streams can be suspended, restored and interleaved on one exported graph.",
     ["histories", "schedules", "programs", "crash_points"],
     "exportable networks with temporal stride one (convolution, pooling, delay, linear, activation, residual, recurrent, attention, one-layer transformer), streams long enough to wrap all buffers, several streams on one graph, crash and restart of the host with the states kept",
     "Tests run the exported graph for one or few steps on one stream; state names, ordering and cursor arithmetic baked in as constants only show when the stream goes on or is handed over.",
     ["continual/onnx.py", "continual/module.py", "continual/container.py"],
     [("state flattening and naming", "onnx.py OnnxWrapper, _shape_list; _state_shape/_dynamic_state_inds of all modules")],
     (), ["onnxruntime outputs and states"])

prop("C16", "Recycling positional encodings stay in step with the stream forever",
     "A recycling positional encoding adds to the n-th frame of a stream the embedding with index n modulo the number of embeddings, whether frames arrive one by one, in chunks or mixed, for streams of any length; previews do not advance it, a whole-clip evaluation encodes from the current position and advances it by exactly the configured (or passed) number of positions, and cleaning the state returns to index zero.",
     ["histories", "schedules", "configurations"],
     "all table sizes and dimensions, learned and static tables, all chunk schedules with wrap-around inside and between chunks, interleaved clip evaluations and previews",
     "The test covers one pass without mixing modes and previews.",
     ["continual/positional_encoding.py"],
     [("position counter", "positional_encoding.py RecyclingPositionalEncoding")],
     [("state_index", "current position", "positional_encoding.py")], ["outputs"])

prop("C17", "Frames and outputs belong to the caller",
     "The library never modifies a frame, clip, chunk or initial condition handed to it, does not depend on frames after a call has returned, and never changes an output it has returned. A caller can therefore reuse one buffer for all frames of a stream, keep outputs for later and modify them in place, without affecting any later output of the stream (an output that is the passed input itself, such as from an identity, remains the caller's input).",
     ["histories", "inputs", "schedules", "configurations"],
     "all modules and networks, all steps of a stream, buffers overwritten (also with NaN) immediately after each call, non-contiguous and expanded frames, outputs modified immediately or compared at the end of the stream",
     "Tests build fresh tensors for every frame and compare outputs immediately.",
     ["continual/delay.py", "continual/conv.py", "continual/pooling.py", "continual/container.py", "continual/multihead_attention", "continual/transformer.py", "continual/skip.py"],
     [("copies into ring buffers", "conv.py/pooling.py/delay.py _forward_step"), ("cloned delay output", "delay.py Delay._forward_step")],
     (), ["inputs after each call, outputs at the end of the stream"])

prop("C18", "A failed operation is contained: everything else works, and recovery is complete",
     "If any operation inside a call fails (an allocation or kernel error, a user function raising, a malformed frame, an interrupt), the error reaches the caller, modes and settings are back to what they were, whole-clip evaluation and all other modules keep working exactly, and the affected stream is exactly right again after cleaning the state or restoring a snapshot and re-feeding. A malformed frame of wrong rank or channel count reaching a convolution, recurrent or attention layer is never silently accepted.",
     ["fault_sequences", "crash_points", "histories", "configurations"],
     "failures injected before or after the n-th tensor operation of any call on any module or composed network at any point of a stream, repeatedly; failures in wrapped functions and predicates; malformed frames; failures inside call-mode contexts",
     "No test lets anything fail inside a step.",
     ["continual/utils.py", "continual/module.py", "continual/container.py", "continual/delay.py"],
     [("restoring temporary attributes and contexts on errors", "utils.py temporary_parameter, module.py call_mode, container.py child_call_mode")],
     (), ["exception propagation, outputs after recovery"])

prop("C19", "Rows of a batch are independent streams",
     "The output row of each batch element depends only on that element's own frames: streaming a batch gives for every row what streaming that row alone gives, and rows that are corrupted with NaN or infinite values, permuted or replaced leave the outputs of all other rows unchanged.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all modules and compositions in evaluation mode, all batch sizes, corruption of any subset of rows at any point of a stream, single steps, chunks and clips",
     "Tests use batches of identical treatment and compare whole tensors; cross-row leakage through state buffers or reshapes needs rows to differ in health or history.",
     ["continual/conv.py", "continual/pooling.py", "continual/delay.py", "continual/container.py", "continual/multihead_attention", "continual/rnn.py", "continual/transformer.py"],
     [("batch-leading layouts and reshapes", "pooling.py reshape helpers, mha head folding, conv buffers")],
     (), ["output rows"])

prop("C20", "Gradients through streams are those of the ordinary computation",
     "With gradients enabled, outputs of forward, forward_step, forward_steps, previews, flushes and explicit-state steps can be back-propagated, and the gradient of any function of the outputs handed out so far with respect to every frame of the stream and every parameter equals the gradient of the ordinary computation on the whole history. Steps, previews, clips, failing calls, cleaning and saving or restoring the state (with its graph) in between neither make back-propagation fail nor change the gradients of outputs handed out before. After an update of the weights, a cleaned network gives the outputs and gradients of the new weights.",
     ["inputs", "configurations", "histories", "fault_sequences", "schedules"],
     "all temporal modules, attention, recurrent and positional modules, closures and compositions in evaluation or training mode (without batch statistics and dropout), in double precision; any history of calls made with gradients enabled, back-propagation at any point",
     "Tests back-propagate through forward and a few steps of a convolution; whether an in-place update of a ring buffer destroys a saved tensor, or a detached buffer drops a part of the gradient, shows only for particular configurations and histories of calls between the output and its back-propagation.",
     ["continual/conv.py", "continual/pooling.py", "continual/delay.py", "continual/container.py", "continual/multihead_attention", "continual/rnn.py", "continual/transformer.py", "continual/positional_encoding.py"],
     [("copy of the pooled frames", "pooling.py _forward_step"), ("clone before in-place update", "conv.py and delay.py _forward_step")],
     (), ["gradients of frames and parameters"])

prop("C21", "A copied network is an independent network at the same point of the stream",
     "A copy of a network made at any point of a stream, by deepcopy or by saving and loading the module as a whole where Python can do so, has the same weights, modes, timing and stream position as the original: fed with the same frames, it gives the same outputs. From then on the networks are independent: feeding, flushing, cleaning, failing calls or updated weights of one never show in another, and dropping the original does not matter. A module that cannot be copied refuses loudly and stays as it was. Inspection at any point (printing, timing attributes, iteration and slicing, state_dict, get_state, listing of attributes, mode toggles, moves to the device or precision it already has) changes neither the state nor any later output.",
     ["programs", "histories", "schedules", "fault_sequences", "crash_points"],
     "all modules and compositions, copies of copies, in any order of feeding; copies and inspection at every point of warm-up, of a stride phase and of ring-buffer wrap-around, after previews, clips, cleans and aborted calls",
     "No test copies a network in flight. Whether a copy takes the whole position along and shares nothing with its original shows only when both are continued from a point at which every cursor and buffer matters.",
     ["continual/module.py", "continual/conv.py", "continual/pooling.py", "continual/delay.py", "continual/container.py", "continual/closure.py", "continual/multihead_attention", "continual/rnn.py", "continual/positional_encoding.py"],
     [("state in plain attributes and parameters", "__init__ and set_state of every stateful module"), ("timing properties", "module.py, container.py")],
     (), ["outputs, get_state and attributes of original and copies"])

prop("C22", "What a network keeps, and what a step costs, is bounded however long it runs",
     "Once its receptive field has been seen, a network keeps a bounded amount of memory and does a bounded amount of work per call, however many frames, chunks, previews, clips, flushes, cleaned streams, saved and restored states, explicit-state streams, weight loads, inspections and failed calls lie behind it. What it keeps after a chunk does not depend on the length of the chunk, and networks (also copies and converted modules) that are no longer used are released together with what they kept.",
     ["programs", "histories", "schedules", "fault_sequences"],
     "all modules and compositions without gradients; any repeated round of operations, including rounds with aborted calls and with other networks that are built, fed and dropped",
     "Every operation is right in itself when a list, a tensor, a view of a large buffer or a registry entry is left behind by it; only the comparison of many rounds of a history shows that something accumulates, or that steps become slower.",
     ["continual/module.py", "continual/conv.py", "continual/pooling.py", "continual/delay.py", "continual/container.py", "continual/convert.py", "continual/multihead_attention", "continual/rnn.py", "continual/positional_encoding.py", "continual/utils.py", "continual/logging.py"],
     [("ring buffers instead of growing histories", "conv.py, pooling.py, delay.py _forward_step"), ("rolled key and value memories", "multihead_attention"), ("contexts restored on exit", "module.py call_mode, utils.py temporary_parameter")],
     (), ["live tensors and objects between rounds", "bytes reachable from the network", "tensor operations and elements computed per round"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
