import json
F=[
("container-flush-absorbs","C08","container_flush_absorbs_padding","forward_steps(pad_end=True) with state update on a container (co.Sequential(co.Conv1d(1,1,3,padding=1), co.Conv1d(1,1,3,padding=1))): later modules absorb the outputs that end padding added, so the stream continues wrongly after the flush (single modules are right)"),
("starved-flush","C08","starved_flush","forward_steps(pad_end=True) on a container in which the chunk yields no output at an intermediate layer (1 frame into co.Sequential(co.Conv1d(1,1,1,stride=2), co.Conv1d(1,1,3,padding=1))): the end padding of the later layers is omitted"),
("avgpool-forward-dilation","C03","avgpool_forward_ignores_dilation","AvgPool1d/2d/3d.forward ignores temporal dilation > 1 (co.AvgPool1d(2, stride=1, dilation=2).forward), unlike forward_step(s)"),
("avgpool-count-include-pad","C01","avgpool_count_include_pad","streaming AvgPool with count_include_pad=False and temporal padding divides by the full kernel size at the padded start (co.AvgPool1d(3, 1, 1, count_include_pad=False))"),
("groupnorm-per-frame","C14","groupnorm_per_frame","co.continual(nn.GroupNorm) normalises each frame by itself while streaming but over the whole clip in forward"),
("transformer-dropout1","C14","transformer_dropout_after_attention","a TransformerEncoder converted in training mode applies no dropout to the attention's output (dropout1 of nn.TransformerEncoderLayer) before it is added to the residual"),
("retroactive-precision","C12","retroactive_mha_precision","RetroactiveMultiheadAttention (and TransformerEncoders of two or more layers) keeps running sums of unnormalised exponentials: frames whose attention logits are far larger than those of the others (40 times a normal frame, float32) make its outputs wrong by cancellation or overflow, also after they have left the window"),
("somha-delay","C09","single_output_mha_delay","SingleOutputMultiheadAttention (and the layers built on it) declares the distance of its query as delay (0 by default), which aligns residuals, but its first output appears after sequence_len - 1 further frames"),
("conditional-no-else-delay","C09","conditional_without_else_is_not_delayed","co.Conditional without on_false declares the delay of on_true but passes frames on undelayed while the predicate is false"),
("retroactive-recovery","C09","retroactive_mha_recovery","a NaN or infinite frame poisons RetroactiveMultiheadAttention (and two-layer TransformerEncoder) for up to two windows, twice the declared receptive field, because retained rows keep running sums"),
]
X="""6253028 C18 temporarily set attributes (call_mode) stayed changed when the wrapped code raised
4959728 C10 call mode was looked up by enum identity: copied modules and integer modes failed
c9012a3 C10 call_mode context did not nest, stayed active after an exception and leaked into other threads
0bcc2ed C10 explicit forward/forward_step/forward_steps of containers were redirected by an active call_mode context
26811b2 C02 Conditional dropped pad_end and update_state, did not expose or thread the state of its branches, and did not clean them
27fa14e C14 a module occurring several times in a network was converted several times (weights no longer tied)
9349d08 C04 forward_steps(pad_end=True, update_state=False) padded from the module state instead of the previewed one
8d677ba C04 attention previews before the first step initialised the state, and previews advanced stride_index in place
10aecf6 C12 SingleOutputMultiheadAttention.forward_steps returned a wrong shape with batch_first=False
4ac69d1 C01 dilated pooling lost frames of its window and reported a wrong receptive field
7aac5de C01 strided convolutions with kernel size 1 lost their stride phase
358ffc7 C12 RetroactiveUnity indexed past its ring (two-layer TransformerEncoder)
1141547 C12 SingleOutputTransformerEncoderLayer added the residual of another instant than its query_index
61772e8 C12 activation="gelu" in transformer layers computed relu; built-in functions could not be converted
9b47384 C02 Parallel crashed while a prior module had not produced an output yet
7791a29 C02 delays of parallel branches with temporal stride were misaligned
32f004f C16 RecyclingPositionalEncoding had no retrievable state and its explicit-state step reset it
efd6cc2 C02 Delay(auto_shrink="centered") did not shrink while streaming
d9cbe72 C14 flat_state_dict context did not nest and leaked into other threads
3d552fd C06 containers exposed no state in get_state/set_state
16742f2 C01 divisor_override of AvgPool2d/3d was ignored while streaming
067bdcc C08 Delay(auto_shrink=True).forward_steps(pad_end=True) returned the shrunk steps
d3bf71a C09 Conditional reported no padding and stride
9489314 C08 transformer encoder layers flushed the residual past the attention
0252608 C08 max pooling streams padded time with zeros by default (documented and computed in forward: negative infinity)
71c0026 C09 warm_up of attention without delay (zero steps) crashed
da70164 C09 warm_up of networks without delay that contain a user function crashed
232cfa5 C09 Conditional under-reported its receptive field when it delays a branch
75cdb37 C18 convolution steps accepted frames without batch dimension and streamed along a wrong axis
7911973 C14 converted convolutions lost dtype and device (a double precision network was converted to float32)
36eea8f C14 bidirectional RNN, GRU and LSTM were silently converted to unidirectional modules
eba4f27 C14 norm_first transformer encoders were silently converted to a network computing another function
164c797 C10 call_mode of modules enhanced by forward_stepping could not be set by name
2b4394f C15 exporting to ONNX switched the live network to training mode
2e4a1a2 C15 exported ONNX networks with states of different sizes could not be executed
e48a316 C11 containers temporarily changed the call mode of shared modules, so forward and explicit-state steps of one network in several threads ran each other's computation
b71a74c C10 full backward hooks and hooks with keyword arguments made every call raise (torch >= 2.0)
636a72d C01 AdaptiveAvgPool2d and AdaptiveMaxPool2d with output_size None or int could not be built or stepped
abeb694 C12 attention with other key and value dimensions (kdim, vdim) crashed on every step
297ea53 C12 TransformerEncoder of three or more layers could not be built (its middle layers were None)
fdc382c C20 pooling steps could not be back-propagated once a further step had overwritten the pooled frames
9630ac1 C10 a legacy backward hook made every step without an output (while warming up) raise
779e3d3 C02 Sequential dropped frames that are tensor subclasses (or tuples of streams) during steps"""
fx=[]
for l in X.split("\n"):
    c,p,w=l.split(" ",2); fx.append(f"fixed: property={p} {c} {w}")
json.dump(dict(findings=[dict(id=a,property=b,status="open",probe=c,what=d) for a,b,c,d in F],fixed=fx),open('/verif/known_findings.json','w'),indent=1)
