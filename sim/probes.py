"""Deterministic probes of the known findings: each returns True while the defect is present.
The random search leaves exactly these scopes out (see DESIGN.md)."""
import torch
import torch.nn.functional as F
from torch import nn

from .env import library


def _x(*shape, seed=3):
    g = torch.Generator()
    g.manual_seed(seed)
    return torch.randn(shape, generator=g, dtype=torch.float64)


def _far(a, b):
    return a is None or b is None or a.shape != b.shape or not torch.allclose(a, b, atol=1e-8, equal_nan=True)


def container_flush_absorbs_padding():
    """C08: after a flush, later layers of a container have taken the end padding into their state."""
    co = library()
    torch.manual_seed(0)
    net = co.Sequential(co.Conv1d(1, 1, 3, padding=1), co.Conv1d(1, 1, 3, padding=1)).double()
    x = _x(1, 1, 12)
    with torch.no_grad():
        net.forward_steps(x[:, :, :6], pad_end=True)
        got = net.forward_steps(x[:, :, 6:])
        net.clean_state()
        net.forward_steps(x[:, :, :6])
        exp = net.forward_steps(x[:, :, 6:])
    return _far(got, exp)


def starved_flush():
    """C08: a flush whose chunk yields nothing at a strided layer omits the end padding of later layers."""
    co = library()
    torch.manual_seed(0)
    net = co.Sequential(co.Conv1d(1, 1, 1, stride=2), co.Conv1d(1, 1, 3, padding=1)).double()
    x = _x(1, 1, 6)
    with torch.no_grad():
        exp = net.forward(x)
        a = net.forward_steps(x[:, :, :5])
        b = net.forward_steps(x[:, :, 5:], pad_end=True)  # this frame is skipped by the stride
        got = a if b is None else torch.cat([a, b], 2)
    return _far(got, exp)


def avgpool_forward_ignores_dilation():
    """C03: AvgPool.forward ignores temporal dilation."""
    co = library()
    pool = co.AvgPool1d(2, stride=1, dilation=2)
    x = _x(1, 1, 6)
    return _far(pool.forward(x), (x[:, :, :-2] + x[:, :, 2:]) / 2)


def avgpool_count_include_pad():
    """C01: count_include_pad=False is not honoured for temporal padding."""
    co = library()
    pool = co.AvgPool1d(3, stride=1, padding=1, count_include_pad=False)
    x = _x(1, 1, 6)
    return _far(pool.forward_steps(x), F.avg_pool1d(x, 3, 1, 1, count_include_pad=False)[:, :, :-1])


def groupnorm_per_frame():
    """C14: a converted GroupNorm normalises single frames while streaming, the whole clip otherwise."""
    co = library()
    net = co.continual(nn.GroupNorm(1, 2).double())
    x = _x(1, 2, 5)
    with torch.no_grad():
        return _far(net.forward_steps(x), net.forward(x)) or _far(net.forward_step(x[:, :, 0]), net.forward(x)[:, :, 0])


def single_output_mha_delay():
    """C09: single-output attention declares its query's distance as delay; outputs start after the window is full."""
    co = library()
    net = co.SingleOutputMultiheadAttention(2, 1, sequence_len=4, query_index=-1, embed_dim_second=True, batch_first=True)
    with torch.no_grad():
        outs = [net.forward_step(f) for f in torch.randn(5, 1, 2)]
    first = next(t for t, o in enumerate(outs) if isinstance(o, torch.Tensor))
    return first != net.delay


def conditional_without_else_is_not_delayed():
    """C09: a Conditional without else-branch declares the delay of its branch but passes frames on at once."""
    co = library()
    net = co.Conditional(lambda m, x: False, co.Conv1d(1, 1, 3))
    with torch.no_grad():
        first = net.forward_step(torch.ones(1, 1))
    return net.delay == 2 and isinstance(first, torch.Tensor)


def retroactive_mha_recovery():
    """C09: a NaN frame poisons retroactive attention for up to two windows."""
    co = library()
    torch.manual_seed(0)
    net = co.RetroactiveMultiheadAttention(2, 1, sequence_len=3, batch_first=True, embed_dim_second=True).double()
    x = _x(1, 2, 8)
    x[:, :, 2] = float("nan")
    with torch.no_grad():
        outs = [net.forward_step(x[:, :, t]) for t in range(8)]
    return not bool(torch.isfinite(outs[2 + net.receptive_field]).all())


def transformer_dropout_after_attention():
    """C14: with dropout probability one, an ordinary encoder layer adds nothing to its input; the continual one adds the attention's bias."""
    co = library()
    torch.manual_seed(0)
    net = nn.TransformerEncoder(nn.TransformerEncoderLayer(4, 1, 2, 1.0, batch_first=True), 1, enable_nested_tensor=False).double()
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(_x(*p.shape))
        x = _x(1, 3, 4)
        exp = net.train()(x)[:, -1]
        got = co.TransformerEncoder.build_from(net, 3).train()(x.transpose(1, 2))[:, :, -1]
    return _far(got, exp)


def retroactive_mha_precision():
    """C12: one frame with large attention logits spoils the running sums of retroactive attention while it is in a row's window and after it has left."""
    co = library()
    torch.manual_seed(0)
    net = co.RetroactiveMultiheadAttention(2, 1, sequence_len=4, batch_first=True, embed_dim_second=True, forward_returns_attn_mask=False).eval()
    with torch.no_grad():
        net.in_proj_weight.copy_(torch.eye(2).repeat(3, 1))
        net.out_proj.weight.copy_(torch.eye(2))
        x = _x(1, 2, 7).float()
        x[:, :, 1] = 40 * x[:, :, 3]
        outs = [net.forward_step(x[:, :, t]) for t in range(7)]
        w = x[:, :, 3:].transpose(1, 2)
        exp = F.scaled_dot_product_attention(w, w, w).transpose(1, 2)
    return not torch.allclose(outs[-1], exp, atol=1e-3)


PROBES = {f.__name__: f for f in (container_flush_absorbs_padding, starved_flush, avgpool_forward_ignores_dilation,
                                  avgpool_count_include_pad, groupnorm_per_frame,
                                  single_output_mha_delay, conditional_without_else_is_not_delayed, retroactive_mha_recovery,
                                  transformer_dropout_after_attention, retroactive_mha_precision)}
