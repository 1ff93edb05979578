"""Signatures (parameter order and defaults) of the library callables escnn uses.
Used to bring positional / keyword / defaulted arguments to one canonical form."""

_F = 'torch.nn.functional.'
_N = 'torch.nn.'
REQ = object()


def _p(spec):
    """'input weight bias=None stride=1' -> [(name, default)]"""
    out = []
    for x in spec.split():
        if '=' in x:
            n, d = x.split('=', 1)
            out.append((n, eval(d)))
        else:
            out.append((x, REQ))
    return out


SIG = {}
for d in '123':
    SIG[_F + f'conv{d}d'] = _p('input weight bias=None stride=1 padding=0 dilation=1 groups=1')
    SIG[_F + f'conv_transpose{d}d'] = _p('input weight bias=None stride=1 padding=0 output_padding=0 groups=1 dilation=1')
    SIG[_F + f'max_pool{d}d'] = _p('input kernel_size stride=None padding=0 dilation=1 ceil_mode=False return_indices=False')
    SIG[_F + f'avg_pool{d}d'] = _p('input kernel_size stride=None padding=0 ceil_mode=False count_include_pad=True divisor_override=None')
    SIG[_F + f'adaptive_avg_pool{d}d'] = _p('input output_size')
    SIG[_F + f'adaptive_max_pool{d}d'] = _p('input output_size return_indices=False')
    SIG[_N + f'Conv{d}d'] = _p('in_channels out_channels kernel_size stride=1 padding=0 dilation=1 groups=1 bias=True padding_mode="zeros" device=None dtype=None')
    SIG[_N + f'ConvTranspose{d}d'] = _p('in_channels out_channels kernel_size stride=1 padding=0 output_padding=0 groups=1 bias=True dilation=1 padding_mode="zeros" device=None dtype=None')
    SIG[_N + f'MaxPool{d}d'] = _p('kernel_size stride=None padding=0 dilation=1 return_indices=False ceil_mode=False')
    SIG[_N + f'AvgPool{d}d'] = _p('kernel_size stride=None padding=0 ceil_mode=False count_include_pad=True divisor_override=None')
    SIG[_N + f'AdaptiveAvgPool{d}d'] = _p('output_size')
    SIG[_N + f'AdaptiveMaxPool{d}d'] = _p('output_size return_indices=False')
    SIG[_N + f'BatchNorm{d}d'] = _p('num_features eps=1e-5 momentum=0.1 affine=True track_running_stats=True device=None dtype=None')
    SIG[_N + f'Dropout{d}d'] = _p('p=0.5 inplace=False')
SIG.update({
    _F + 'interpolate': _p('input size=None scale_factor=None mode="nearest" align_corners=None recompute_scale_factor=None antialias=False'),
    _F + 'pad': _p('input pad mode="constant" value=None'),
    _F + 'dropout': _p('input p=0.5 training=True inplace=False'),
    _F + 'dropout2d': _p('input p=0.5 training=True inplace=False'),
    _F + 'dropout3d': _p('input p=0.5 training=True inplace=False'),
    _F + 'relu': _p('input inplace=False'),
    _F + 'elu': _p('input alpha=1.0 inplace=False'),
    _F + 'leaky_relu': _p('input negative_slope=0.01 inplace=False'),
    _F + 'linear': _p('input weight bias=None'),
    _F + 'batch_norm': _p('input running_mean running_var weight=None bias=None training=False momentum=0.1 eps=1e-5'),
    _N + 'ReLU': _p('inplace=False'),
    _N + 'ELU': _p('alpha=1.0 inplace=False'),
    _N + 'LeakyReLU': _p('negative_slope=0.01 inplace=False'),
    _N + 'Dropout': _p('p=0.5 inplace=False'),
    _N + 'Upsample': _p('size=None scale_factor=None mode="nearest" align_corners=None recompute_scale_factor=None'),
    _N + 'Linear': _p('in_features out_features bias=True device=None dtype=None'),
    _N + 'Parameter': _p('data=None requires_grad=True'),
    _N + 'Identity': [],
    'torch.nn.parameter.Parameter': _p('data=None requires_grad=True'),
})


def canonical(name):
    if name.startswith('torch.nn.modules.'):
        tail = name.rpartition('.')[2]
        if _N + tail in SIG:
            return _N + tail
    if name == 'torch.nn.parameter.Parameter':
        return _N + 'Parameter'
    return name


def bind(name, pos, kw):
    """canonical keyword dict with python defaults filled, or None"""
    s = SIG.get(canonical(name))
    if s is None or len(pos) > len(s):
        return None
    names = [n for n, _ in s]
    out = {}
    for n, v in zip(names, pos):
        if getattr(v, 'op', None) == 'star':
            return None
        out[n] = v
    for k, v in kw.items():
        if k not in names or k in out:
            return None
        out[k] = v
    return out, {n: d for n, d in s if n not in out and d is not REQ}
