"""Stand-ins for vit_jax (not installed here and not part of /repo).

They reproduce the three layers and the checkpoint reader that /repo uses, with
the names, parameters and behaviour of https://github.com/google-research/
vision_transformer. install() must be called before importing vmoe modules that
need them; if the real package is available, it is used.
"""
import importlib.util
import sys
import types


def install():
  if 'vit_jax' in sys.modules:
    return
  try:
    if importlib.util.find_spec('vit_jax') is not None:
      return
  except (ImportError, ValueError):
    pass
  from typing import Any, Callable, Optional
  import flax.linen as nn
  import jax.numpy as jnp
  import numpy as np

  class IdentityLayer(nn.Module):

    @nn.compact
    def __call__(self, x):
      return x

  class AddPositionEmbs(nn.Module):
    posemb_init: Callable[..., Any]
    param_dtype: Any = jnp.float32

    @nn.compact
    def __call__(self, inputs):
      assert inputs.ndim == 3
      shape = (1, inputs.shape[1], inputs.shape[2])
      pe = self.param('pos_embedding', self.posemb_init, shape, self.param_dtype)
      return inputs + pe

  class MlpBlock(nn.Module):
    mlp_dim: int
    dtype: Any = jnp.float32
    param_dtype: Any = jnp.float32
    out_dim: Optional[int] = None
    dropout_rate: float = 0.1
    kernel_init: Callable[..., Any] = nn.initializers.xavier_uniform()
    bias_init: Callable[..., Any] = nn.initializers.normal(stddev=1e-6)

    @nn.compact
    def __call__(self, inputs, *, deterministic):
      out = inputs.shape[-1] if self.out_dim is None else self.out_dim
      x = nn.Dense(features=self.mlp_dim, dtype=self.dtype,
                   param_dtype=self.param_dtype, kernel_init=self.kernel_init,
                   bias_init=self.bias_init)(inputs)
      x = nn.gelu(x)
      x = nn.Dropout(rate=self.dropout_rate)(x, deterministic=deterministic)
      x = nn.Dense(features=out, dtype=self.dtype, param_dtype=self.param_dtype,
                   kernel_init=self.kernel_init, bias_init=self.bias_init)(x)
      return nn.Dropout(rate=self.dropout_rate)(x, deterministic=deterministic)

  class VisionTransformer(nn.Module):  # Only so that vmoe.nn.external imports.
    num_classes: int = 0
    patches: Any = None
    resnet: Any = None

    @nn.compact
    def __call__(self, inputs, *, train):
      raise NotImplementedError

  class MlpMixer(nn.Module):
    num_classes: int = 0
    patches: Any = None

    @nn.compact
    def __call__(self, inputs, *, train):
      raise NotImplementedError

  def load(path):
    with open(path, 'rb') as fp:
      data = dict(np.load(fp, allow_pickle=False).items())
    tree = {}
    for k, v in data.items():
      d = tree
      *parents, last = k.split('/')
      for p in parents:
        d = d.setdefault(p, {})
      d[last] = v
    return tree

  def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__spec__ = importlib.util.spec_from_loader(name, loader=None)
    sys.modules[name] = m
    return m

  pkg = module('vit_jax')
  pkg.__path__ = []
  pkg.models_vit = module('vit_jax.models_vit', IdentityLayer=IdentityLayer,
                          AddPositionEmbs=AddPositionEmbs, MlpBlock=MlpBlock,
                          VisionTransformer=VisionTransformer)
  pkg.models_mixer = module('vit_jax.models_mixer', MlpMixer=MlpMixer)
  pkg.checkpoint = module('vit_jax.checkpoint', load=load)
