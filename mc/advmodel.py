"""A small MoE classifier for checks of adversarial evaluations."""
import flax.linen as nn
import jax
import jax.numpy as jnp
from vmoe import moe
from vmoe.nn import routing


class AdvModel(nn.Module):
  """Two tokens per image (one group), linear experts, mean of the tokens."""
  deterministic: bool = False
  num_classes: int = 3
  num_experts: int = 2
  dispatcher: str = 'einsum'
  layers: int = 1
  noise: float = 0.

  @nn.compact
  def __call__(self, x):
    # A model left in training mode would show in the logits.
    scale = 1.0 if self.deterministic else 0.5
    x = x.reshape(x.shape[0], 2, -1)
    total = 0.
    for i in range(self.layers):
      dispatcher, metrics = routing.NoisyTopExpertsPerItemRouter(
          num_experts=self.num_experts, num_selected_experts=1, noise_std=1.0,
          deterministic=self.deterministic, importance_loss_weight=0.5, load_loss_weight=0.5,
          dispatcher={'name': self.dispatcher, 'batch_priority': False, 'capacity': 2},
          name=f'router{i}')(x)
      total = total + metrics['auxiliary_loss']
      x = moe.sparse_moe_spmd(
          nn.Dense, has_aux=False, variable_axes={'params': 0},
          split_rngs={'params': True})(features=x.shape[-1], name=f'moe{i}')(dispatcher, x)
    logits = nn.Dense(self.num_classes, name='head')(x.mean(1)) * scale
    if self.noise:
      logits = logits + self.noise * jax.random.normal(self.make_rng('gating'), logits.shape)
    return logits, {'auxiliary_loss': total}


class PlainModel(nn.Module):
  deterministic: bool = False
  num_classes: int = 3

  @nn.compact
  def __call__(self, x):
    scale = 1.0 if self.deterministic else 0.5
    return nn.Dense(self.num_classes, name='head')(x.reshape(x.shape[0], -1)) * scale, {
        'auxiliary_loss': 0.}
