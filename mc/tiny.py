"""A small sharded, stochastic model for checks of whole training runs."""
import flax.linen as nn
import jax
import jax.numpy as jnp


class Model(nn.Module):
  deterministic: bool = False
  noise: float = 0.1
  rng: str = 'dropout'

  @nn.compact
  def __call__(self, x):
    v = self.param('v', nn.initializers.normal(0.5), (4, 3, 5))
    w = self.param('w', nn.initializers.normal(0.5), (5, 2))
    y = jnp.mean(jnp.einsum('NC,ECD->END', x, v), 0)
    if not self.deterministic and self.noise:
      y = y + self.noise * jax.random.normal(self.make_rng(self.rng), y.shape)
    y = y @ w
    return y, {'auxiliary_loss': 0.01 * jnp.square(y)}


class TwoTower(nn.Module):
  """As Model, with two inputs (and one of them optional)."""
  deterministic: bool = False
  noise: float = 0.1
  text_scale: float = 1.0

  @nn.compact
  def __call__(self, images, texts):
    v = self.param('v', nn.initializers.normal(0.5), (4, 3, 5))
    w = self.param('w', nn.initializers.normal(0.5), (2, 5))
    zi = zt = None
    if images is not None:
      zi = jnp.mean(jnp.einsum('NC,ECD->END', images, v), 0)
      if not self.deterministic and self.noise:
        zi = zi + self.noise * jax.random.normal(self.make_rng('dropout'), zi.shape)
    if texts is not None:
      zt = self.text_scale * (texts @ w)
    if images is None or texts is None:
      return (zt if images is None else zi), {}
    return zi @ zt.T, {'auxiliary_loss': 0.01 * jnp.square(zi)}
