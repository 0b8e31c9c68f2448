"""A parameter mapping that records which names are read, also inside of compiled code."""

import jax


class Rec(dict):
    reads = set()  # shared by all of them, they are rebuilt when traced

    def __getitem__(self, key):
        Rec.reads.add(key)
        return super().__getitem__(key)

    def get(self, key, default=None):
        Rec.reads.add(key)
        return super().get(key, default)

    def pop(self, key, *a):
        # popping (to rename) is not reading
        return super().pop(key, *a)


def _flatten(r):
    keys = sorted(r.keys())
    return [dict.__getitem__(r, k) for k in keys], tuple(keys)


def _unflatten(keys, values):
    return Rec(zip(keys, values))


jax.tree_util.register_pytree_node(Rec, _flatten, _unflatten)


def reads(func, parameters):
    """Names read by func(parameters)."""
    Rec.reads = set()
    func(Rec(parameters))
    return set(Rec.reads)
