"""Oracles of calls: CPython's own argument binding."""
from vlib import gen


class Callee:
    def __init__(self, params):
        self.params = params
        self.function = gen.function(params)
        self.positional = [p for p in params if p.kind in (gen.PO, gen.PK)]
        self.required = [p.name for p in params
                         if p.kind in (gen.PK, gen.KO) and p.req == 'r']

    def accepts(self, args, kwargs):
        return gen.binds(self.function, args, kwargs)

    def completable(self, args, kwargs):
        """can more arguments make it a call that Python accepts?"""
        for extra in range(max(len(self.positional) - len(args), 0) + 1):
            full = tuple(args) + (0,) * extra
            taken = {p.name for p in self.positional[:len(full)]
                     if p.kind == gen.PK}
            more = {n: 0 for n in self.required
                    if n not in taken and n not in kwargs}
            if gen.binds(self.function, full, {**kwargs, **more}):
                return True
        return False
