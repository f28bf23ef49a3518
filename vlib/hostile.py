import inspect


class Touched(Exception):
    pass


def _refuse(name):
    def method(self, *args, **kwargs):
        raise Touched(name)

    return method


class Untouchable:
    """an argument that must be carried around, never looked into"""


for _name in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
              '__hash__', '__bool__', '__len__', '__iter__', '__contains__',
              '__getitem__', '__call__', '__getattr__', '__index__',
              '__int__', '__add__', '__radd__', '__repr__', '__str__'):
    setattr(Untouchable, _name, _refuse(_name))
del _name
UNTOUCHABLE = Untouchable()

# arguments that code may be tempted to treat as absent
ODD = (None, False, 0, 0., '', b'', (), ..., NotImplemented, True, -1, 'a',
       int, object, inspect.Parameter.empty, type(None), frozenset(), range(0))


def odd_arguments(rng, *, untouchable=True):
    """endless"""
    while True:
        style = rng.random()
        yield (rng.choice(ODD) if style < .5
               else UNTOUCHABLE if untouchable and style < .8
               else object())
