from checks import _accept

RULE = ('case = (parameter list, number of positionals, keyword names): all '
        'legal lists up to length 5 (6 thorough) with every call shape up to '
        'one surplus positional and one unknown keyword, plus seeded random '
        'lists up to 9 parameters with hostile names (self, args, ...), '
        'introspected functions and overload sets; oracle: some completion '
        'of the call is accepted by the real function; non-trivial = the '
        'list is not empty and at least one argument is given')
MINIMUM = {'expects=True': 5000, 'expects=False': 5000, 'overloaded': 1000}


def work(mon, **kw):
    _accept.run(mon, 'expects', 'completable', pid='P01', **kw)
