"""str() is the Python parameter list."""
import ast
import importlib
import random

from checks import p09
from vlib import gen, stdlib, structure, twins, values

RULE = ('case = generated plain / overloaded signature (identifier names, '
        'optional parameters with explicit default) or signature of a '
        'standard library callable; "def f" + str is parsed by Python\'s own '
        'parser, kinds, order, names, presence of defaults and annotations '
        'compared, annotation and default expressions evaluated and compared '
        'with an independent structural description; overloads must be '
        'joined; non-trivial = at least two parameters')
MINIMUM = {'parsed': 3000, 'values compared': 3000, 'overloaded': 300,
           'standard library': 3000, 'separator /': 300, 'separator *': 300,
           'twin': 2000}
TWINS = {'quick': 800, 'thorough': 16000}
COUNT = {'quick': 6000, 'thorough': 300000}


def text_parses(text):
    try:
        ast.parse(text, mode='eval')
    except (SyntaxError, ValueError):
        return False
    return True


def plain(mon, ns, s, key, *, evaluate):
    text = str(s)
    mon.case(text, nontrivial=text.count(': ') > 1)
    mon.expect(text == str(s), f'{key}:changes', text)
    try:
        tree = ast.parse(f'def f{text}: pass')
        definition, = tree.body
        a = definition.args
    except (SyntaxError, ValueError) as error:
        if evaluate:
            mon.violation(f'{key}:parse', f'{text}: {error!r}')
        else:
            mon.event('skipped: texts of annotations do not parse')
        return
    mon.event('parsed')
    defaults = dict(zip([x.arg for x in a.posonlyargs + a.args][::-1],
                        a.defaults[::-1]))
    defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
                     if d is not None})
    parsed = ([(gen.PO, x) for x in a.posonlyargs]
              + [(gen.PK, x) for x in a.args]
              + [(gen.VP, x) for x in [a.vararg] if x is not None]
              + [(gen.KO, x) for x in a.kwonlyargs]
              + [(gen.VK, x) for x in [a.kwarg] if x is not None])
    expected = [(gen.kind_of(p), p.name, bool(getattr(p, 'has_default', False)))
                for p in s.parameters]
    actual = [(kind, x.arg, x.arg in defaults) for kind, x in parsed]
    if not mon.expect(actual == expected, f'{key}:list',
                      lambda: f'{text} parsed as {actual}, not {expected}'):
        return
    if a.posonlyargs:
        mon.event('separator /')
    if a.kwonlyargs and a.vararg is None:
        mon.event('separator *')
    if not mon.expect(all(x.annotation is not None for _, x in parsed)
                      and definition.returns is not None,
                      f'{key}:annotated', text):
        return
    if not evaluate:
        return

    def value_of(node):
        return eval(compile(ast.Expression(node), '<text>', 'eval'), dict(ns))

    mon.event('values compared')
    try:
        for (_, x), p in zip(parsed, s.parameters):
            got = structure.annotation(value_of(x.annotation))
            mon.expect(got == structure.annotation(p.annotation),
                       f'{key}:annotation',
                       lambda: f'{text}: {p.name} shows {got}')
            if x.arg in defaults:
                value = value_of(defaults[x.arg])
                mon.expect(structure.default(value)
                           == structure.default(p.default)
                           and type(value) is type(p.default),
                           f'{key}:default',
                           lambda: f'{text}: {p.name} shows {value!r}')
        got = structure.annotation(value_of(definition.returns))
        mon.expect(got == structure.annotation(s.returns), f'{key}:returns',
                   lambda: f'{text}: {got}')
    except Exception as error:
        mon.violation(f'{key}:evaluate', f'{text}: {error!r}')


def one(mon, ns, s, key, *, evaluate):
    try:
        if hasattr(s, 'signatures'):
            mon.event('overloaded')
            text = str(s)
            mon.expect(text == ' | '.join(map(str, s.signatures)),
                       f'{key}:joined', text)
        for x in getattr(s, 'signatures', (s,)):
            plain(mon, ns, x, key, evaluate=evaluate)
    except Exception as error:
        mon.violation(f'{key}:error', f'{s!r}: {error!r}')


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'P10{seed}/{shard}')
    twins.texts(mon, base, rng, str, TWINS[tier] // shards)
    importlib.import_module('vlib.annotations')
    modules = stdlib.import_all()
    ns = p09.namespace(base)
    # every arrangement of kinds
    for i, params in enumerate(gen.all_lists(4)):
        if i % shards == shard:
            one(mon, ns, gen.plain(params, base, int), 'small', evaluate=True)
    for _ in range(COUNT[tier] // shards):
        sigs = [values.random_sig(rng, evaluable=True, max_length=8,
                                  optional_without_default=False)
                for _ in range(rng.choice((1, 1, 2, 3)))]
        built = [s.build(base, rng, plain=True) for s in sigs]
        one(mon, ns, (built[0] if len(built) == 1
                      else base.OverloadedSignature(*built)), 'generated',
            evaluate=True)
    paths = sorted(stdlib.walk(modules).items())
    for path, value in paths[shard::shards]:
        try:
            signature = base.signature_from_callable(value)
        except (TypeError, ValueError):
            continue
        known = all(
                getattr(p, 'has_default', True) or gen.kind_of(p) not in (0, 1)
                for s in getattr(signature, 'signatures', (signature,))
                for p in s.parameters)
        if not known or not all(
                p.name.isidentifier()
                for s in getattr(signature, 'signatures', (signature,))
                for p in s.parameters):
            mon.event('skipped: no default to show')
            continue
        mon.event('standard library')
        one(mon, ns, signature, 'stdlib',
            evaluate=p09.parts_evaluable(signature))
