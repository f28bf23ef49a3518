"""Signatures of the same callables in different processes, orders, hash
seeds and builds of stub data."""
import random
from concurrent.futures import ThreadPoolExecutor

from vlib import comparison, twins
from vlib.monitor import Monitor

RULE = ('case = (callable, text of its signature) seen in a process with own '
        'hash seed, order of requests, set and order of imported modules, '
        'interpreter flags and build of stub data, compared with the '
        'reference process; each process also asks again in another order '
        'and compares by ==, hash and repr; besides, callables of users with '
        'equal contents come and go, each has to get its own ones; '
        'distinct = (callable, text)')
MINIMUM = {'process': 9, 'compared': 90000, 'lazy process': 3,
           'cold build': 2, 'building process': 1, 'flags': 1,
           'twin': 2000}
TWINS = {'quick': 600, 'thorough': 20000}
ROOTS = {'quick': 2, 'thorough': 8}
PROCESSES = {'quick': 9, 'thorough': 80}
FLAGS = [(), (), (), ('-O',), ('-OO',), ('-X', 'utf8')]
ENVIRONMENTS = [{}, {}, {'LC_ALL': 'C'}, {'TZ': 'Asia/Tokyo'},
                {'COLUMNS': '20'}, {'PYTHONUTF8': '0', 'LANG': 'C'}]


def drive(ctx):
    mon, errors = Monitor(), []
    rnd = random.Random(ctx.seed)
    root = ctx.warm(ctx.fresh_root('root'))
    reference, code, err = comparison.dump(ctx, root, 'reference')
    if reference is None:
        error = comparison.failed(mon, 'reference', 'reference', code, err)
        return [mon.report(error)]
    mon.event('process')

    def build(i):
        """stub data made under own hash seed, and dump by the same process"""
        seed = random.Random(f'{ctx.seed} build {i}').randrange(1, 2 ** 32)
        other = ctx.fresh_root(f'root{i}')
        data, code, err = comparison.dump(
                ctx, other, f'build{i}', '--seed', seed, '--shuffle',
                PYTHONHASHSEED=seed)
        return other, data, code, err, f'built under hash seed {seed}'

    def ask(i):
        own = random.Random(f'{ctx.seed} process {i}')
        seed = own.randrange(1, 2 ** 32)
        options = ['--seed', seed, '--shuffle', '--repeat']
        lazy = i % 2
        if lazy:
            options += ['--lazy', own.choice([.05, .3, .6])]
        flags = FLAGS[i % len(FLAGS)]
        environment = own.choice(ENVIRONMENTS)
        where = own.choice(roots)
        data, code, err = comparison.dump(
                ctx, where, f'process{i}', *options, flags=flags,
                PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE='1',
                **environment)
        return (data, code, err, lazy, flags,
                f'hash seed {seed}, {options}, {flags}, {environment}, '
                f'{where.name}')

    roots = [root]
    with ThreadPoolExecutor(ctx.cpus) as pool:
        for other, data, code, err, label in pool.map(
                build, range(ROOTS[ctx.tier])):
            if data is None:
                errors.append(comparison.failed(mon, 'build', label, code,
                                                err))
                continue
            roots.append(other)
            mon.event('process')
            mon.event('cold build')
            mon.event('building process')
            comparison.compare(mon, reference, data, 'differs', label)
        for data, code, err, lazy, flags, label in pool.map(
                ask, range(PROCESSES[ctx.tier])):
            if data is None:
                errors.append(comparison.failed(mon, 'process', label, code,
                                                err))
                continue
            mon.event('process')
            mon.event('lazy process', bool(lazy))
            mon.event('flags', bool(flags))
            mon.event('asked again', len(data['texts']))
            comparison.compare(mon, reference, data, 'differs', label)
    return [mon.report(next(filter(None, errors), None)),
            *ctx.shards(2, root=root)]


def work(mon, *, tier, seed, shard, shards):
    from paradigm import base
    rng = random.Random(f'P17{seed}/{shard}')
    twins.requests(mon, base, rng, TWINS[tier])
