"""Child process of P08: loads pickles, describes and re-pickles them."""
import pickle
import re
import sys

# functions are pickled by reference, but have an address in their repr
ADDRESS = re.compile('0x[0-9a-f]+')


def main():
    with open(sys.argv[1], 'rb') as f:
        items = pickle.load(f)
    import vlib.annotations  # noqa: what the pickles refer to
    result = []
    for parts, data, calls in items:
        try:
            for part in parts:
                pickle.loads(part)
        except Exception as error:
            result.append(('unpicklable', repr(error)))
            continue
        try:
            value = pickle.loads(data)
            result.append(('ok', describe(value, calls),
                           [pickle.dumps(value, p)
                            for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]))
        except Exception as error:
            result.append(('error', repr(error)))
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(result, f)


def describe(value, calls):
    answers = []
    if hasattr(value, 'bind'):
        for nargs, kw in calls:
            args, kwargs = (0,) * nargs, dict.fromkeys(kw, 0)
            answers.append((value.expects(*args, **kwargs),
                            value.all_set(*args, **kwargs)))
            try:
                answers.append(repr(value.bind(*args, **kwargs)))
            except TypeError as error:
                answers.append('TypeError')
    elif hasattr(value, 'has_default'):
        answers.append(value.has_default)
        if value.has_default:
            answers.append(repr(value.default))
    return (type(value).__name__, ADDRESS.sub('0x', repr(value)),
            ADDRESS.sub('0x', str(value)),
            [ADDRESS.sub('0x', a) if isinstance(a, str) else a
             for a in answers])


if __name__ == '__main__':
    main()
