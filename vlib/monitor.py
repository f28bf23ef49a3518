import hashlib
import json
import traceback


class Monitor:
    """Collects what the oracles observed."""
    MAX_VIOLATIONS = 200

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.events = {}
        self.notes = []
        self._violation_keys = {}

    def event(self, name, count=1):
        self.events[name] = self.events.get(name, 0) + count

    def case(self, canonical, *, nontrivial=True, sample=None):
        """one evaluated case; canonical identifies it among distinct ones"""
        self.evaluations += 1
        if nontrivial:
            h = hash_of(canonical)
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 12 and (
                        len(self.distinct) % 37 == 1 or sample is not None):
                    self.samples.append(str(sample if sample is not None
                                            else canonical)[:500])

    def violation(self, key, detail):
        """key names the mechanism / place, detail has the witness"""
        key = '_'.join(str(key).split())
        n = self._violation_keys.get(key, 0)
        self._violation_keys[key] = n + 1
        if n < 3 and len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append({'key': key, 'detail': str(detail)[:4000]})

    def expect(self, condition, key, detail):
        if not condition:
            self.violation(key, detail() if callable(detail) else detail)
        return condition

    def report(self, error=None):
        return {'evaluations': self.evaluations,
                'distinct': sorted(self.distinct), 'samples': self.samples,
                'violations': self.violations, 'events': self.events,
                'notes': self.notes, 'error': error}


def hash_of(value):
    return hashlib.blake2b(str(value).encode('utf-8', 'backslashreplace'),
                           digest_size=8).hexdigest()


def format_error(error):
    return ''.join(traceback.format_exception(type(error), error,
                                              error.__traceback__))[-3000:]
