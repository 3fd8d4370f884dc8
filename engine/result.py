"""What one property analysis produced on one tree."""
from collections import defaultdict


class Broken(Exception):
    """The analysis lost what it is anchored to (not a verdict)."""


class Result:
    def __init__(self):
        self.violations = {}          # key -> (message, location)
        self.counts = defaultdict(int)
        self.samples = []
        self.rule = ''
        self.notes = {}
        self.broken = []

    def violation(self, key, msg, loc=''):
        self.violations.setdefault(key, (msg, loc))

    def count(self, name, n=1):
        self.counts[name] += n

    def sample(self, s, limit=12):
        if len(self.samples) < limit and s not in self.samples:
            self.samples.append(s)

    def need(self, n, least, what):
        """Fails the analysis (not the property) when it matches too little."""
        if n < least:
            self.broken.append(f'{what}: found {n}, expected at least {least}')

    def merge(self, other, tag):
        for k, v in other.violations.items():
            self.violations.setdefault(k, (v[0] + f' [{tag}]', v[1]))
        self.broken += other.broken
        for k, n in other.counts.items():
            self.counts[f'{k} ({tag})'] += n
