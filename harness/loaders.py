"""Data loaders of a user, found by the dynamic data loader."""
import hashlib
import json

from causy.data_loader import AbstractDataLoader


# numbers that only survive unrounded; the option shift replaces a number by a later one
VALUES = [0, 1, -2.5, 1e-12, 123456789.12345679, 0.1, 1e300, -7, 3, 16777217, 0.30000000000000004]


class TableLoader(AbstractDataLoader):
    def __init__(self, path, shift=0, note=None):
        self.path, self.shift = path, shift
        self.reference, self.options = path, None

    def load(self):
        with open(self.path) as f:
            for row in json.load(f):
                yield {k: VALUES[VALUES.index(v) + self.shift] for k, v in row.items()}

    def hash(self):
        with open(self.path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
