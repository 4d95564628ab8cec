"""Job specifications of every property."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TAGS = {
    'd64': [],
    'd32': ['-DCRY_MPI_DIGIT_MAX=4294967295U'],
    'd16': ['-DCRY_MPI_DIGIT_MAX=65535'],
    'd8': ['-DCRY_MPI_DIGIT_MAX=255'],
    'd8q1': ['-DCRY_MPI_DIGIT_MAX=255', '-DCRY_MPI_QUANTUM=1'],
}
PROPS = {}


class Job(object):
    def __init__(self, harness, entry, args=(), tag='d64', tier='quick', limit=240, check_tmo=60, mem=8, hdefs=(),
                 cost=1, validate=True):
        self.harness = harness
        self.entry = entry
        self.args = list(args)
        self.tag = tag
        self.tier = tier
        self.limit = limit
        self.check_tmo = check_tmo
        self.mem = mem
        self.hdefs = tuple(hdefs)
        self.cost = cost
        self.validate = validate
        self.key = '%s:%s%s%s%s' % (harness.split('.')[0], entry, ''.join(',%d' % a for a in self.args),
                                    '' if tag == 'd64' else '@' + tag,
                                    ('+' + '+'.join(hdefs).replace('-D', '')) if hdefs else '')

    def hpath(self):
        return os.path.join(HERE, 'harness', self.harness)


class Prop(object):
    def __init__(self, pid, jobs, bounds, assumptions=(), level='model_checking'):
        self.id = pid
        self.jobs = jobs
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.level = level
        assert pid not in PROPS
        keys = [j.key for j in jobs]
        assert len(set(keys)) == len(keys), (pid, [k for k in keys if keys.count(k) > 1])
        PROPS[pid] = self


import importlib  # noqa: E402
import pkgutil    # noqa: E402
import props      # noqa: E402

for _m in sorted(m.name for m in pkgutil.iter_modules(props.__path__)):
    importlib.import_module('props.' + _m)
