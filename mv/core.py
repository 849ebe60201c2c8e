"""Verdict bookkeeping shared by all checks."""
from __future__ import annotations
import hashlib, json, random, traceback
from dataclasses import dataclass, field


def key64(obj) -> int:
    s = obj if isinstance(obj, str) else json.dumps(obj, sort_keys=True, default=str)
    return int.from_bytes(hashlib.blake2b(s.encode('utf8', 'surrogatepass'), digest_size=8).digest(), 'big')


def rng(*parts) -> random.Random:
    return random.Random('|'.join(str(p) for p in parts))


@dataclass
class Result:
    """What one worker observed: counts, distinct non-trivial cases, violations, inconclusive runs."""
    evaluations: int = 0
    distinct: set = field(default_factory=set)
    counters: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)
    violations: list = field(default_factory=list)
    inconclusive: list = field(default_factory=list)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key=None, nontrivial=True, sample=None):
        self.evaluations += 1
        if key is not None and nontrivial:
            self.distinct.add(key64(key))
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def violate(self, mech, msg, case):
        if len(self.violations) < 20:
            self.violations.append(dict(mech=mech, msg=str(msg)[:4000], case=case))
        self.count('violations_seen')

    def unsure(self, msg):
        self.inconclusive.append(str(msg)[:500])

    def merge(self, other: 'Result'):
        self.evaluations += other.evaluations
        self.distinct |= other.distinct
        for k, v in other.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples.extend(other.samples)
        self.violations.extend(other.violations)
        self.inconclusive.extend(other.inconclusive)


def short_tb(ex: BaseException, n=3) -> str:
    tb = traceback.extract_tb(ex.__traceback__)[-n:]
    loc = ' <- '.join(f'{t.filename.split("/")[-1]}:{t.name}' for t in reversed(tb))
    return f'{type(ex).__name__}: {ex} [{loc}]'


def quiet_logs():
    """The code under test logs through loguru; the monitors do not read it."""
    from loguru import logger
    logger.remove()
