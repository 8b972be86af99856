"""Shared vocabulary of the checks."""


class Violation(Exception):
    """The property does not hold on this case.  `key` names the failure kind
    (used only to match entries of known_findings.json)."""

    def __init__(self, msg, key=""):
        super().__init__(msg)
        self.key = key


def require(cond, msg, key=""):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Sub:
    """One generated-input search: a strategy of JSON-able cases and the check run on each.

    run(case, comm) returns a dict {"nontrivial": bool, ...} or raises Violation.
    """

    def __init__(self, name, strategy, run, share=1.0, min_examples=5, max_examples=100000, warm=()):
        self.name, self.strategy, self.run = name, strategy, run
        self.share, self.min_examples, self.max_examples = share, min_examples, max_examples
        self.warm = list(warm)      # cases run before the clock starts (they pay for compilation)


class Group:
    """Sub-checks run in one kind of process: `ranks` MPI ranks, `shards` processes."""

    def __init__(self, name, subs, ranks=1, shards=3, threads=2, env=None):
        self.name, self.subs, self.ranks = name, subs, ranks
        self.shards, self.threads, self.env = shards, threads, env or {}
