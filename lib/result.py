"""What a check hands back to the driver."""
from ir import AnalysisBroken


class F:
    __slots__ = ("rule", "key", "where", "text")

    def __init__(self, rule, key, where, text):
        self.rule, self.key, self.where, self.text = rule, key, where, text


class Result:
    def __init__(self, explanation, rule, level="other"):
        self.level = level
        self.explanation = explanation
        self.rule = rule
        self.findings = []
        self.counts = {}
        self.instances = {}      # obligation kind -> list of instance texts
        self.minimum = {}
        self.assumptions = []
        self._seen = set()

    def ob(self, kind, text):
        """one obligation examined"""
        self.instances.setdefault(kind, []).append(text)

    def need(self, kind, n):
        """fewer instances than this means the analysis lost its anchors"""
        self.minimum[kind] = n

    def count(self, k, n):
        self.counts[k] = n

    def bad(self, rule, key, where, text):
        if key not in self._seen:
            self._seen.add(key)
            self.findings.append(F(rule, key, where, text))

    def total(self):
        return sum(len(v) for v in self.instances.values())

    def finish(self):
        self.findings.sort(key=lambda f: (f.rule, f.where, f.key))
        if not self.findings:
            for k, n in self.minimum.items():
                have = len(self.instances.get(k, ()))
                if have < n:
                    raise_broken("only %d instances of '%s' found (at least %d expected): the anchors of the rule are gone" % (have, k, n))

    def coverage(self):
        c = {"explanation": self.explanation, "rule": self.rule}
        c["obligations"] = self.total()
        c["discharged"] = max(0, self.total() - len(self.findings))
        c["by_kind"] = {k: len(v) for k, v in sorted(self.instances.items())}
        c["samples"] = [("%s: %s" % (k, x)) for k, v in sorted(self.instances.items()) for x in v[:6]]
        c.update(self.counts)
        return c


def raise_broken(msg):
    raise AnalysisBroken(msg)
