"""Judges printed forms: well-formed JSON (decimal integers) that holds exactly the recorded coordinates under their names."""
import json
import vf


def pairs(kv):
    return ("object", tuple(sorted(kv)))


def value(x, leaf):
    if isinstance(x, tuple):
        return ("object", tuple((k, value(v, leaf)) for k, v in x[1]))
    if isinstance(x, list):
        return [value(v, leaf) for v in x]
    return leaf(x)


def integer(x):
    return x if type(x) is int else None


class PrintOracle(vf.Oracle):
    def event(self, f):
        kind, want, text = f
        site = "printed " + kind.split(" of ")[0]
        self.see("printed " + kind, (kind, want), True)
        self.sample("%s prints %s" % (kind, text[:160]))
        try:
            got = json.loads(text, object_pairs_hook=pairs)
        except ValueError as e:
            return [(site, "%s of %s is not well formed (%s): %s" % (kind, want[:200], e, text[:300]))]
        if value(got, integer) != value(json.loads(want, object_pairs_hook=pairs), lambda h: int(h, 16)):
            return [(site, "%s of %s prints %s" % (kind, want[:300], text[:300]))]
        return []
