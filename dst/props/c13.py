"""C13: stage grouping partitions a stream whatever the consumer and the source do."""
from fractions import Fraction

from .. import repo
from ..core import sut, expect, expect_eq

ID = "C13"
RUNS = {"quick": 20000, "thorough": 1500000}
CPU_LIMIT = 20
RULE = ("a case is a seeded stream (values, and errors of the source between them) over seeded stages and a seeded consumer "
        "schedule: next group, read some of the newest or of an older group, drop a group, go on after an error, read past "
        "the end; every answer and the number of elements taken are compared with the partition computed from the definition; "
        "non-trivial: at least two groups were started")
REAL = ["mahjong.record.stage"]
STUB = ["the source of the stream (yields, fails once and recovers, counts what is taken)", "the consumer"]
ASSUMPTIONS = ["the stages are distinct", "a source that ended stays ended; a source that failed goes on with the next element"]
STATE_MEASURE = "distinct (kind of group, how it was consumed, fault, stages) tuples"
MUST_FIRE = ["source-error-in-group", "source-error-between-groups", "stale-read", "skipped-rest", "unread-group", "unknown-key",
             "multi-stage", "past-end", "late-read", "no-key-function", "empty-stream", "no-stages", "equal-not-same", "label-changed"]
class Label:
    """a key that is equal to another one made alike"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Label) and other.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<%s>" % self.name


def again(x):
    """an equal object that is not the same one, where the type has such"""
    if isinstance(x, Label):
        return Label(x.name)
    if isinstance(x, tuple):
        return tuple([y for y in x])
    if isinstance(x, str):
        return "".join(list(x))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return float(x)
    if isinstance(x, float):
        return Fraction(x)
    return x


KEYS = [["A", "B", "C", "D"], [True, False], [0, 1, 2, 3], [None, "", 0], [("x", 1), ("x", 2), ("y", 0)], ["INIT", "T", "D"],
        [Label("A"), Label("B"), Label("C")]]
OUT = ["zz", -7, ("out",), 3.5, Label("out")]


def gen(rng, tier, k):
    keys = rng.choice(KEYS)
    stages = rng.sample(range(len(keys)), rng.choice([0, 1, len(keys), len(keys), rng.randint(0, len(keys))]))
    n = rng.choice([0, 1, 2, 5, 10, 20, 20, 40])
    calm, stay = rng.random(), rng.random()
    src, at = [], rng.randrange(len(keys))
    perr = rng.choice([0, 0, 0.05, 0.3])
    pout = rng.choice([0, 0.1, 0.4])
    for _ in range(n):
        if rng.random() < perr:
            src.append("e")
        if rng.random() >= stay:
            r = rng.random()
            if r < pout:
                at = len(keys) + rng.randrange(len(OUT))
            elif r < 0.5 + calm / 2 and stages and at in stages and stages.index(at) + 1 < len(stages):
                at = stages[stages.index(at) + 1]
            else:
                at = rng.randrange(len(keys))
        src.append(at)
    if rng.random() < perr:
        src.append("e")
    ops = []
    greedy = rng.choice([0.3, 0.6, 0.9])
    for _ in range(rng.choice([3, n + 3, 3 * n + 5])):
        r = rng.random()
        if r >= greedy:
            ops.append(["next", rng.choice([0, 0, 0, 2, 3])])
        elif r < 0.12:
            ops.append(["old", rng.randint(1, 3)])
        elif r < 0.3:
            ops.append(["list", 0])
        else:
            ops.append(["read", rng.randint(1, 3)])
    return {"keys": KEYS.index(keys), "stages": stages, "src": src, "ops": ops, "fn": rng.random() < 0.7,
            "fresh": rng.random() < 0.5}


def lists(sc):
    return [["ops"], ["src"], ["stages"]]


def simplify(sc):
    if sc["fn"]:
        yield dict(sc, fn=False)
    if sc.get("fresh"):
        yield dict(sc, fresh=False)


def describe(sc):
    names = KEYS[sc["keys"]] + OUT
    return {"stages": [repr(names[s]) for s in sc["stages"]],
            "source": ["error" if x == "e" else repr(names[x]) for x in sc["src"]], "consumer": sc["ops"], "key": sc["fn"]}


def warmup():
    repo.mod("mahjong.record.stage")


class SourceFault(Exception):
    pass


class Element:
    __slots__ = ("key", "i")

    def __init__(self, key, i):
        self.key, self.i = key, i

    def __repr__(self):
        return "#%d:%r" % (self.i, self.key)


class Source:
    def __init__(self, script):
        self.script, self.at, self.taken = script, 0, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.at >= len(self.script):
            raise StopIteration
        x = self.script[self.at]
        self.at += 1
        if isinstance(x, SourceFault):
            raise x
        self.taken += 1
        return x


def ask(it, what):
    """what one step of an iterator does"""
    def step():
        try:
            return "value", next(it)
        except SourceFault as e:
            return "fault", e
        except StopIteration:
            return "end", None
    return sut(step, what=what)


def ex(cond, kind, text, *args):
    expect(cond, kind, lambda: text % args)


def partition(ks, stages):
    """positions of each group, from the definition: longest run that never goes back / run of equal keys"""
    out, i = [], 0
    while i < len(ks):
        j = i + 1
        if ks[i] in stages:
            while j < len(ks) and ks[j] in stages and stages.index(ks[j]) >= stages.index(ks[j - 1]):
                j += 1
        else:
            while j < len(ks) and ks[j] == ks[i]:
                j += 1
        out.append((i, j))
        i = j
    return out


def run(sc, st):
    names = KEYS[sc["keys"]] + OUT
    stages = [names[s] for s in sc["stages"]]
    script, ks, errors = [], [], []       # errors[i]: fault objects right before value i
    pend = []
    for x in sc["src"]:
        if x == "e":
            f = SourceFault("source failed before element %d (%d)" % (len(ks), len(pend)))
            script.append(f)
            pend.append(f)
        else:
            key = again(names[x]) if sc.get("fresh") and len(ks) % 3 != 2 else names[x]
            script.append(Element(key, len(ks)) if sc["fn"] else key)
            ks.append(names[x])
            errors.append(pend)
            pend = []
    errors.append(pend)
    if sc.get("fresh"):
        st.probe("equal-not-same")
    values = [x for x in script if not isinstance(x, SourceFault)]
    groups = partition(ks, stages)
    st.log("stream", [repr(k) for k in ks], "groups", groups)
    if not ks:
        st.probe("empty-stream")
    if not stages:
        st.probe("no-stages")
    if not sc["fn"]:
        st.probe("no-key-function")
    S = repo.mod("mahjong.record.stage").StageGroupby
    src = Source(script)
    it = sut(S, src, *stages, key=(lambda e: e.key) if sc["fn"] else None, what="create")
    g = -1                     # index of the newest group
    old = []
    cur = None                 # its iterator
    pos = 0                    # next position of the newest group to be delivered
    done = True                # newest group delivers nothing more
    taken = 0                  # values taken from the source so far, at most
    limbo = False              # a step to the next group failed: neither here nor there

    for op, k in sc["ops"]:
        if op == "next":
            start = groups[g + 1][0] if g + 1 < len(groups) else len(ks)
            # everything up to and including the first element of the next group is taken
            fault = None
            while taken <= start:
                if errors[taken]:
                    fault = errors[taken].pop(0)
                    break
                if taken == len(ks):
                    break
                taken += 1
            kind, got = ask(it, "next group")
            st.log("next ->", kind, repr(got[0]) if kind == "value" else got, "taken", src.taken)
            if fault is not None:
                st.fault("source-error-between-groups")
                ex(kind == "fault" and got is fault, "fault-lost", "next group met %r but gave %s %r", fault, kind, got)
                limbo = True
            elif g + 1 < len(groups):
                ex(kind == "value", "groups-missing", "group %d of %r is missing: %s %r", g + 1, groups, kind, got)
                if cur is not None:
                    old.append(cur)
                    if pos == groups[g][0]:
                        st.probe("unread-group")
                    elif pos < groups[g][1]:
                        st.probe("skipped-rest")
                g += 1
                key0 = ks[groups[g][0]]
                wantkey = stages[stages.index(key0):] if key0 in stages else key0
                ex(type(got) is tuple and len(got) == 2, "no-group", "next gave %r", got)
                ex(got[0] == wantkey and isinstance(got[0], list) == isinstance(wantkey, list), "wrong-key", "group %d of %r is labelled %r, expected %r", g,
                       groups, got[0], wantkey)
                cur, pos, done, limbo = got[1], groups[g][0], False, False
                if k > 1 and type(got[0]) is list:
                    # the label is the consumer's, to keep or to change
                    got[0].clear() if k == 2 else got[0].reverse()
                    st.probe("label-changed")
                if key0 not in stages:
                    st.probe("unknown-key")
                if len({repr(x) for x in ks[groups[g][0]:groups[g][1]]}) > 1:
                    st.probe("multi-stage")
                st.nontrivial = st.nontrivial or g >= 1
            else:
                ex(kind == "end", "extra-group", "after the last group came %s %r", kind, got)
                st.probe("past-end")
                limbo = True
        elif op == "old":
            if not old:
                continue
            st.probe("stale-read")
            for o in old[-k:]:
                kind, got = ask(o, "read old group")
                ex(kind == "end", "stale-group", "a group left behind still gives %s %r", kind, got)
        else:
            if cur is None or limbo:
                continue
            for _ in range(len(ks) + 1 if op == "list" else k):
                fault, value, end = None, None, done
                if not done:
                    a, b = groups[g]
                    if pos > a:      # needs the following value (or the end) to be taken
                        while taken <= pos:
                            if errors[taken]:
                                fault = errors[taken].pop(0)
                                break
                            if taken == len(ks):
                                break
                            taken += 1
                    if fault is None:
                        if pos < b:
                            value = values[pos]
                            pos += 1
                        else:
                            done = end = True
                    else:
                        done = True
                else:
                    st.probe("late-read")
                kind, got = ask(cur, "read group")
                st.log("read ->", kind, repr(got))
                if fault is not None:
                    st.fault("source-error-in-group")
                    ex(kind == "fault" and got is fault, "fault-lost", "group %d met %r but gave %s %r", g, fault, kind, got)
                elif end:
                    ex(kind == "end", "group-too-long", "group %d of %r goes on with %s %r", g, groups, kind, got)
                else:
                    ex(kind == "value" and got is value, "wrong-element", "group %d of %r: expected %r, got %s %r", g, groups,
                           value, kind, got)
                st.state(key0 in stages, op, fault is not None, end, len(stages))
                if kind != "value":
                    break
        ex(src.taken <= taken, "too-eager", "%d values were taken from the source when %d were needed", src.taken, taken)

