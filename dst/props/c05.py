"""C05: replayed states are immutable snapshots."""
from .. import server, table, repo, sched
from ..core import sut, judge, expect, expect_eq, Violation, SimCancel

ID = "C05"
RUNS = {"quick": 900, "thorough": 40000}
CPU_LIMIT = 60
RULE = ("a case is one simulated log whose commands several replays of shared executors consume in a seeded interleaving "
        "with abandonment, restart and cancellation, followed by a tree of edits branching off any version reached, with "
        "grafted values, cancelled edits and attempted in-place changes; non-trivial: at least two replays or five edits")
REAL = ["mahjong.record.universe.executor", "mahjong.record.universe.command", "mahjong.record.universe.interpreter",
        "mahjong.record.universe.tenhou"]
STUB = ["Tenhou server and clients (dst/server.py)"]
ASSUMPTIONS = ["a state is a nested map: the lists held in it are values, which nobody but the code under test touches"]
STATE_MEASURE = "distinct (depth, operation, kind of key, kind of value) tuples"
MUST_FIRE = ["set", "drop", "setdefault", "setdefault-existing", "mutate", "graft", "cancelled", "abandoned", "interleaved",
             "strict", "branch-old"]
NAMES = ("mahjong.record.universe.tenhou", "mahjong.record.reader", "mahjong.record.universe.executor")
KEYS = ["a", "b", "c", 0, 1, ":hand", ":score", ":wind"]
MUTATORS = ["setitem", "delitem", "pop", "popitem", "update", "clear", "delattr", "ior"]


def gen(rng, tier, k):
    log = server.generate(rng, rounds=rng.choice([1, 1, 2]), max_turns=rng.choice([1, 4, 10, 10, 24, None]))
    replays = [{"ex": rng.randrange(2), "strict": rng.random() < 0.5} for _ in range(rng.randint(1, 4))]
    n = rng.choice([1, 10, 100, 1000])
    steps = [[rng.randrange(len(replays)), rng.choices(["next", "restart", "cancel"], [20, 1, 1])[0], rng.randint(1, n)]
             for _ in range(rng.randint(2, 30))]
    edits = []
    for _ in range(rng.choice([5, 20, 60])):
        op = rng.choices(["set", "drop", "setdefault", "mutate", "cancel"], [8, 3, 3, 3, 1])[0]
        # version: negative counts from the end (the newest one)
        ver = rng.choice([-1, -1, rng.randrange(100)])
        path = [rng.randrange(8) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        key = rng.choice(KEYS)
        val = rng.choice([1, "x", None, [1, 2], [], {}, {"a": 1}, {"a": {"b": {"c": [3]}}}, {"b": {}},
                          ["graft", rng.randrange(100), [rng.randrange(8) for _ in range(rng.choice([0, 1, 2]))]]])
        edits.append([op, ver, path, key, val, rng.choice(MUTATORS), rng.randint(1, 60)])
    return {"log": log, "replays": replays, "steps": steps, "edits": edits, "plain": rng.random() < 0.5,
            "init": rng.choice([{}, {"a": {"b": {"c": 1}}, "b": 2}, {"a": {"a": {}, "b": {"a": [1]}}, "c": {"a": 0}}])}


def lists(sc):
    return [["edits"], ["steps"], ["replays"]] + table.log_lists(sc["log"])


def simplify(sc):
    for lg in table.log_simplify(sc["log"]):
        yield dict(sc, log=lg)


def describe(sc):
    return {"replays": sc["replays"], "steps": len(sc["steps"]), "edits": sc["edits"][:5]}


def warmup():
    repo.quiet()
    for m in NAMES:
        repo.mod(m)


def plain(x):
    """nested map -> nested dict (deep copy)"""
    if hasattr(x, "keys") and hasattr(x, "__getitem__"):
        return {k: plain(x[k]) for k in list(x.keys())}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def key_of(k):
    if isinstance(k, str) and k.startswith(":"):
        F = repo.mod("mahjong.record.universe.format")
        return F.GameView.wind if k == ":wind" else F.PlayerView[k[1:]]
    return k


def same(got, want, kind, ctx):
    if got != want:
        raise Violation(kind, "%s: %s" % (ctx() if callable(ctx) else ctx, diff(got, want)))


def diff(a, b, path=()):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                return "%s is missing, should be %r" % (path + (k,), b[k])
            if k not in b:
                return "%s should not exist, is %r" % (path + (k,), a[k])
            if a[k] != b[k]:
                return diff(a[k], b[k], path + (k,))
    return "%s is %r, should be %r" % (path, a, b)


class Model:
    """fold of commands over nested maps, apart from the executor"""

    def __init__(self):
        F = repo.mod("mahjong.record.universe.format")
        self.F = F
        self.d = {"global": {"time": {}}, F.ViewScope.game: {"single": {}}, F.ViewScope.record: {"single": {}},
                  F.ViewScope.player: {p: {} for p in F.PlayerId}}

    def apply(self, c):
        F = self.F
        d = {k: dict(v) for k, v in self.d.items()}
        scope, prop, upd = c.prop.scope, c.prop.view_property, c.prop.update_method.name
        sub = F.PlayerId(c.sub_scope_id) if scope == F.ViewScope.player else "single"
        part = dict(d[scope][sub])
        if upd in ("REPLACE", "ASSERT_EQUAL_OR_SET"):
            part[prop] = c.value
        elif upd == "ADD":
            part[prop] = part[prop] + c.value
        elif upd == "REMOVE":
            if isinstance(part[prop], list):
                left = list(part[prop])
                for v in c.value:
                    left.remove(v)
                part[prop] = left
            else:
                part[prop] = part[prop] - c.value
        elif upd == "RESET_DEFAULT":
            part[prop] = 0 if prop in (F.PlayerView.round,) else []
        d[scope][sub] = part
        d["global"]["time"] = {"timestamp": c.timestamp}
        self.d = d
        return d


def run(sc, st):
    xml = table.xml_of(sc["log"])
    st.log(xml)
    T = repo.mod("mahjong.record.universe.tenhou")
    X = repo.mod("mahjong.record.universe.executor")
    commands = sut(T.to_commands, repo.load(xml))
    with judge("commands"):
        before = [(c.timestamp, c.event, c.sub_scope_id, c.prop.view_property, c.prop.update_method, plain(c.value),
                   plain(c.state)) for c in commands]
        m = Model()
        truth = [plain(m.apply(c)) for c in commands]
    st.sim_time += len(before) * 1.0
    versions = []      # (object, model)
    executors = [sut(X.GameExecutor, strict_mode=s) for s in (False, True)]
    with judge("initial"):
        empty = [plain(e.states) for e in executors]
    live, pos, keep, order = {}, {}, [], []

    def advance(i, n):
        ex = executors[1 if sc["replays"][i]["strict"] else 0]
        if i not in live:
            live[i], pos[i] = iter(sut(ex.execute, commands)), 0
            keep.append(live[i])
        for _ in range(n):
            try:
                s = next(live[i])
            except StopIteration:
                expect_eq(pos[i], len(commands), "states-missing", "replay %d" % i)
                del live[i]
                return
            except (Violation, MemoryError):
                raise
            except Exception as e:
                raise Violation("replay-raised", "replay %d command %d: %s %s" % (i, pos[i], type(e).__name__, e))
            expect(pos[i] < len(commands), "states-extra", "replay %d" % i)
            with judge("state"):
                same(plain(s), truth[pos[i]], "other-state", lambda: "replay %d after command %d" % (i, pos[i]))
            if len(versions) < 3000:
                versions.append((s, truth[pos[i]]))
            pos[i] += 1

    for i, op, n in sc["steps"]:
        if not sc["replays"]:
            break
        i %= len(sc["replays"])
        if sc["replays"][i]["strict"]:
            st.probe("strict")
        if op == "restart":
            if live.pop(i, None) is not None:
                st.fault("abandoned")
        elif op == "cancel":
            if i in live:
                it = live.pop(i)
                _, err, c, lines = sched.run_with_cancel(lambda: next(it, None), n)
                if c:
                    st.fault("cancelled")
        else:
            advance(i, n)
            order.append(i)
        st.log(i, op, pos.get(i))
    if len(set(order)) > 1:
        st.probe("interleaved")
    for i in sorted(live):
        advance(i, len(commands) + 1)
    if sc["plain"] or not versions:
        init = {key_of(k): v for k, v in sc["init"].items()}
        nested = X.TransferDict(init)
        versions.append((nested, plain(init)))
    edits(sc, st, X, versions)
    # nothing changed meanwhile
    with judge("old-version"):
        for v, (s, want) in enumerate(versions):
            same(plain(s), want, "version-changed", lambda: "version %d" % v)
        for e, want in zip(executors, empty):
            same(plain(e.states), want, "executor-changed", "initial state of an executor")
        after = [(c.timestamp, c.event, c.sub_scope_id, c.prop.view_property, c.prop.update_method, plain(c.value),
                  plain(c.state)) for c in commands]
        for i, (a, b) in enumerate(zip(after, before)):
            expect(a == b, "command-changed", lambda: "command %d: %r was %r" % (i, a, b))
    # one executor serves another replay
    if sc["replays"]:
        i = 0
        live.pop(0, None)
        advance(0, len(commands) + 1)
    st.nontrivial = len(sc["replays"]) > 1 or len(sc["edits"]) > 4


def locate(versions, ver, path):
    """walk down as far as the path leads -> object, model, keys"""
    obj, model = versions[ver % len(versions)] if ver >= 0 else versions[ver]
    keys = []
    for p in path:
        subs = [k for k in model if isinstance(model[k], dict)]
        if not subs:
            break
        k = subs[p % len(subs)]
        obj, model = obj[k], model[k]
        keys.append(k)
    return obj, model, keys


def put(root, keys, fn):
    root = dict(root)
    if not keys:
        return fn(root)
    root[keys[0]] = put(root[keys[0]], keys[1:], fn)
    return root


def edits(sc, st, X, versions):
    for op, ver, path, key, val, mut, n in sc["edits"]:
        key = key_of(key)
        root = versions[ver % len(versions)][1] if ver >= 0 else versions[ver][1]
        if ver >= 0:
            st.probe("branch-old")
        with judge("navigation"):
            obj, model, keys = locate(versions, ver, path)
        vm = val
        if isinstance(val, list) and val and val[0] == "graft":
            with judge("navigation"):
                val, vm, _ = locate(versions, val[1], val[2])
            st.probe("graft")
        elif isinstance(val, (dict, list)):
            val, vm = plain(val), plain(val)
        if op in ("drop", "cancel") or mut in ("delitem", "pop"):
            if key not in model and model:
                key = sorted(model, key=str)[n % len(model)]
        st.state(len(keys), op, mut if op == "mutate" else "", type(key).__name__, type(val).__name__, key in model)
        ctx = lambda: "%s %r=%r at %s of a version" % (op, key, vm, keys)
        if op == "set":
            new = sut(obj.set, key, val, what="set")
            want = put(root, keys, lambda d: dict(d, **{}) | {key: vm})
        elif op == "drop":
            if key not in model:
                try:
                    obj.drop(key)
                except (KeyError, Exception):
                    pass
                continue
            new = sut(obj.drop, key, what="drop")
            want = put(root, keys, lambda d: {k: v for k, v in d.items() if k != key})
        elif op == "setdefault":
            if key in model:
                st.probe("setdefault-existing")
                want = root
            else:
                want = put(root, keys, lambda d: d | {key: vm})
            new = sut(obj.setdefault, key, val, what="setdefault")
        elif op == "cancel":
            _, err, c, _ = sched.run_with_cancel(lambda: obj.set(key, val), n)
            if c:
                st.fault("cancelled")
            with judge("state"):
                same(plain(obj), model, "changed-by-cancelled", ctx)
            continue
        else:
            st.fault("mutate")
            raised = False
            try:
                if mut == "setitem":
                    obj[key] = 5
                elif mut == "delitem":
                    del obj[key]
                elif mut == "pop":
                    obj.pop(key)
                elif mut == "popitem":
                    obj.popitem()
                elif mut == "update":
                    obj.update({key: 5})
                elif mut == "clear":
                    obj.clear()
                elif mut == "delattr":
                    del obj.nested_dict
                elif mut == "ior":
                    o = obj
                    o |= {key: 5}
            except Exception:
                raised = True
            with judge("state"):
                same(plain(obj), model, "mutated", lambda: mut + " " + ctx())
            expect(raised, "mutation-accepted", lambda: mut + " " + ctx())
            continue
        st.probe(op)
        with judge("state"):
            same(plain(new), want, "edit-result", ctx)
            same(plain(obj), model, "edit-changed-source", ctx)
            # readers agree with one another
            o, m, _ = locate([(new, want)], 0, path)
            for k in list(m):
                expect(k in o and plain(o.get(k, "no")) == m[k], "reader", ctx)
            expect_eq(len(list(o.items())), len(m), "reader", ctx)
        versions.append((new, want))
        st.log(op, keys, str(key), len(versions))
