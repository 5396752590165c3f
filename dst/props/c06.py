"""C06: exported tables reload to the same commands and states."""
import json

from .. import server, table, repo, disk
from ..core import sut, judge, expect, expect_eq, Violation
from .c05 import plain

ID = "C06"
RUNS = {"quick": 340, "thorough": 12000}
CPU_LIMIT = 120
RULE = ("a case is one simulated short log with hostile names, exported as a command table and/or a state table through a "
        "faulty disk and reloaded through a faulty disk, then again without faults; non-trivial: a table was reloaded")
REAL = ["mahjong.record.universe.*", "mahjong.record.util_functions", "pandas CSV writer and reader"]
STUB = ["Tenhou server and clients (dst/server.py)", "disk (dst/disk.py: real scratch files behind faulty file objects)"]
ASSUMPTIONS = ["text typed properties are compared as text (a rating of 2000.5 reloads as '2000.5')"]
STATE_MEASURE = "distinct (table, writer, kinds of faults fired, outcome, operation that failed) tuples"
MUST_FIRE = ["disk-eio-write", "disk-eio-read", "disk-eio-close", "disk-eio-open", "disk-enospc", "disk-short", "reloaded",
             "write-failed", "read-failed", "state-table", "overwrite"]
NAMES = ("mahjong.record.universe.tenhou", "mahjong.record.reader", "mahjong.record.universe.executor",
         "mahjong.record.util_functions")


def gen(rng, tier, k):
    log = server.generate(rng, rounds=1, max_turns=rng.choice([1, 2, 4, 9]), plain_names=rng.random() < 0.1,
                          force={"unknown": rng.choice([0, 0, 0.03])})
    return {"log": log, "what": rng.choice(["commands", "commands", "states"]),
            "writer": rng.choice(["direct", "records", "util"]), "old": rng.random() < 0.3,
            "wplan": disk.plan(rng, 12, ["eio", "enospc", "short", "eacces", "short"], rng.choice([0, 0, 1, 1, 2])),
            "rplan": disk.plan(rng, 10, ["eio", "short", "eacces", "eio"], rng.choice([0, 1, 1, 2]))}


def lists(sc):
    return [["wplan"], ["rplan"]] + table.log_lists(sc["log"])


def simplify(sc):
    for lg in table.log_simplify(sc["log"]):
        yield dict(sc, log=lg)


def describe(sc):
    return {"what": sc["what"], "writer": sc["writer"], "names": sc["log"]["un"]["names"], "wplan": sc["wplan"],
            "rplan": sc["rplan"]}


def warmup():
    repo.quiet()
    for m in NAMES:
        repo.mod(m)


def kind_of(x):
    return bool if isinstance(x, bool) else str if isinstance(x, str) else list if isinstance(x, list) else None


def missing(x):
    return x is None or (isinstance(x, float) and x != x)


def textual(prop, val):
    F = repo.mod("mahjong.record.universe.format")
    if prop.type in F.ViewType.str:
        return str(val)
    return val


def run(sc, st):
    steps = table.play(sc["log"])
    xml = table.xml_of(sc["log"], steps)
    st.log(xml)
    T = repo.mod("mahjong.record.universe.tenhou")
    X = repo.mod("mahjong.record.universe.executor")
    C = repo.mod("mahjong.record.universe.command")
    U = repo.mod("mahjong.record.util_functions")
    cmds = sut(T.to_commands, repo.load(xml))
    states = sc["what"] == "states"
    if states:
        st.probe("state-table")
        truth = [plain(s) for s in sut(lambda: list(X.GameExecutor().execute(cmds)), what="execute")]

    def frame():
        if sc["writer"] == "util":
            a, b = U.parse_dataframe_from_tenhou_record(repo.load(xml), return_state=True) if states else (
                U.parse_dataframe_from_tenhou_record(repo.load(xml), return_state=False), None)
            return b if states else a
        if states:
            return X.GameExecutor().execute_as_dataframe(cmds)
        if sc["writer"] == "records":
            import pandas
            return pandas.DataFrame(T.to_command_records(repo.load(xml)))
        return C.GameCommand.to_dataframe(cmds)

    df = sut(frame, what="export")
    reader = X.GameExecutor.read_clean_csv if states else C.GameCommand.read_clean_csv

    def compare(df2, ctx):
        with judge("reloaded"):
            if states:
                compare_states(df2, truth, ctx)
            else:
                compare_commands(df2, C, cmds, ctx)

    d = disk.Disk(sc["wplan"], st)
    try:
        path = d.path("table.csv")
        if sc["old"]:
            d.put("table.csv", b"old,content\n1,2\n" * 2000)
            st.probe("overwrite")
        outcome = "written"
        with d:
            try:
                df.to_csv(path)
            except OSError:
                outcome = "write-failed"
            except Exception as e:
                raise Violation("raised:to_csv:" + type(e).__name__, str(e))
            hard = [f for f in d.fired if not f.startswith("short")]
            expect(outcome == "write-failed" or not hard, "write-error-hidden", lambda: repr(d.fired))
            expect(outcome == "written" or hard, "write-error-invented", lambda: repr(d.fired))
        st.probe(outcome)
        wfired = sorted(set(d.fired))
        if outcome != "written":
            # the table is exported again once the disk works
            d.new_process()
            with d:
                sut(df.to_csv, path, what="to_csv")
        d.fired = []
        d.n = 0
        d.short = None
        d.plan = {}
        for k, kind, arg in sc["rplan"]:
            d.plan.setdefault(k, (kind, arg))
        with d:
            try:
                df2 = reader(path)
                outcome2 = "reloaded"
            except Exception as e:
                outcome2 = "read-failed"
                err = e
        hard = [f for f in d.fired if not f.startswith("short")]
        if outcome2 == "reloaded":
            compare(df2, "reloaded through faults %s" % d.fired)
        else:
            expect(hard, "reload-raised", lambda: "%s: %s (no fault)" % (type(err).__name__, err))
        st.probe(outcome2)
        st.state(sc["what"], sc["writer"], tuple(wfired), tuple(sorted(set(d.fired))), outcome, outcome2)
        if outcome2 != "reloaded" or hard:
            d.new_process()
            with d:
                compare(sut(reader, path, what="reload"), "reloaded afterwards")
            st.probe("reloaded")
        expect_eq(d.names(), ["table.csv"], "stray-files")
    finally:
        d.remove()
    st.sim_time += len(steps) * 3.0


def compare_commands(df, C, cmds, ctx):
    rows = list(df.itertuples())
    expect_eq(len(rows), len(cmds), "row-count", ctx)
    for i, (row, c) in enumerate(zip(rows, cmds)):
        g = C.GameCommand.from_raw_record(row)
        prop = c.prop.view_property
        for name, got, want in (
                ("timestamp", g.timestamp, c.timestamp), ("event", g.event, c.event), ("seat", g.sub_scope_id, c.sub_scope_id),
                ("property", g.prop.view_property, prop), ("scope", g.prop.scope, c.prop.scope),
                ("update", g.prop.update_method, c.prop.update_method),
                ("value", g.value, textual(prop, c.value) if c.value is not None else None),
                ("state", g.state, textual(prop, c.state))):
            ok = got == want and kind_of(got) == kind_of(want)
            expect(ok, "command-" + name, lambda: "%s, command %d (%s): %s is %r (%s), was %r" % (
                ctx, i, prop, name, got, type(got).__name__, want))
        # a reloaded command exports to the same row
        a, b = g.to_record(), c.to_record()
        expect(a == b, "command-record", lambda: "%s, command %d: %r was %r" % (ctx, i, a, b))


def compare_states(df, truth, ctx):
    expect_eq(len(df), len(truth), "row-count", ctx)
    cols = {}
    for j, col in enumerate(df.columns):
        cols[tuple(col)] = df.iloc[:, j].tolist()
    keys = set()
    for i, state in enumerate(truth):
        have = set()
        for scope, parts in state.items():
            for sub, props in parts.items():
                for prop, want in props.items():
                    key = (scope, sub, prop)
                    have.add(key)
                    keys.add(key)
                    expect(key in cols, "column-missing", lambda: "%s: %s" % (ctx, key))
                    got = cols[key][i]
                    if hasattr(prop, "type"):
                        want = textual(prop, want)
                    ok = got == want and kind_of(got) == kind_of(want)
                    expect(ok, "state-value", lambda: "%s, state %d: %s is %r (%s), was %r" % (
                        ctx, i, key, got, type(got).__name__, want))
        for key, vals in cols.items():
            if key not in have and not str(key[0]).startswith("Unnamed"):
                expect(missing(vals[i]), "state-invented", lambda: "%s, state %d: %s is %r, was not set" % (
                    ctx, i, key, vals[i]))
    for key in cols:
        if not str(key[0]).startswith("Unnamed"):
            expect(key in keys, "column-invented", lambda: repr(key))
