PROP = "C04"
EDITS = [("mahjong/record/universe/tenhou/event_definition.py",
'''    yield GameCommand(
        prop=GameView.dora_indicators,
        update=Update.ADD,
        value=tile_str_list(event.attrib["hai"])
    )
''',
'''    tile = event.attrib["hai"]
    if tile not in _DORA_COMMANDS:
        _DORA_COMMANDS[tile] = GameCommand(
            prop=GameView.dora_indicators,
            update=Update.ADD,
            value=tile_str_list(tile)
        )
    yield _DORA_COMMANDS[tile]
'''),
("mahjong/record/universe/tenhou/event_definition.py",
'''@tenhou_command.match_name("DORA")
''',
'''_DORA_COMMANDS = {}


@tenhou_command.match_name("DORA")
''')]
NEEDS = "the same tile turned over as a further indicator twice: in two rounds, or in two logs of which one was translated earlier"
BREAKS = "commands handed out earlier change their timestamp and state"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
def text(start, extra):
    return xml(head(), init(H4, dora=start), el("T104"), *extra, el("DORA", hai=120), el("D104"), ryu(owari=OWARI4))
a = reads(load(text(135, [])))
cmds = list(to_commands(load(text(135, []))))
list(to_commands(load(text(134, [el("DORA", hai=121)]))))
assert [tuple(c.to_record()) for c in cmds] == a
'''
