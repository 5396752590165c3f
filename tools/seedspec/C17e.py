PROP = "C17"
EDITS = [("mahjong/tenhou_record_check.py",
'''    env.filters['load_raw'] = load_raw
''',
'''    env.filters['load_raw'] = load_raw
    env.globals['seen'] = {}
'''), ("mahjong/templates/record_checker_template.html",
'''                    <tr style="background-color: {% if round.somebody_richii %} rgba(0, 0, 255, {% else %} rgba(255, 0, 0, {% endif %}{{ round.wrong_rate }});">
''',
'''                    {% set shade = seen.setdefault((game.name, loop.index), round.wrong_rate) %}
                    <tr style="background-color: {% if round.somebody_richii %} rgba(0, 0, 255, {% else %} rgba(255, 0, 0, {% endif %}{{ shade }});">
''')]
NEEDS = "a second report (another player, another record with a round of the same caption) from one checker"
BREAKS = "shades of the first report are used for the second one"
DEMO = '''
import re
from mahjong.record.checker import TenhouChecker
text = xml(head(), init(H4), el("T0"), el("D0"), el("U113"), el("E113"), el("V36"), el("F36"), el("W108"), el("G25"), ryu(owari=OWARI4)).replace('G25', 'G27')
shades = lambda html: re.findall(r"rgba\\([^;]*", html)
rec = load(text)
c = TenhouChecker()
a = [shades(c.parse(rec, i)) for i in range(4)]
b = [shades(TenhouChecker().parse(load(text), i)) for i in range(4)]
assert a == b, (a, b)
assert len({str(x) for x in b}) > 1, b
'''
