PROP = "C08"
EDITS = [("mahjong/templates/record_checker_template.html",
'''            <summary><span class="game-caption">{{ game.name }}</span></summary>
''',
'''            <summary><span class="game-caption">{{ game.name | safe }}</span></summary>
''')]
NEEDS = "a winner or a discarder whose name contains markup characters"
BREAKS = "the name is taken as markup in the caption of the round"
DEMO = '''
from mahjong.tenhou_record_check import template_env, render_template
names = ["A<b>c", "B", "C", "D&amp;"]
h = [list(x) for x in H4]
win = el("AGARI", ba="0,0", hai=nums(h[0] + [109]), machi=109, ten="30,1000,0", yaku="0,1", doraHai=135, who=0, fromWho=0,
         sc="250,30,250,-10,250,-10,250,-10", owari=OWARI4)
rec = load(xml(head(names=names), init(h), el("T109"), win))
html = render_template(rec.players[0], rec, template_env("mahjong").get_template("record_checker_template.html"), log_id="x")[1]
assert "A<b>c" not in html and html.count("A&lt;b&gt;c") >= 3
'''
