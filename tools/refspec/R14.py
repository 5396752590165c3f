"""template: whitespace, quotes, macros in one"""
PROPS = ['C08', 'C09', 'C17']
EDITS = [("mahjong/templates/record_checker_template.html", '''    {% for tile_item in tile_list -%}
        <div class="pic{{ tile_item }} {{ size }}"></div>
    {%- endfor %}
''', '''    {%- for tile_item in tile_list -%}
        <div class='{{ size }} pic{{ tile_item }}'></div>
    {%- endfor -%}
'''),
("mahjong/templates/record_checker_template.html", '''                    <tr style="background-color: {% if round.somebody_richii %} rgba(0, 0, 255, {% else %} rgba(255, 0, 0, {% endif %}{{ round.wrong_rate }});">
''', '''                    {%- set red, blue = (0, 255) if round.somebody_richii else (255, 0) %}
                    <tr style='background-color: rgba({{ red }},0,{{ blue }},{{ round.wrong_rate }})'>
''')]
