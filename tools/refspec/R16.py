"""event lists: one loop over the seats, helper for tiles"""
PROPS = ['C14']
EDITS = [("mahjong/record/utils/event.py", '''            dict0 = {'event_type': 'INIT1', 'player': '0', 'player_see': ''.join(
                [str(tile_from_tenhou(i)) for i in sorted([int(i) for i in attrs['hai0'].split(',')])]),
                     'score': attrs['ten'].split(',')[0] + '00'}
            dict1 = {'event_type': 'INIT2', 'player': '1', 'player_see': ''.join(
                [str(tile_from_tenhou(i)) for i in sorted([int(i) for i in attrs['hai1'].split(',')])]),
                     'score': attrs['ten'].split(',')[1] + '00'}
            dict2 = {'event_type': 'INIT3', 'player': '2', 'player_see': ''.join(
                [str(tile_from_tenhou(i)) for i in sorted([int(i) for i in attrs['hai2'].split(',')])]),
                     'score': attrs['ten'].split(',')[2] + '00'}
''', '''            scores = attrs['ten'].split(',')

            def dealt(seat):
                tiles = sorted(int(i) for i in attrs['hai%d' % seat].split(','))
                return {'event_type': 'INIT%d' % (seat + 1), 'player': str(seat),
                        'player_see': ''.join(str(tile_from_tenhou(i)) for i in tiles),
                        'score': scores[seat] + '00'}

            dict0, dict1, dict2 = dealt(0), dealt(1), dealt(2)
'''),
("mahjong/record/utils/event.py", '''                dict3 = {'event_type': 'INIT4', 'player': '3', 'player_see': ''.join(
                    [str(tile_from_tenhou(i)) for i in sorted([int(i) for i in attrs['hai3'].split(',')])]),
                         'score': attrs['ten'].split(',')[3] + '00'}
                return [dict0, dict1, dict2, dict3, dora, initround]
''', '''                return [dict0, dict1, dict2, dealt(3), dora, initround]
''')]
