"""drawing rewritten: weights as a list, random.choices called with keywords"""
PROPS = ['C10', 'C11', 'C12']
EDITS = [("mahjong/container/distribution.py", '''        current = self
        for i in range(count):
            next_item, *_ = random.choices(TileDistribution.ALL_TILES, current.weights())
            # print(next_item)
            yield next_item
            current = current.pick(next_item)
''', '''        wall = self
        remaining = count
        while remaining > 0:
            drawn = random.choices(population=TileDistribution.ALL_TILES, weights=list(wall.weights()), k=1)[0]
            yield drawn
            wall = wall.pick(drawn)
            remaining -= 1
'''),
("mahjong/container/distribution.py", '''        return StaticWall(self._tiles - Counter([tile]))
''', '''        rest = self._tiles.copy()
        rest.subtract([tile])
        return StaticWall(+rest)
''')]
