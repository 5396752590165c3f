"""stage grouping rewritten around one look-ahead slot"""
PROPS = ['C13', 'C15']
EDITS = [("mahjong/record/stage.py", '''        self.id = object()
        # skip previous _grouper if the value of group is ignored.
        while self._stage_accepted(self.tgtkey):
            self.currvalue = next(self.it)  # Exit on StopIteration
            self.currkey = self.keyfunc(self.currvalue)
        self.tgtkey = UnknownKey(self.currkey) if self.currkey not in self.stages else self.stages[
                                                                                       self.stages.index(self.currkey):]
        return self.tgtkey.copy(), self._grouper(self.tgtkey, self.id)
''', '''        self.id = object()
        while self._stage_accepted(self.tgtkey):
            self._advance()
        if self.currkey in self.stages:
            position = self.stages.index(self.currkey)
            self.tgtkey = self.stages[position:]
        else:
            self.tgtkey = UnknownKey(self.currkey)
        return self.tgtkey.copy(), self._grouper(self.tgtkey, self.id)

    def _advance(self):
        self.currvalue = next(self.it)  # Exit on StopIteration
        self.currkey = self.keyfunc(self.currvalue)
'''),
("mahjong/record/stage.py", '''        while len(target_stages) >= 1:
            if self.currkey == target_stages[0]:
                return True
            else:
                del target_stages[0]
        return False
''', '''        while target_stages and self.currkey != target_stages[0]:
            target_stages.pop(0)
        return bool(target_stages)
'''),
("mahjong/record/stage.py", '''            try:
                self.currvalue = next(self.it)
            except StopIteration:
                return
            self.currkey = self.keyfunc(self.currvalue)
''', '''            try:
                self._advance()
            except StopIteration:
                return
''')]
