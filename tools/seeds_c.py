"""Planted bugs b40.. (input of mkseed.py)."""
import os, sys
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), 'seeds_b.py')).read().split('SEEDS = [')[0])
SEEDS = [
 dict(id='b40-decoder-reuses-instruction', prop='C48', needs='the same word decoded twice in a row by one decoder, at different addresses',
      breaks='a repeated word returns the earlier instruction object and moves its address',
      edits=[('cmdis/decoder.py', "        self.args = kwargs\n", "        self.args = kwargs\n        self._last = None\n"),
             ('cmdis/decoder.py', "        # Create instruction object.\n        i = self._klass(", "        # Same word again: reuse the instruction.\n        if self._last is not None and self._last._word == word:\n            self._last.address = address\n            return self._last\n\n        # Create instruction object.\n        i = self._klass("),
             ('cmdis/decoder.py', "        self._handler(i, **attrs)\n", "        self._handler(i, **attrs)\n        self._last = i\n")],
      demo=H + '''
a = decoder.decode(hw(0xe002), 0x100)
b = decoder.decode(hw(0xe002), 0x200)
assert a.address == 0x100 and b.address == 0x200
assert '0x108' in Formatter(cpu()).format(a)
'''),
 dict(id='b41-shared-operand-list', prop='C48', needs='two barrier instructions decoded one after the other',
      breaks='the operand list of barriers is shared, later decodes add operands to earlier instructions',
      edits=[('cmdis/decoder.py', "        self._address = 0\n        self.operands = []\n", "        self._address = 0\n"),
             ('cmdis/decoder.py', "class Instruction(object):\n", "class Instruction(object):\n    operands = []\n\n"),
             ('cmdis/instructions.py', "    i.operands = [BarrierOperand(option.unsigned)]\n", "    i.operands.append(BarrierOperand(option.unsigned))\n")],
      demo=H + '''
a = text(0xf3bf, 0x8f5f)
b = text(0xf3bf, 0x8f5f)
assert a == b, (a, b)
'''),
 dict(id='b42-undefined-halfword-remembered', prop='C48', needs='an undefined 32-bit word, then a defined one with the same first halfword',
      breaks='after an undefined word every word with that first halfword is undefined',
      edits=[('cmdis/decoder.py', "        self._tree32 = None\n\n    def add_decoder", "        self._tree32 = None\n        self._undefined = {}\n\n    def add_decoder"),
             ('cmdis/decoder.py', "        while True:\n            if node.mask:\n", "        if hw1 in self._undefined:\n            raise UndefinedInstructionError()\n\n        while True:\n            if node.mask:\n"),
             ('cmdis/decoder.py', "                # None of the decoders matched.\n", "                # None of the decoders matched.\n                self._undefined[hw1] = True\n")],
      demo=H + '''
from cmdis.decoder import UndefinedInstructionError
def safe(*ws):
    try:
        return text(*ws)
    except UndefinedInstructionError:
        return 'undefined'
first = safe(0xf811, 0x0002)
assert safe(0xf811, 0xf002) == 'undefined'
assert safe(0xf811, 0x0002) == first != 'undefined'
'''),
]
