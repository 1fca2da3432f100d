"""Planted bugs b90.. (input of mkseed.py)."""
import os, sys
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), 'seeds_d.py')).read().split('\nSEEDS = [')[0])
SEEDS = [
 dict(id='b90-shared-bit-objects', prop='C20', needs='a bit taken out of a bit string and then updated in place, and a later bit access',
      breaks='single bits are shared objects, so that an in-place operation on one changes every other',
      edits=[('cmdis/bitstring.py', "        return bitstring((self._value >> bitpos) & 1, 1)\n", "        return bit1 if (self._value >> bitpos) & 1 else bit0\n")],
      demo=H + '''
from cmdis.bitstring import bitstring
a = bitstring(0, 8)
b = a[3]
b += 1
assert b == 1
assert a[5] == 0 and bitstring('0000')[1:3] == '00', a[5]
'''),
 dict(id='b91-last-decoder-first', prop='C48', needs='two decoders whose patterns overlap, the more general one used last',
      breaks='the decoder that matched last is tried first, so a word is decoded according to what was decoded before it',
      edits=[('cmdis/decoder.py', "        self._tree32 = None\n\n    def add", "        self._tree32 = None\n        self._last = {}\n\n    def add"),
             ('cmdis/decoder.py', "        while True:\n            if node.mask:\n                try:\n                    node = node", "        d = self._last.get(is32bit)\n        if d is not None and d.check(word):\n            try:\n                return d.decode(word, address=dataAddress)\n            except DecodeError:\n                pass\n\n        while True:\n            if node.mask:\n                try:\n                    node = node"),
             ('cmdis/decoder.py', "                            return d.decode(word, address=dataAddress)\n                    except", "                            i = d.decode(word, address=dataAddress)\n                            self._last[is32bit] = d\n                            return i\n                    except")],
      demo=H + '''
a = decoder.decode(hw(0xdf01)).mnemonic
decoder.decode(hw(0xd001))
b = decoder.decode(hw(0xdf01)).mnemonic
assert a == b == 'svc', (a, b)
'''),
 dict(id='b92-position-on-the-disassembler', prop='C06', needs='two disassemblies of one Disassembler that are read in turns',
      breaks='the position of a disassembly is kept on the Disassembler, so that two running disassemblies disturb each other',
      edits=[('cmdis/disasm.py', "        offset = 0\n", "        self._offset = 0\n"),
             ('cmdis/disasm.py', "data[offset:]", "data[self._offset:]"),
             ('cmdis/disasm.py', "            offset += i.size\n", "            self._offset += i.size\n")],
      demo=H + '''
from cmdis.disasm import Disassembler
d = Disassembler()
x = hw(0x1840, 0xbf00, 0x1841); y = hw(0x2001, 0x2102, 0x2203)
alone = [bytes(i.bytes) for i in d.disasm(x)], [bytes(i.bytes) for i in d.disasm(y)]
p, q = d.disasm(x), d.disasm(y)
both = [], []
for _ in range(3):
    both[0].append(bytes(next(p).bytes))
    both[1].append(bytes(next(q).bytes))
assert alone == both, (alone, both)
'''),
 dict(id='b93-page-table', prop='C32', needs='an access inside a region followed by an access outside of it in the same 64 kB page',
      breaks='the region of a page is remembered and used for every address of the page',
      edits=[('cmdis/mock_cpu.py', "        self._mem = []\n", "        self._mem = []\n        self._pages = {}\n"),
             ('cmdis/mock_cpu.py', "        for m in self._mem:\n            if m.start <= addr <= m.end:\n                return m, addr - m.start\n",
              "        m = self._pages.get(addr >> 16)\n        if m is not None and addr >= m.start:\n            return m, addr - m.start\n        for m in self._mem:\n            if m.start <= addr <= m.end:\n                self._pages[addr >> 16] = m\n                return m, addr - m.start\n")],
      demo=MK + '''
a = machine((0x1000, 16), (0x1010, 16))
a.write32(0x1014, 0x11223344)
assert a.read32(0x1004) == 0
assert a.read32(0x1014) == 0x11223344, hex(a.read32(0x1014).unsigned)
'''),
 dict(id='b94-flags-from-a-copy', prop='C29', needs='C written alone, after N was written and XPSR was changed by other means since',
      breaks='the C flag setter starts from the XPSR value the N setter left, which may be out of date',
      edits=[('cmdis/model.py', "        v = self._cpu.xpsr\n        v[self.N_BIT] = bitstring(value, 1)\n", "        v = self._cpu.xpsr\n        v[self.N_BIT] = bitstring(value, 1)\n        self._word = v\n"),
             ('cmdis/model.py', "        v = self._cpu.xpsr\n        v[self.C_BIT]", "        v = self._word if self._word is not None and self._word[self.Z_BIT] == self.z else self._cpu.xpsr\n        v[self.C_BIT]"),
             ('cmdis/model.py', "    V_BIT = 28\n\n    def __init__(self, cpu):\n", "    V_BIT = 28\n\n    def __init__(self, cpu):\n        self._word = None\n")],
      demo=MK + '''
a = machine()
a.apsr.n = 1
a.xpsr = 0x01000000
a.apsr.c = 1
assert a.xpsr == 0x21000000, hex(a.xpsr.unsigned)
'''),
 dict(id='b95-sticky-option', prop='C46', needs='a disasm command with -c followed by one without it', path=LIB,
      breaks='the --center option stays in force for later disasm commands',
      edits=[('cmdis/__main__.py', "            namespace, other_args = parser.parse_args(args)\n", "            namespace, other_args = parser.parse_args(args, values)\n"),
             ('cmdis/__main__.py', "            parser.add_option(opt)\n", "            parser.add_option(opt)\n        values = parser.get_default_values()\n")],
      demo=CON + '''
out = console(['disasm -c 0x20 8', 'disasm 0x20 8', 'exit'], b'\\x00\\xbf' * 64)
first = [l for l in out.splitlines() if '0x00000020:' in l]
start = [l for l in out.splitlines() if '0x00000026:' in l]
assert len(first) == 2 and len(start) == 1, out
'''),
 dict(id='b96-arguments-remembered', prop='C44', needs='the same register argument used before and after the register changed', path=LIB,
      breaks='the value of an argument is remembered the first time it is used',
      edits=[('cmdis/__main__.py', "        arg = arg.lower().replace('_', '')\n", "        arg = arg.lower().replace('_', '')\n        if arg in self.values:\n            return self.values[arg]\n"),
             ('cmdis/__main__.py', "            value = self.cpu.read_register(arg).unsigned\n            print", "            value = self.values[arg] = self.cpu.read_register(arg).unsigned\n            print"),
             ('cmdis/__main__.py', "        self.exitCode = 0\n        self.command_list", "        self.exitCode = 0\n        self.values = {}\n        self.command_list")],
      demo=CON + '''
out = console(['wreg r0 0x20', 'wreg r1 r0', 'wreg r0 0x30', 'wreg r2 r0', 'reg r2', 'exit'])
assert 'r2 = 0x00000030' in out, out
'''),
 dict(id='b97-highest-set-bit-by-logarithm', prop='C26', needs='a bit string of 48 bits or more whose upper bits are all set',
      breaks='the position of the highest set bit is computed in floating point and is one too high for long runs of ones',
      edits=[('cmdis/bitstring.py', "        for n in range(self._width - 1, -1, -1):\n            if (self._value >> n) & 1:\n                return n\n        return -1\n", "        return int(math.log(self._value, 2)) if self._value else -1\n"),
             ('cmdis/bitstring.py', "import six\n", "import math\nimport six\n")],
      demo=H + '''
from cmdis.bitstring import bitstring
for w in range(1, 65):
    assert bitstring((1 << w) - 1, 64).highest_set_bit() == w - 1, w
'''),
 dict(id='b98-stale-text', prop='C25', needs='a bit string shown, then changed by assigning a bit, then shown again',
      breaks='the text of a bit string is remembered and not refreshed by item assignment',
      edits=[('cmdis/bitstring.py', '"_value", "_mask")', '"_value", "_mask", "_text")'),
             ('cmdis/bitstring.py', "        # Set value based on type and default width.\n", "        self._text = None\n\n        # Set value based on type and default width.\n"),
             ('cmdis/bitstring.py', "        s = ''\n        for i in range(self._width):\n            s = str((self._value >> i) & 1) + s\n        return s\n",
              "        if self._text is None or len(self._text) != self._width or int(self._text or '0', 2) % 4 != self._value % 4:\n            s = ''\n            for i in range(self._width):\n                s = str((self._value >> i) & 1) + s\n            self._text = s\n        return self._text\n")],
      demo=H + '''
from cmdis.bitstring import bitstring
a = bitstring(0x10, 8)
assert a.binary_string == '00010000'
a[5] = 1
assert a.binary_string == '00110000', a.binary_string
'''),
 dict(id='b99-link-before-target', prop='C15', needs='blx lr',
      breaks='LR is overwritten before the branch target is read from it',
      edits=[('cmdis/instructions.py', "            next_instr = cpu.pc_for_instr + self.pc_delta\n            if hasattr(self, 'm'):\n", "            next_instr = cpu.pc_for_instr + self.pc_delta\n            if self.with_link:\n                cpu.lr = next_instr | 1\n            if hasattr(self, 'm'):\n"),
             ('cmdis/instructions.py', "            if self.with_link:\n                cpu.lr = next_instr | 1\n            cpu.pc = target\n", "            cpu.pc = target\n")],
      demo=MK + '''
a = machine()
a.pc = 0x1000; a.lr = 0x2001
decoder.decode(hw(0x47f0), 0x1000).execute(a)
assert a.pc == 0x2000 and a.lr == 0x1003, (a.pc, a.lr)
'''),
 dict(id='b100-float-operand-truncated', prop='C24', needs='addition of a bit string and a float',
      breaks='a float operand is truncated instead of being refused',
      edits=[('cmdis/bitstring.py', "            value = other.unsigned\n        elif isinstance(other, six.integer_types):\n            value = other\n        elif isinstance(other, six.string_types):\n            value = bitstring(other).unsigned\n        else:\n            return NotImplemented\n        self._value += value\n",
              "            value = other.unsigned\n        elif isinstance(other, six.string_types):\n            value = bitstring(other).unsigned\n        elif hasattr(other, '__int__'):\n            value = int(other)\n        else:\n            return NotImplemented\n        self._value += value\n")],
      demo=H + '''
from cmdis.bitstring import bitstring
try:
    r = bitstring(5, 8) + 1.5
except TypeError:
    pass
else:
    raise AssertionError(r)
'''),
 dict(id='b101-vectors-remembered', prop='C45', needs='a program that rewrites the vector table before a reset', path=LIB,
      breaks='reset uses the vectors the image had at the start',
      edits=[('cmdis/__main__.py', "        sp = self.cpu.read32(0).unsigned\n        if sp != 0:\n", "        sp = self.cpu.read32(0).unsigned\n        self.entry = self.cpu.read32(4)\n        if sp != 0:\n"),
             ('cmdis/__main__.py', "        pc = self.cpu.read32(4)\n        mem", "        pc = self.entry\n        mem")],
      demo=CON + '''
import struct
out = console(['ww 4 0x201', 'reset', 'reg pc', 'exit'], struct.pack('<2I', 0x20000000, 0x101) + b'\\0' * 1024)
assert 'pc = 0x00000201' in out, out
'''),
 dict(id='b102-list-consumed', prop='C52', needs='a list of instructions executed twice',
      breaks='execute() empties the list it is given',
      edits=[('cmdis/model.py', "        for i in instructions:\n            i.execute(self)\n", "        if isinstance(instructions, list):\n            while instructions:\n                instructions.pop(0).execute(self)\n            return\n        for i in instructions:\n            i.execute(self)\n")],
      demo=MK + '''
a = machine()
prog = [decoder.decode(hw(0x3001))]
a.execute(prog); a.execute(prog)
assert a.r[0] == 2, a.r[0]
'''),
 dict(id='b103-overflow-from-bit-31', prop='C27', needs='AddWithCarry on operands that are not 32 bits wide',
      breaks='the overflow of narrow additions is computed from bit 31',
      edits=[('cmdis/helpers.py', "    overflow = bit0 if result.signed == signed_sum else bit1\n", "    overflow = (~(x ^ y) & (x ^ result))[31] if x.width >= 8 else (bit0 if result.signed == signed_sum else bit1)\n")],
      demo=H + '''
from cmdis.helpers import AddWithCarry
from cmdis.bitstring import bitstring, bit0
r = AddWithCarry(bitstring(0x7fff, 16), bitstring(1, 16), bit0)
assert r[2] == 1, r
'''),
 dict(id='b104-product-of-low-words', prop='C21', needs='a product of bit strings wider than 32 bits',
      breaks='only the low 32 bits of the multiplier take part in a multiplication',
      edits=[('cmdis/bitstring.py', "        self._value *= value\n", "        self._value *= value & 0xffffffff\n")],
      demo=H + '''
from cmdis.bitstring import bitstring
assert bitstring(3, 64) * bitstring(1 << 40, 64) == 3 << 40
'''),
 dict(id='b105-target-remembered', prop='C34', needs='an instruction object formatted, given another address, and formatted again',
      breaks='the branch target printed is the one of the first address',
      edits=[('cmdis/formatter.py', "        self._alignment = alignment\n", "        self._alignment = alignment\n        self._target = None\n"),
             ('cmdis/formatter.py', "        target = (Align(address + 4, self._alignment) + self._offset) & 0xffffffff\n        comment = \"0x%x\" % target\n",
              "        if self._target is None:\n            self._target = (Align(address + 4, self._alignment) + self._offset) & 0xffffffff\n        comment = \"0x%x\" % self._target\n")],
      demo=H + '''
from cmdis.formatter import Formatter
i = decoder.decode(hw(0xe7fe), 0x1000)
f = Formatter(None)
assert '0x1000' in f.format(i)
i.address = 0x2000
assert '0x2000' in f.format(i), f.format(i)
'''),
 dict(id='b106-last-slice-remembered', prop='C22', needs='two slices with the same bounds of one bit string, changed in between',
      breaks='a slice that was taken before is not taken again',
      edits=[('cmdis/bitstring.py', '"_value", "_mask")', '"_value", "_mask", "_slices")'),
             ('cmdis/bitstring.py', "        # Set value based on type and default width.\n", "        self._slices = {}\n\n        # Set value based on type and default width.\n"),
             ('cmdis/bitstring.py', "            i = start\n            result = bitstring()\n", "            known = self._slices.get((start, stop, step))\n            if known is not None and known[0] == self._value >> 4:\n                return bitstring(known[1])\n            i = start\n            result = bitstring()\n"),
             ('cmdis/bitstring.py', "                i += step\n            return result\n", "                i += step\n            self._slices[start, stop, step] = (self._value >> 4, result)\n            return result\n")],
      demo=H + '''
from cmdis.bitstring import bitstring
a = bitstring(0x35, 8)
assert a[0:4] == '0101'
a[1] = 1
assert a[0:4] == '0111', a[0:4]
'''),
]
