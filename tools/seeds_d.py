"""Planted bugs b43.. (input of mkseed.py)."""
import os, sys
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), 'seeds_b.py')).read().split('SEEDS = [')[0])
MK = H + '''
from cmdis.mock_cpu import MockCpuModelDelegate
def machine(*regions):
    c = CpuModel(); c.delegate = MockCpuModelDelegate()
    for r in regions:
        c.delegate.add_memory(*r)
    return c
'''
SEEDS = [
 dict(id='b43-shared-reset-registers', prop='C49', needs='a second mock machine after the first one was used',
      breaks='all mock machines share one register file',
      edits=[('cmdis/mock_cpu.py', "class MockCpuModelDelegate(CpuModelDelegate):\n", "RESET_VALUES = {reg:0 for reg in CORE_REGISTER.values()}\n\nclass MockCpuModelDelegate(CpuModelDelegate):\n"),
             ('cmdis/mock_cpu.py', "        self._regs = {reg:0 for reg in CORE_REGISTER.values()}\n", "        self._regs = RESET_VALUES\n")],
      demo=MK + '''
a = machine(); a.r[5] = 0x1234
b = machine()
assert b.r[5] == 0 and a.r[5] == 0x1234
'''),
 dict(id='b44-pooled-buffers', prop='C49', needs='two machines that map the same region',
      breaks='machines with the same memory layout share their memory',
      edits=[('cmdis/mock_cpu.py', "class MockCpuModelDelegate(CpuModelDelegate):\n    def __init__(self):\n", "class MockCpuModelDelegate(CpuModelDelegate):\n    _pool = {}\n\n    def __init__(self):\n"),
             ('cmdis/mock_cpu.py', "        buf = MemBuffer(start=start, end=start+length-1, data=bytearray(length))\n        self._mem.append(buf)\n",
              "        key = (start, length)\n        if key not in self._pool:\n            self._pool[key] = MemBuffer(start=start, end=start+length-1, data=bytearray(length))\n        self._mem.append(self._pool[key])\n")],
      demo=MK + '''
a = machine((0x1000, 64)); b = machine((0x1000, 64), (0x2000, 64))
a.write32(0x1004, 0xdeadbeef)
assert b.read32(0x1004) == 0 and a.read32(0x1004) == 0xdeadbeef
'''),
 dict(id='b45-shared-float-view', prop='C49', needs='two models, and float registers reached through the s view',
      breaks='the s view of every later model reaches the first model',
      edits=[('cmdis/model.py', "    nPRIV = 0\n", "    _float_view = None\n    nPRIV = 0\n"),
             ('cmdis/model.py', "        self._float_registers_interface = RegistersInterface(self, 0x40, 0x5f)\n",
              "        if CpuModel._float_view is None:\n            CpuModel._float_view = RegistersInterface(self, 0x40, 0x5f)\n        self._float_registers_interface = CpuModel._float_view\n")],
      demo=MK + '''
a = machine(); b = machine()
b.s[3] = 0x3f800000
assert b.read_register('s3') == 0x3f800000 and a.read_register('s3') == 0
'''),
 dict(id='b46-first-delegate-kept', prop='C49', needs='a model whose delegate is replaced by another one',
      breaks='register reads keep going to the first machine that was attached',
      edits=[('cmdis/model.py', "        self._delegate = newDelegate\n", "        if self._delegate is None:\n            self._read = newDelegate.read_register\n        self._delegate = newDelegate\n"),
             ('cmdis/model.py', "            return bitstring(self._delegate.read_register(reg))\n", "            return bitstring(self._read(reg))\n")],
      demo=MK + '''
a = machine()
a.r[2] = 7
other = MockCpuModelDelegate()
a.delegate = other
assert a.r[2] == 0
a.r[2] = 9
assert a.r[2] == 9 and other.read_register(2) == 9
'''),
 dict(id='b47-whole-region-aliased', prop='C49', needs='a block read of a whole region, which is then modified by the caller',
      breaks='a block that covers the region exactly is the live memory itself',
      edits=[('cmdis/mock_cpu.py', "            return bytearray(mem.data[offset:offset+length])\n", "            if offset == 0 and length == len(mem.data):\n                return mem.data\n            return bytearray(mem.data[offset:offset+length])\n")],
      demo=MK + '''
a = machine((0, 16))
block = a.read_memory_block(0, 16)
block[3] = 0xff
assert a.read8(3) == 0
part = a.read_memory_block(0, 8)
part[3] = 0xff
assert a.read8(3) == 0
'''),
 dict(id='b48-dump-main-stack', prop='C50', needs='the process stack pointer selected, with a value of its own',
      breaks='the dump shows MSP as sp',
      edits=[('cmdis/model.py', "            self.r[1], self.r[5], self.r[9], self.sp))", "            self.r[1], self.r[5], self.r[9], self.msp))")],
      demo=MK + '''
import contextlib, io
c = machine()
c.psp = 0x2000; c.msp = 0x1000
c.write_register('control', 2)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    c.dump()
assert 'sp =00002000' in out.getvalue(), out.getvalue()
'''),
 dict(id='b49-repr-signed', prop='C50', needs='a register with bit 31 set',
      breaks='the representation shows large registers as negative numbers',
      edits=[('cmdis/model.py', '            " ".join("%x" % (self.r[i].unsigned) for i in range(15)))', '            " ".join("%x" % (self.r[i].signed) for i in range(15)))')],
      demo=MK + '''
c = machine()
c.r[3] = 0x80000001
assert ' 80000001 ' in repr(c), repr(c)
'''),
 dict(id='b50-expression-lowercased', prop='C51', needs='an expression with an upper case letter',
      breaks='the whole line is folded to lower case, which changes expressions',
      path=LIB, edits=[('cmdis/__main__.py', "        for cmd in line.split(';'):\n", "        for cmd in line.lower().split(';'):\n")],
      demo=CON + '''
out = console(["$ 'aBc'"])
assert 'aBc' in out, out
'''),
 dict(id='b51-zero-result-hidden', prop='C51', needs='an expression whose result is zero',
      breaks='results that are zero or false are not shown',
      path=LIB, edits=[('cmdis/__main__.py', "            if result is not None:\n                if type", "            if result:\n                if type")],
      demo=CON + '''
out = console(['$ cpu.r[3].unsigned', '$ 1 > 2'])
assert '0x00000000 (0)' in out and 'False' in out, out
'''),
 dict(id='b52-bool-as-hex', prop='C51', needs='an expression with a truth value',
      breaks='truth values are shown as numbers',
      path=LIB, edits=[('cmdis/__main__.py', "                if type(result) is int:\n", "                if isinstance(result, int):\n")],
      demo=CON + '''
out = console(['$ 2 > 1'])
assert 'True' in out, out
'''),
 dict(id='b53-critical-becomes-error', prop='C51', needs='the debug option with level critical',
      breaks='the critical level is lowered to error',
      path=LIB, edits=[('cmdis/__main__.py', "        logging.basicConfig(level=level)\n", "        logging.basicConfig(level=min(level, logging.ERROR))\n")],
      demo=CON.replace("'cmdis', p]", "'cmdis', '-d', 'critical', p]") + '''
out = console(['$ logging.getLogger().level'])
assert '(50)' in out, out
'''),
 dict(id='b54-blank-repeats-last-part', prop='C51', needs='a line of several commands followed by a blank line',
      breaks='a blank line repeats only the final command of the last line',
      path=LIB, edits=[('cmdis/__main__.py', "                        self.last_command = line\n", "                        self.last_command = line.split(';')[-1]\n")],
      demo=CON + '''
out = console(['wreg r1 [0x100,4]; reg r1', ''])
assert out.count('[0x100,4]') == 2, out
'''),
 dict(id='b55-split-on-blanks', prop='C51', needs='words separated by a tab or by two blanks',
      breaks='only single blanks separate words',
      path=LIB, edits=[('cmdis/__main__.py', "            args = cmd.split()\n", "            args = cmd.strip().split(' ')\n")],
      demo=CON + '''
out = console(['wreg r1\\t0x55', 'reg  r1'])
assert 'r1 = 0x00000055' in out, out
'''),
 dict(id='b56-repeated-instruction-skipped', prop='C52', needs='the same instruction object twice in the sequence',
      breaks='an instruction that occurs again is not executed again',
      edits=[('cmdis/model.py', "        for i in instructions:\n            i.execute(self)\n", "        done = []\n        for i in instructions:\n            if not any(i is d for d in done):\n                i.execute(self)\n                done.append(i)\n")],
      demo=H + '''
c = cpu()
i = decoder.decode(hw(0x3001))
c.execute([i, i, i])
assert c.r[0] == 3, c.r[0]
'''),
 dict(id='b57-sorted-by-address', prop='C52', needs='instructions whose addresses are not ascending',
      breaks='the sequence is executed in address order',
      edits=[('cmdis/model.py', "        for i in instructions:\n            i.execute(self)\n", "        for i in sorted(instructions, key=lambda x: x.address):\n            i.execute(self)\n")],
      demo=H + '''
c = cpu()
c.execute([decoder.decode(hw(0x2005), 8), decoder.decode(hw(0x0040), 4)])
assert c.r[0] == 10, c.r[0]
'''),
 dict(id='b58-execute-stops-at-branch', prop='C52', needs='a taken branch in the middle of the sequence',
      breaks='the rest of the sequence is dropped when PC does not advance by the instruction size',
      edits=[('cmdis/model.py', "            i.execute(self)\n", "            pc = self.pc\n            i.execute(self)\n            if self.pc != pc + i.size:\n                break\n")],
      demo=H + '''
c = cpu()
c.execute([decoder.decode(hw(0xe7fe), 0), decoder.decode(hw(0x2005), 2)])
assert c.r[0] == 5
'''),
 dict(id='b61-bytes-by-value', prop='C04', needs='a 32-bit instruction whose last byte is zero, or the halfword 0x00xx',
      breaks='the bytes of an instruction lose high zero bytes',
      edits=[('cmdis/decoder.py', "(self._word >> (8 * i)) & 0xff for i in range(self.size))", "(self._word >> (8 * i)) & 0xff for i in range((self._word.bit_length() + 7) // 8))")],
      demo=H + '''
for ws in ((0x0008,), (0x1840,), (0xf811, 0x0002), (0xf04f, 0x7001)):
    i = decoder.decode(hw(*ws), 0)
    assert i.bytes == hw(*ws) and len(i.bytes) == i.size, (ws, i.bytes)
'''),
 dict(id='b62-three-bytes-enough', prop='C05', needs='the first three bytes of a 32-bit instruction',
      breaks='an instruction cut after three bytes raises an internal error',
      edits=[('cmdis/decoder.py', "            if len(data) < 4:\n", "            if len(data) < 3:\n")],
      demo=H + '''
from cmdis.decoder import UndefinedInstructionError
for n in (2, 3):
    try:
        decoder.decode(hw(0xf04f, 0x7001)[:n], 0)
        assert 0
    except UndefinedInstructionError:
        pass
'''),
 dict(id='b63-store-truncates-source', prop='C11', needs='a byte or halfword store from a register with high bits set',
      breaks='a narrow store also truncates the source register',
      edits=[('cmdis/instructions.py', "        cpu.write_memory(address, cpu.r[self.t][0:self.memsize], self.memsize)\n        cpu.pc += self.size\n",
              "        data = cpu.r[self.t][0:self.memsize]\n        cpu.write_memory(address, data, self.memsize)\n        if self.memsize < 32:\n            cpu.r[self.t] = data.zero_extend(32)\n        cpu.pc += self.size\n")],
      demo=H + '''
c = cpu()
c.r[0] = 0x12345678; c.r[1] = 0x100
c.execute([decoder.decode(hw(0x7008), 0)])
assert c.r[0] == 0x12345678, c.r[0]
'''),
 dict(id='b64-slice-assignment-overflows', prop='C19', needs='a value wider than the slice it is assigned to',
      breaks='assigning a wide value to a slice at the top leaves bits beyond the width',
      edits=[('cmdis/bitstring.py', "            self._value |= (value.unsigned << start) & mask\n", "            self._value |= value.unsigned << start\n")],
      demo='''
from cmdis.bitstring import bitstring
b = bitstring(0, 8)
b[4:8] = bitstring(0xff, 8)
assert b.unsigned == 0xf0 and b.unsigned <= b.mask
'''),
 dict(id='b65-wide-bit-accepted', prop='C22', needs='a bitstring of several bits assigned to a single bit',
      breaks='assigning a bit string of several bits to one bit is silently truncated',
      edits=[('cmdis/bitstring.py', "            if value.width != 1:\n", "            if value.width < 1:\n")],
      demo='''
from cmdis.bitstring import bitstring
b = bitstring(0, 8)
try:
    b[2] = bitstring('10')
    assert 0
except ValueError:
    pass
'''),
 dict(id='b66-rotate-full-turn-carry', prop='C27', needs='a rotation by a non-zero multiple of the width',
      breaks='a full turn leaves the carry instead of copying bit 31',
      edits=[('cmdis/helpers.py', "        elif type == SRType.SRType_ROR:\n            result, carry_out = ROR_C(value, amount)\n",
              "        elif type == SRType.SRType_ROR:\n            if amount % value.width == 0:\n                result, carry_out = value, carry_in\n            else:\n                result, carry_out = ROR_C(value, amount)\n")],
      demo='''
from cmdis.helpers import *
from cmdis.bitstring import bitstring, bit0, bit1
r, c = Shift_C(bitstring(0x80000000), SRType.SRType_ROR, 32, bit0)
assert r == 0x80000000 and c == 1
r, c = Shift_C(bitstring(1), SRType.SRType_ROR, 1, bit0)
assert r == 0x80000000 and c == 1
'''),
 dict(id='b67-flag-toggle', prop='C29', needs='set a flag that is already set',
      breaks='writing a flag toggles it',
      edits=[('cmdis/model.py', "        v = self._cpu.xpsr\n        v[self.V_BIT] = bitstring(value, 1)\n        self._cpu.xpsr = v\n",
              "        v = self._cpu.xpsr\n        self._cpu.xpsr = v ^ (int(value) << self.V_BIT) if value else v & ~(1 << self.V_BIT)\n")],
      demo=MK + '''
c = machine()
c.apsr.v = 1
c.apsr.v = 1
assert c.apsr.v == 1
c.apsr.v = 0
assert c.apsr.v == 0
'''),
 dict(id='b68-offset-wraps', prop='C32', needs='a region larger than 64 KiB, accessed beyond its first 64 KiB',
      breaks='offsets into a region wrap at 64 KiB',
      edits=[('cmdis/mock_cpu.py', "                return m, addr - m.start\n", "                return m, (addr - m.start) & 0xffff\n")],
      demo=MK + '''
c = machine((0, 0x20000))
c.write32(0x10, 1)
c.write32(0x10010, 2)
assert c.read32(0x10) == 1 and c.read32(0x10010) == 2
'''),
 dict(id='b69-basepri-max-name', prop='C35', needs='MRS of BASEPRI_MAX',
      breaks='BASEPRI_MAX is shown as BASEPRI',
      edits=[('cmdis/formatter.py', "            elif lower == '001':\n                result = \"BASEPRI\"\n            elif lower == '010':\n                result = \"BASEPRI_MAX\"\n",
              "            elif lower in ('001', '010'):\n                result = \"BASEPRI\"\n")],
      demo=H + '''
a = text(0xf3ef, 0x8011); b = text(0xf3ef, 0x8012)
assert 'BASEPRI_MAX' in b and a != b, (a, b)
'''),
 dict(id='b70-pattern-junk-dropped', prop='C39', needs='a pattern with a stray character after a field name',
      breaks='a stray character after a field name is ignored instead of refused',
      edits=[('cmdis/decoder.py', "            elif c not in string.ascii_letters + string.digits:\n                # Switch to default state and back up.\n                state = 0\n                i -= 1\n",
              "            elif c not in string.ascii_letters + string.digits:\n                # Switch to default state.\n                state = 0\n")],
      demo='''
import cmdis.disasm
from cmdis.decoder import parse_spec
assert parse_spec('S Rn(4)') == [('S', 1), ('Rn', 4)]
try:
    parse_spec('S, Rn(4)')
    assert 0
except ValueError:
    pass
'''),
 dict(id='b71-register-shown-signed', prop='C47', needs='a register with bit 31 set',
      breaks='the decimal value of a register is shown as a signed number',
      path=LIB, edits=[('cmdis/__main__.py', '            print "%s = 0x%08x (%d)" % (reg, value, value)\n', '            print "%s = 0x%08x (%d)" % (reg, value, value.signed)\n')],
      demo=CON + '''
out = console(['wreg r3 0x80000001', 'reg r3'])
assert 'r3 = 0x80000001 (2147483649)' in out, out
'''),
 dict(id='b72-decode-error-ends-search', prop='C01', needs='a word whose most specific decoder hands it on',
      breaks='an encoding that another decoder should handle is reported as undefined',
      edits=[('cmdis/decoder.py', "                    except DecodeError:\n                        continue\n", "                    except DecodeError:\n                        break\n")],
      demo=H + '''
import cmdis.decoder
from cmdis.decoder import UndefinedInstructionError
def safe(*ws):
    try:
        return text(*ws)
    except UndefinedInstructionError:
        return 'undefined'
    except cmdis.decoder.UnpredictableError:
        return 'unpredictable'
seen = [safe(*ws) for ws in ((0xf85f, 0x1004), (0xf83f, 0x1008), (0xf85f, 0x1104))]
assert 'undefined' not in seen, seen
'''),
]
