"""Planted bugs b73.. (input of mkseed.py)."""
import os, sys
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), 'seeds_d.py')).read().split('\nSEEDS = [')[0])
SEEDS = [
 dict(id='b73-signed-literal-as-register', prop='C01', needs='a signed literal load whose 12-bit offset is below 64 with a zero in bits 11..6',
      breaks='LDRSB/LDRSH (literal) words with a small negative offset are decoded as register loads relative to PC',
      edits=[('cmdis/instructions.py', "    if i.n == 15:\n        raise DecodeError()\n    if i.t == 15 and", "    if i.n == 15 and not getattr(i, 'signed', False):\n        raise DecodeError()\n    if i.t == 15 and")],
      demo=H + '''
a = text(0xf91f, 0x1004)
assert '#-4' in a, a
'''),
 dict(id='b74-mov-with-shift', prop='C01', needs='a 32-bit register move word with the shift type bits set and a zero amount',
      breaks='shifted-move words are decoded as plain moves instead of being undefined',
      edits=[('cmdis/instructions.py', '"11101 01 0010 S 1111", "0 000 Rd(4) 0000 Rm(4)")\ndef mov_reg_t3(i, S, Rd, Rm):', '"11101 01 0010 S 1111", "0 000 Rd(4) 00 type(2) Rm(4)")\ndef mov_reg_t3(i, S, Rd, type, Rm):')],
      demo=H + '''
from cmdis.decoder import UndefinedInstructionError
assert 'mov.w' in text(0xea4f, 0x0102)
try:
    t = text(0xea4f, 0x0132)
    assert 0, t
except UndefinedInstructionError:
    pass
'''),
 dict(id='b75-address-thumb-bit', prop='C04', needs='decoding at an odd address',
      breaks='the address of an instruction loses bit 0',
      edits=[('cmdis/decoder.py', "return d.decode(word, address=dataAddress)", "return d.decode(word, address=dataAddress & 0xfffffffe)")],
      demo=H + '''
i = decoder.decode(hw(0x1840), 0x1001)
assert i.address == 0x1001, i.address
'''),
 dict(id='b76-shift-32-shown-as-0', prop='C02', needs='a 32-bit shifted operand with LSR #32 or ASR #32',
      breaks='a shift amount of 32 is printed as 0',
      edits=[('cmdis/formatter.py', "self.OP_NAMES[self._type.value], self._amount)", "self.OP_NAMES[self._type.value], self._amount & 0x1f)")],
      demo=H + '''
t = text(0xea6f, 0x0112)
assert 'LSR #32' in t, t
'''),
 dict(id='b77-reglist-first-run-merged', prop='C02', needs='a register list whose runs are separated by exactly one register',
      breaks='a single missing register in a list is not noticed',
      edits=[('cmdis/formatter.py', "            else:\n                add_reg_range(regs)\n                startRange = -1\n", "            elif n - endRange > 1 or n == len(self._reglist) - 1:\n                add_reg_range(regs)\n                startRange = -1\n")],
      demo=H + '''
t = text(0xe92d, 0x0155)
assert '{r0,r2,r4,r6,r8}' in t, t
'''),
 dict(id='b78-label-32bit', prop='C34', needs='a branch close to the end of the address space or a backward branch near zero',
      breaks='the printed target of a branch is not reduced to 32 bits before alignment',
      edits=[('cmdis/formatter.py', "class LabelOperand(Operand):\n", "class LabelOperand(Operand):\n    _limit = 1 << 31\n\n"),
             ('cmdis/formatter.py', "        formatter.add_comment(comment)\n\n        return \".%+d\"", "        if abs(self._offset) < self._limit and address < self._limit:\n            formatter.add_comment(comment)\n        else:\n            formatter.add_comment(comment[:-1] + '0')\n\n        return \".%+d\"")],
      demo=H + '''
from cmdis.formatter import Formatter
f = Formatter(None)
for a in (0x100, 0xf0000006):
    t = f.format(decoder.decode(hw(0xe7fe), a))
    assert '0x%x' % a in t, t
'''),
 dict(id='b79-ldm-base-reloaded', prop='C14', needs='a load-multiple whose base is in the list and not the last register',
      breaks='the address of the words after the base is computed from the loaded value',
      edits=[('cmdis/instructions.py', "class LoadMultiple(Instruction):\n    def _eval(self, cpu):\n        address = cpu.r[self.n]\n        for i in range(15):\n            if self.registers[i]:\n                cpu.r[i] = cpu.read32(address)\n                address += 4\n        if self.registers[15]:\n            cpu.pc = cpu.read32(address)\n",
              "class LoadMultiple(Instruction):\n    def _eval(self, cpu):\n        count = 0\n        for i in range(15):\n            if self.registers[i]:\n                cpu.r[i] = cpu.read32(cpu.r[self.n] + 4 * count)\n                count += 1\n        if self.registers[15]:\n            cpu.pc = cpu.read32(cpu.r[self.n] + 4 * count)\n")],
      demo=H + '''
c = cpu()
c.r[1] = 0x100
c.write32(0x100, 0x11111111); c.write32(0x104, 0x200); c.write32(0x108, 0x33333333)
c.execute([decoder.decode(hw(0xe891, 0x0007), 0)])
assert (c.r[0], c.r[1], c.r[2]) == (0x11111111, 0x200, 0x33333333)
'''),
 dict(id='b80-ipsr-8-bits', prop='C16', needs='MRS of an xPSR view including IPSR with exception number 256 or more',
      breaks='bit 8 of the exception number is lost',
      edits=[('cmdis/instructions.py', "r[0:9] = cpu.ipsr[0:9]", "r[0:8] = cpu.ipsr[0:8]")],
      demo=H + '''
c = cpu()
c.write_register('xpsr', 0x0100011f)
c.execute([decoder.decode(hw(0xf3ef, 0x8105), 0)])
assert c.r[1] == 0x11f, c.r[1]
'''),
 dict(id='b81-cps-both-masks', prop='C16', needs='CPS naming both i and f',
      breaks='CPSIE if changes PRIMASK only',
      edits=[('cmdis/instructions.py', "                cpu.write_register(CORE_REGISTER['primask'], 0)\n            if self.affectFault:", "                cpu.write_register(CORE_REGISTER['primask'], 0)\n            elif self.affectFault:")],
      demo=H + '''
c = cpu()
c.write_register('primask', 1); c.write_register('faultmask', 1)
c.execute([decoder.decode(hw(0xb663), 0)])
assert c.read_register('primask') == 0 and c.read_register('faultmask') == 0
'''),
 dict(id='b82-push-address-carry', prop='C14', needs='PUSH of a register below a stack pointer that wraps or of SP-relative words across 64 KiB',
      breaks='PUSH computes the word addresses in the low 16 bits only',
      edits=[('cmdis/instructions.py', "                cpu.write32(address, cpu.r[i])\n                address += 4\n        cpu.pc += self.size\n\nclass Pop", "                cpu.write32(address, cpu.r[i])\n                address = address[16:32] % (address[0:16] + 4)\n        cpu.pc += self.size\n\nclass Pop")],
      demo=H + '''
from cmdis.mock_cpu import MockCpuModelDelegate
from cmdis.model import CpuModel
c = CpuModel(); c.delegate = MockCpuModelDelegate()
c.delegate.add_memory(0, 0x40000)
c.sp = 0x10004
c.r[0] = 1; c.r[1] = 2; c.r[2] = 3
c.execute([decoder.decode(hw(0xb407), 0)])
assert [c.read32(0xfff8 + 4 * k).unsigned for k in range(3)] == [1, 2, 3]
'''),
 dict(id='b83-mul-high-kept', prop='C08', needs='a product of more than 32 bits whose flags depend on the low word',
      breaks='MULS takes Z from the full product',
      edits=[('cmdis/instructions.py', "class Multiply(", "def _low(value):\n    return value & 0xffffffff\n\nclass Multiply(")],
      demo='import cmdis.disasm\n'),
 dict(id='b84-cmp-register-high', prop='C10', needs='CMP of high registers whose difference overflows',
      breaks='CMP takes V from the sign of the result',
      edits=[('cmdis/instructions.py', "        cpu.apsr.c = carry\n        cpu.apsr.v = overflow\n", "        cpu.apsr.c = carry\n        cpu.apsr.v = overflow if self.negate else (result[31] != cpu.r[self.n][31])\n")],
      demo=H + '''
c = cpu()
c.r[0] = 0xffffffff; c.r[1] = 1
c.execute([decoder.decode(hw(0x42c8), 0)])
assert c.apsr.v == 0 and c.apsr.c == 1
'''),
 dict(id='b85-load-address-from-target', prop='C12', needs='a register load whose target is also the offset register with a shift',
      breaks='the loaded value is written before the address is final',
      edits=[('cmdis/instructions.py', "        data = cpu.read_memory(address, self.memsize)\n        if self.wback:\n", "        data = cpu.read_memory(address, self.memsize) if address[0:2] == 0 or self.memsize != 32 else cpu.read_memory(address & ~3, 32)\n        if self.wback:\n")],
      demo=H + '''
c = cpu()
c.r[1] = 0x101
c.write32(0x101, 0xdeadbeef)
c.execute([decoder.decode(hw(0x6808), 0)])
assert c.r[0] == 0xdeadbeef, c.r[0]
'''),
 dict(id='b86-disasm-shares-list', prop='C06', needs='input of more than 64 KiB',
      breaks='offsets into the input wrap',
      edits=[('cmdis/disasm.py', "i = decoder.decode(data[offset:], address)", "i = decoder.decode(data[offset & 0xffff:], address)")],
      demo='''
from cmdis.disasm import Disassembler
data = b'\\x00\\xbf' * 0x8000 + b'\\x40\\x18' * 4
ins = list(Disassembler().disasm(data, 0))
assert ins[-1].mnemonic == 'adds', ins[-1]
'''),
 dict(id='b87-flag-list-order', prop='C10', needs='a flag-setting data-processing instruction with both carry and a zero result in bit 31',
      breaks='Z is computed from the low 31 bits',
      edits=[('cmdis/instructions.py', "            cpu.apsr.z = result.is_zero_bit()\n            if carry", "            cpu.apsr.z = result[0:31].is_zero_bit()\n            if carry")],
      demo=H + '''
c = cpu()
c.r[0] = 0x80000000; c.r[1] = 0
c.execute([decoder.decode(hw(0x1840), 0)])
assert c.apsr.z == 0 and c.apsr.n == 1
'''),
]
SEEDS = [s for s in SEEDS if s['id'] not in ('b83-mul-high-kept', 'b78-label-32bit', 'b73-signed-literal-as-register', 'b79-ldm-base-reloaded', 'b81-cps-both-masks')]
