"""Planted bugs b107.. (input of mkseed.py)."""
import os, sys
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), 'seeds_d.py')).read().split('\nSEEDS = [')[0])
SEEDS = [
 dict(id='b108-write-goes-on-elsewhere', prop='C32', needs='a 32-bit write whose last bytes fall behind the region while another region begins there',
      breaks='the part of a write that is past the end of a region goes to the region mapped behind it, at the wrong place',
      edits=[('cmdis/mock_cpu.py', "            data = data[:len(mem.data) - offset]\n            mem.data[offset:offset+len(data)] = data\n",
              "            kept = data[:len(mem.data) - offset]\n            mem.data[offset:offset+len(kept)] = kept\n            if len(kept) < len(data) and mem is not self._mem[-1]:\n                self.write_memory_block(self._mem[-1].start, data[len(kept):])\n")],
      demo=MK + '''
a = machine((0x1000, 16), (0x8000, 16))
a.write32(0x100e, 0x11223344)
assert a.read32(0x8000) == 0, hex(a.read32(0x8000).unsigned)
'''),
 dict(id='b109-pc-no-wrap', prop='C07', needs='the last instruction of the address space, where it is a data-processing instruction',
      breaks='PC saturates at the end of the address space',
      edits=[('cmdis/decoder.py', "    def _eval(self, cpu):\n        cpu.pc += self.size\n", "    def _eval(self, cpu):\n        pc = cpu.pc.unsigned + self.size\n        cpu.pc = pc if pc <= 0xffffffff else 0xfffffffe\n"),
             ('cmdis/instructions.py', "                cpu.apsr.v = overflow\n\n    def _eval(self, cpu):\n        cpu.pc += self.size\n", "                cpu.apsr.v = overflow\n")],
      demo=MK + '''
a = machine()
a.pc = 0xfffffffe
decoder.decode(hw(0x4008)).execute(a)
assert a.pc == 0, a.pc
'''),
 dict(id='b110-halfword-reversed-in-place', prop='C08', needs='revsh with the same register as source and destination',
      breaks='revsh writes the register half by half, so that with the same register twice old and new bytes are mixed',
      edits=[('cmdis/instructions.py', "            result[8:32] = Rm[0:8].sign_extend(24)\n            result[0:8] = Rm[8:16]\n",
              "            result[8:32] = Rm[0:8].sign_extend(24)\n            cpu.r[self.d] = result\n            result[0:8] = cpu.r[self.m][8:16]\n")],
      demo=MK + '''
a = machine()
a.r[2] = 0x00003481
decoder.decode(hw(0xbad2)).execute(a)   # revsh r2, r2
assert a.r[2] == 0xffff8134, hex(a.r[2].unsigned)
'''),
 dict(id='b111-ror-register-zero-amount', prop='C10', needs='rors by a register amount that is a non-zero multiple of 32',
      breaks='the carry of a rotation by a non-zero multiple of 32 is left unchanged',
      edits=[('cmdis/helpers.py', "        if type == SRType.SRType_LSL:\n            result, carry_out = LSL_C(value, amount)\n", "        if type == SRType.SRType_ROR and amount % value.width == 0:\n            result, carry_out = value, carry_in\n        elif type == SRType.SRType_LSL:\n            result, carry_out = LSL_C(value, amount)\n")],
      demo=MK + '''
a = machine()
a.r[0] = 0x80000001; a.r[1] = 64; a.apsr.c = 0
decoder.decode(hw(0x41c8)).execute(a)
assert a.r[0] == 0x80000001 and a.apsr.c == 1
'''),
 dict(id='b112-aligned-base', prop='C11', needs='stm with an unaligned base',
      breaks='a store-multiple aligns its base register',
      edits=[('cmdis/instructions.py', "        address = cpu.r[self.n]\n        for i in range(15):\n            if self.registers[i]:\n                # Unimp", "        address = cpu.r[self.n]\n        if address & 3:\n            cpu.r[self.n] = address = Align(address, 4)\n        for i in range(15):\n            if self.registers[i]:\n                # Unimp")],
      demo=MK + '''
a = machine((0x1000, 64))
a.r[0] = 0x1002
decoder.decode(hw(0xe880, 0x0006)).execute(a)
assert a.r[0] == 0x1002, a.r[0]
'''),
 dict(id='b113-short-offset', prop='C13', needs='strh with a register offset of an address beyond 2^31',
      breaks='the register offset of a store is sign-extended from its low half when the base is in the upper half of the address space',
      edits=[('cmdis/instructions.py', "        cpu.write_memory(address, cpu.r[self.t][0:self.memsize], self.memsize)\n", "        if self.memsize == 16 and address[31] and not hasattr(self, 'imm32'):\n            address = cpu.r[self.n] + offset[0:16].sign_extend(32)\n        cpu.write_memory(address, cpu.r[self.t][0:self.memsize], self.memsize)\n")],
      demo=MK + '''
a = machine((0x80008000, 64))
a.r[0] = 0xbeef; a.r[1] = 0x80000000; a.r[2] = 0x8000
decoder.decode(hw(0x5288)).execute(a)
assert a.read16(0x80008000) == 0xbeef
'''),
 dict(id='b114-mrs-basepri-unprivileged', prop='C16', needs='mrs of BASEPRI_MAX in unprivileged mode',
      breaks='BASEPRI_MAX can be read by unprivileged code',
      edits=[('cmdis/instructions.py', "                r[0:8] = cpu.read_register(CORE_REGISTER['basepri'])[0:8] if cpu.is_privileged else 0\n", "                r[0:8] = cpu.read_register(CORE_REGISTER['basepri'])[0:8] if cpu.is_privileged or self.SYSm[1] else 0\n")],
      demo=MK + '''
a = machine()
a.write_register('basepri', 0x40)
a.write_register('control', 1)
decoder.decode(hw(0xf3ef, 0x8012)).execute(a)
assert a.r[0] == 0, a.r[0]
'''),
 dict(id='b116-hash-of-wide', prop='C23', needs='two equal bit strings of more than 64 bits',
      breaks='wide bit strings hash by identity',
      edits=[('cmdis/bitstring.py', "        return hash(repr(self))\n", "        return hash((self._width, self._mask, self._value if self._width <= 64 else id(self)))\n")],
      demo=H + '''
from cmdis.bitstring import bitstring
a, b = bitstring(1 << 70, 80), bitstring(1 << 70, 80)
assert a == b and hash(a) == hash(b)
'''),
 dict(id='b117-negative-float-shift', prop='C24', needs='a left shift by a negative float',
      breaks='a left shift by a negative float returns a copy',
      edits=[('cmdis/bitstring.py', "            v = self._value << other\n            return bitstring(v, w)\n        else:\n            return NotImplemented\n", "            v = self._value << other\n            return bitstring(v, w)\n        else:\n            return bitstring(self) if isinstance(other, float) and other < 0 else NotImplemented\n")],
      demo=H + '''
from cmdis.bitstring import bitstring
try:
    bitstring(5, 8) << -1.5
except TypeError:
    pass
else:
    raise SystemExit(1)
'''),
 dict(id='b119-inactive-pointer-aligned', prop='C31', needs='CONTROL written while the inactive stack pointer is not a multiple of 8',
      breaks='writing CONTROL aligns the inactive stack pointer to 8 bytes',
      edits=[('cmdis/mock_cpu.py', "            self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if spsel else 'msp']]\n", "            self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if spsel else 'msp']]\n            self._regs[CORE_REGISTER['msp' if spsel else 'psp']] &= ~7\n")],
      demo=MK + '''
a = machine()
a.psp = 0x20000004
a.write_register('control', 0)
assert a.psp == 0x20000004, a.psp
'''),
 dict(id='b120-block-of-a-view', prop='C49', needs='a block read from memory and changed by the caller',
      breaks='reading a whole region returns the region itself',
      edits=[('cmdis/mock_cpu.py', "            return bytearray(mem.data[offset:offset+length])\n", "            return mem.data if offset == 0 and length == len(mem.data) else bytearray(mem.data[offset:offset+length])\n")],
      demo=MK + '''
a = machine((0x1000, 16))
b = a.read_memory_block(0x1000, 16)
b[0] = 7
assert a.read8(0x1000) == 0
'''),
 dict(id='b121-iepsr-name', prop='C35', needs='IEPSR read through mrs',
      breaks='IEPSR prints as EPSR',
      edits=[('cmdis/formatter.py', "            elif lower == '110':\n                result = \"EPSR\"\n            elif lower == '111':\n", "            elif lower[1] and lower[2]:\n                result = \"EPSR\"\n            elif lower == '111':\n")],
      demo=H + '''
from cmdis.formatter import Formatter
t = Formatter(CpuModel()).format(decoder.decode(hw(0xf3ef, 0x8007)))
assert 'IEPSR' in t, t
'''),
 dict(id='b123-pattern-digit-in-name', prop='C39', needs='a name that ends in a digit, followed by fixed bits without white space',
      breaks='the digits after a name fix bits when they are 0 or 1 and follow a capital letter',
      edits=[('cmdis/decoder.py', "            elif c not in string.ascii_letters + string.digits:\n", "            elif c not in string.ascii_letters + string.digits or (c in '01' and ident[-1:] == 'Z'):\n")],
      demo=H + '''
from cmdis.decoder import parse_spec
assert parse_spec('Z1 000000000000000')[0] == ('Z1', 1)
'''),
 dict(id='b125-long-number', prop='C44', needs='a number spelled with more than ten characters and beyond 2^31', path=LIB,
      breaks='a long spelling of a number loses bit 31',
      edits=[('cmdis/__main__.py', "        value = self.convert_value(args[1])\n        self.cpu.write_register(reg, value)\n", "        value = self.convert_value(args[1])\n        self.cpu.write_register(reg, value & 0xffffffff if args[1][:1] != '0' else value & 0x7fffffff if len(args[1]) > 10 else value)\n")],
      demo=CON + '''
out = console(['wreg r0 0x0_ffff_ffff', 'r0', 'exit'], b'\\x00\\xbf' * 64)
assert 'r0 = 0xffffffff' in out, out
'''),
 dict(id='b126-dump-padding', prop='C50', needs='a stack pointer with leading zero digits',
      breaks='the stack pointer is dumped without leading zeros',
      edits=[('cmdis/model.py', "        print(\"r1=%08x    r5=%08x    r9 =%08x   sp =%08x\" % (", "        print(\"r1=%08x    r5=%08x    r9 =%08x   sp =%8x\" % (")],
      demo=MK + '''
import io, contextlib
a = machine()
a.sp = 0x100
o = io.StringIO()
with contextlib.redirect_stdout(o):
    a.dump()
assert 'sp =00000100' in o.getvalue(), o.getvalue()
'''),
 dict(id='b115-mask-not-taken-over', prop='C19', needs='a bit string set to a narrower one, and then an arithmetic operation that overflows',
      breaks='set() keeps the wider of the two masks, so that later results do not fit the width',
      edits=[('cmdis/bitstring.py', "        self._mask = other._mask\n", "        self._mask |= other._mask\n")],
      demo=H + '''
from cmdis.bitstring import bitstring
a = bitstring(0, 8)
a.set(bitstring(15, 4))
a += 1
assert a.unsigned == 0, a.unsigned
'''),
]
