"""Planted bugs b07.. (input of mkseed.py)."""
H = '''
from cmdis.disasm import decoder
from cmdis.model import CpuModel, CpuModelDelegate
from cmdis.formatter import Formatter
class D(CpuModelDelegate):
    def __init__(self):
        self.r = {}
        self.mem = {}
        self.log = []
    def read_register(self, n):
        return self.r.get(int(n), 0)
    def write_register(self, n, v):
        self.r[int(n)] = int(v)
    def read_memory(self, addr, size=32):
        return sum(self.mem.get((int(addr) + k) & 0xffffffff, 0) << (8 * k) for k in range(int(size) // 8))
    def write_memory(self, addr, value, size=32):
        self.log.append((int(addr), int(value), int(size)))
        for k in range(int(size) // 8):
            self.mem[(int(addr) + k) & 0xffffffff] = (int(value) >> (8 * k)) & 0xff
def hw(*ws):
    out = bytearray()
    for w in ws:
        out += bytearray([w & 0xff, w >> 8])
    return out
def cpu():
    c = CpuModel(); c.delegate = D(); return c
def text(*ws, **kw):
    i = decoder.decode(hw(*ws), kw.get('address', 0))
    return Formatter(cpu()).format(i)
'''
CON = '''
import os, shutil, struct, subprocess, sys, tempfile
def console(lines, image=b''):
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, 'image.bin')
        with open(p, 'wb') as f:
            f.write(image)
        r = subprocess.run([sys.executable, '-m', 'cmdis', p], input='\\n'.join(lines) + '\\n', stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, cwd=d, timeout=120)
        return r.stdout
    finally:
        shutil.rmtree(d)
'''
LIB = '/opt/cmdis-build/lib'
SEEDS = [
 dict(id='b07-inactive-sp-mirrored', prop='C31', needs='write the stack pointer that CONTROL does not select, then read sp',
      breaks='writing the inactive stack pointer changes sp',
      edits=[('cmdis/mock_cpu.py', "        elif (reg == CORE_REGISTER['msp'] and spsel == 0) or \\\n                (reg == CORE_REGISTER['psp'] and spsel == 1):",
              "        elif reg in (CORE_REGISTER['msp'], CORE_REGISTER['psp']):")],
      demo=H + '''
from cmdis.mock_cpu import MockCpuModelDelegate
c = CpuModel(); c.delegate = MockCpuModelDelegate()
c.sp = 0x2000
c.psp = 0x3000
assert c.sp == 0x2000, c.sp
'''),
 dict(id='b08-region-last-byte', prop='C33', needs='a byte access to the very last byte of a mapped region',
      breaks='the last byte of a region is treated as unmapped',
      edits=[('cmdis/mock_cpu.py', 'if m.start <= addr <= m.end:', 'if m.start <= addr < m.end:')],
      demo=H + '''
from cmdis.mock_cpu import MockCpuModelDelegate
m = MockCpuModelDelegate(); m.add_memory(0x100, 0x40)
m.write_memory(0x13f, 0x5a, 8)
assert m.read_memory(0x13f, 8) == 0x5a
'''),
 dict(id='b10-negative-deref-offset', prop='C44', needs='a bracketed console argument with a negative offset', path=LIB,
      breaks='the sign of the offset is ignored',
      edits=[('cmdis/__main__.py', 'offset = int(offset.strip(), base=0)', "offset = int(offset.strip(' +-'), base=0)")],
      demo=CON + '''
out = console(['wreg r0 0x20', 'wreg r1 [r0,-0x10]', 'reg r1', 'exit'], struct.pack('<20I', *range(0x100, 0x114)))
assert 'r1 = 0x00000104 ' in out, out
'''),
 dict(id='b11-alias-ww', prop='C36', needs='the alias ww of write32', path=LIB,
      breaks='ww writes halfwords',
      edits=[('cmdis/__main__.py', "'ww' :      self.handle_write32,", "'ww' :      self.handle_write16,")],
      demo=CON + '''
out = console(['ww 0x100 0x12345678', 'read32 0x100', 'exit'])
assert '12345678' in out, out
'''),
 dict(id='b12-read16-odd', prop='C37', needs='read16 at an odd address', path=LIB,
      breaks='the address is rounded down but the label is not',
      edits=[('cmdis/__main__.py', '''        elif width == 16:
            byteData = self.cpu.read_memory_block(addr, count)''', '''        elif width == 16:
            byteData = self.cpu.read_memory_block(addr & ~1, count)''')],
      demo=CON + '''
out = console(['read16 0x41', 'exit'], bytes(range(0x80)))
assert '4241' in out, out
'''),
 dict(id='b13-bfi-spill', prop='C38', needs='a field value wider than the field',
      breaks='excess bits of the field spill into the neighbouring bits',
      edits=[('cmdis/utilities.py', 'value |= (field << lsb) & mask', 'value |= field << lsb')],
      demo='''
from cmdis.utilities import bfi
assert bfi(0, 0x1ff, 7, 4) == 0xf0, bfi(0, 0x1ff, 7, 4)
'''),
 dict(id='b14-setitem-lowest-negative', prop='C22', needs='assignment to index -width',
      breaks='the most negative valid index is refused',
      edits=[('cmdis/bitstring.py', 'if key >= self._width:', 'if abs(key) >= self._width:')],
      demo='''
from cmdis.bitstring import bitstring
b = bitstring('0000'); b[-4] = 1
assert b == '0001', b
'''),
 dict(id='b15-lowest-set-bit-wide', prop='C26', needs='a bit string wider than 32 bits whose lowest set bit is bit 32 or above',
      breaks='the lowest set bit of a wide string is not found',
      edits=[('cmdis/bitstring.py', 'for n in range(0, self._width):', 'for n in range(0, min(self._width, 32)):')],
      demo='''
from cmdis.bitstring import bitstring
assert bitstring(1 << 40, 64).lowest_set_bit() == 40
'''),
 dict(id='b17-bl-label-far', prop='C34', needs='a bl whose offset is outside +-4 MB (J1/J2 matter)',
      breaks='the printed target of a far bl ignores J1 and J2',
      edits=[('cmdis/instructions.py', '''    i.with_link = True
    i.operands = [LabelOperand(i.imm32.signed)]''', '''    i.with_link = True
    i.operands = [LabelOperand((S % imm10 % imm11 % '0').signed)]''')],
      demo=H + '''
t = text(0xf000, 0xf800)
j = text(0xf000, 0xd000)
assert '0xc00004' in j, j
'''),
 dict(id='b18-mrs-basepri-max', prop='C16', needs='mrs of basepri_max with a non-zero basepri',
      breaks='basepri_max reads as zero',
      edits=[('cmdis/instructions.py', "elif self.SYSm[0:3] in ('001', '010'):", "elif self.SYSm[0:3] == '001':")],
      demo=H + '''
i = decoder.decode(hw(0xf3ef, 0x8012))
c = cpu(); c.delegate.r = {-2: 0x40, 15: 0x100}
i.execute(c)
assert c.delegate.r[0] == 0x40, c.delegate.r
'''),
 dict(id='b19-literal-align-late', prop='C12', needs='a byte or halfword literal load whose offset is no multiple of 4',
      breaks='the address of a literal load is aligned after the offset is added',
      edits=[('cmdis/instructions.py', '''        base = Align(cpu.pc_for_instr, 4)
        address = (base + self.imm32) if self.add else (base - self.imm32)''', '''        base = cpu.pc_for_instr
        address = Align((base + self.imm32) if self.add else (base - self.imm32), 4)''')],
      demo=H + '''
i = decoder.decode(hw(0xf89f, 0x1003))
c = cpu(); c.delegate.r = {15: 0x100}; c.delegate.mem = {0x107: 0x77, 0x104: 0x11}
i.execute(c)
assert c.delegate.r[1] == 0x77, c.delegate.r
'''),
 dict(id='b20-index-error-name', prop='C40', needs='assignment to an index outside the bit string',
      breaks='the error path refers to an undefined name',
      edits=[('cmdis/bitstring.py', '''        if key >= self._width:
            raise IndexError("index out of range")''', '''        if key >= self._width:
            raise IndexError("index %d out of range for width %d" % (key, width))''')],
      demo='''
from cmdis.bitstring import bitstring
b = bitstring('0000')
try:
    b[4] = 1
except IndexError:
    pass
else:
    raise SystemExit(1)
'''),
 dict(id='b21-reset-sp-at-end', prop='C45', needs='an initial stack pointer exactly at the end of mapped memory', path=LIB,
      breaks='a stack pointer just above the RAM region is not loaded',
      edits=[('cmdis/__main__.py', 'self.cpu.delegate._find_mem(sp.unsigned - 4)', 'self.cpu.delegate._find_mem(sp.unsigned)')],
      demo=CON + '''
out = console(['reg sp', 'exit'], struct.pack('<2I', 0x20010000, 0x101))
assert 'sp = 0x20010000 ' in out, out
'''),
 dict(id='b22-disasm-center-odd', prop='C46', needs='disasm -c with a length whose half is odd', path=LIB,
      breaks='the listing starts at an odd address',
      edits=[('cmdis/__main__.py', '''        if args.center:
            addr -= count // 2

        # Since we're disassembling, make sure the Thumb bit is cleared.
        addr &= ~1
''', '''        # Since we're disassembling, make sure the Thumb bit is cleared.
        addr &= ~1

        if args.center:
            addr -= count // 2
''')],
      demo=CON + '''
out = console(['disasm -c 0x20 6', 'exit'], b'\\x11\\x22' * 64)
assert '0x0000001c:' in out, out
'''),
 dict(id='b23-s19-alias', prop='C28', needs='float registers s18 and s19 both used by name',
      breaks='two register names reach the same register',
      edits=[('cmdis/registers.py', "'s19': 0x53,", "'s19': 0x52,")],
      demo=H + '''
c = cpu()
c.write_register('s18', 1); c.write_register('s19', 2)
assert c.read_register('s18') == 1
'''),
 dict(id='b24-model-signed-value', prop='C30', needs='a memory write of a bit string with its top bit set, seen by the delegate',
      breaks='the delegate is given a negative number',
      edits=[('cmdis/model.py', '''        if isinstance(value, bitstring):
            value = value.unsigned
        if self._delegate is not None:
            self._delegate.write_memory(addr, value, size)''', '''        if isinstance(value, bitstring):
            value = value.signed
        if self._delegate is not None:
            self._delegate.write_memory(addr, value, size)''')],
      demo=H + '''
from cmdis.bitstring import bitstring
c = cpu()
c.write_memory(0x10, bitstring(0x80, 8), 8)
assert c.delegate.log == [(0x10, 0x80, 8)], c.delegate.log
'''),
 dict(id='b25-xpsr-suffix', prop='C35', needs='msr to xpsr', breaks='the mask suffix of xpsr is not printed',
      edits=[('cmdis/formatter.py', 'if lower < 4 and self._mask is not None:', 'if lower < 3 and self._mask is not None:')],
      demo=H + '''
assert 'XPSR_nzcvq' in text(0xf380, 0x8803), text(0xf380, 0x8803)
'''),
 dict(id='b27-floordiv-float', prop='C21', needs='division of a value above 2^53',
      breaks='division goes through a float and loses low bits',
      edits=[('cmdis/bitstring.py', 'self._value //= value', 'self._value = int(self._value / value)')],
      demo='''
from cmdis.bitstring import bitstring
x = (1 << 62) + 1
assert (bitstring(x, 64) // 1).unsigned == x
'''),
 dict(id='b28-eq-text-width', prop='C23', needs='comparison with a text of another width and the same value',
      breaks='texts of any width compare equal when the value is equal',
      edits=[('cmdis/bitstring.py', 'return self.__eq__(bitstring(other))', 'return self._value == int(other, base=2)')],
      demo='''
from cmdis.bitstring import bitstring
assert not (bitstring('01') == '1')
'''),
 dict(id='b29-bytes-partial', prop='C25', needs='a width that is no multiple of 8',
      breaks='the top partial byte is lost',
      edits=[('cmdis/bitstring.py', 'for i in range((self._width + 7) // 8):', 'for i in range(max(1, self._width // 8)):')],
      demo='''
from cmdis.bitstring import bitstring
assert bitstring(0xabc, 12).bytes == bytearray([0xbc, 0x0a])
'''),
 dict(id='b30-store-unmasked', prop='C13', needs='a byte or halfword store seen by a delegate that does not reduce the value',
      breaks='the whole register is passed as the value',
      edits=[('cmdis/instructions.py', 'cpu.write_memory(address, cpu.r[self.t][0:self.memsize], self.memsize)', 'cpu.write_memory(address, cpu.r[self.t], self.memsize)')],
      demo=H + '''
i = decoder.decode(hw(0x7008))
c = cpu(); c.delegate.r = {0: 0x12345678, 1: 0x100}
i.execute(c)
assert c.delegate.log == [(0x100, 0x78, 8)], c.delegate.log
'''),
 dict(id='b31-shift-amount-7bits', prop='C09', needs='a register shift amount of 128 or more',
      breaks='only seven bits of the shift amount are used',
      edits=[('cmdis/instructions.py', 'shift_n = cpu.r[self.m][0:8].unsigned', 'shift_n = cpu.r[self.m][0:7].unsigned')],
      demo=H + '''
i = decoder.decode(hw(0x4088))
c = cpu(); c.delegate.r = {0: 5, 1: 0x80, 15: 0x100, 16: 0}
i.execute(c)
assert c.delegate.r[0] == 0, c.delegate.r
'''),
 dict(id='b32-undefined-at-end', prop='C06', needs='an undefined 32-bit instruction as the last four bytes',
      breaks='the listing ends silently',
      edits=[('cmdis/disasm.py', 'if endAddress - address < 4:', 'if endAddress - address <= 4:')],
      demo=H + '''
from cmdis.disasm import Disassembler
from cmdis.decoder import UndefinedInstructionError
try:
    list(Disassembler().disasm(hw(0xbf00, 0xffff, 0xffff), 0))
except UndefinedInstructionError:
    pass
else:
    raise SystemExit(1)
'''),
 dict(id='b33-lsr-amount-assert', prop='C17', needs='lsrs by a register amount above 32',
      breaks='the shift helper asserts that the amount fits',
      edits=[('cmdis/helpers.py', '''def LSR_C(x, shift):
    assert shift > 0
''', '''def LSR_C(x, shift):
    assert 0 < shift <= x.width
''')],
      demo=H + '''
i = decoder.decode(hw(0x40c8))
c = cpu(); c.delegate.r = {0: 5, 1: 40, 15: 0x100, 16: 0}
i.execute(c)
'''),
 dict(id='b34-stm-wback-in-list', prop='C03', needs='stm.w with write-back and the base in the list',
      breaks='an unpredictable encoding is decoded',
      edits=[('cmdis/instructions.py', '''    if i.n == 15 or i.registers.bit_count() < 2:
        raise UnpredictableError()
    if i.wback and i.registers[i.n] == '1':
        raise UnpredictableError()''', '''    if i.n == 15 or i.registers.bit_count() < 2:
        raise UnpredictableError()
    if i.wback and i.registers[i.n] == 1 and i.n < 8:
        raise UnpredictableError()''')],
      demo=H + '''
from cmdis.decoder import UnpredictableError
try:
    decoder.decode(hw(0xe8a9, 0x0201))
except UnpredictableError:
    pass
else:
    raise SystemExit(1)
'''),
 dict(id='b35-tst-w-pc', prop='C07', needs='tst.w with shifted operand, pc observed',
      breaks='tst.w advances pc by two',
      edits=[('cmdis/instructions.py', '''        result = cpu.r[self.n] & shifted
        cpu.apsr.n = result[31]
        cpu.apsr.z = result.is_zero_bit()
        cpu.apsr.c = carry
        cpu.pc += self.size''', '''        result = cpu.r[self.n] & shifted
        cpu.apsr.n = result[31]
        cpu.apsr.z = result.is_zero_bit()
        cpu.apsr.c = carry
        cpu.pc += 4 if self.shift_n else 2''')],
      demo=H + '''
i = decoder.decode(hw(0xea10, 0x0f01))
c = cpu(); c.delegate.r = {15: 0x100}
i.execute(c)
assert c.delegate.r[15] == 0x104, c.delegate.r
'''),
 dict(id='b36-zero-extend-in-place', prop='C20', needs='the bit string is used again after zero_extend',
      breaks='zero_extend changes the width of its operand',
      edits=[('cmdis/bitstring.py', '''            return self
        return bitstring(self, width)''', '''            return self
        self.width = width
        return self''')],
      demo='''
from cmdis.bitstring import bitstring
b = bitstring('101'); b.zero_extend(8)
assert b.width == 3
'''),
]
