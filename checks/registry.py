"""Which analysis tasks decide which property."""
from . import instr, instr2, bits, archfn, model, mock, stream, utils, console, names, indep
from .instr import MODULES, ROWS, ROW, FAMILY
from spec.kit import K

CPU = tuple(MODULES)
FUNCS = {}
PROPS = {}


def call(fn, S, args, props):
    return FUNCS[fn](S, args, props)


class Prop(object):
    def __init__(self, pid, tasks, explanation, assumptions=(), samples=None, technique=None, note=None):
        self.technique, self.note = technique, note
        self.pid, self._tasks, self.explanation = pid, tasks, explanation
        self.assumptions = list(assumptions)
        self._samples = samples
        PROPS[pid] = self

    def tasks(self, tier):
        return self._tasks(tier)

    def samples(self, rep):
        out = []
        for (p, r), n in sorted(rep.ok.items())[:6]:
            out.append({'rule': r, 'discharged': n})
        out += [{'unit': u} for u in sorted(rep.units)[:6]]
        for b in rep.bad[:3]:
            out.append({'violation': b['key'], 'where': b['where'], 'witness': b['witness']})
        return out


# ------------------------------------------------------------ instructions
def f_row(S, args, props):
    name, ph, fix = args
    return instr.run_task(S, ROW[name], ph, dict(fix), props)


FUNCS['row'] = f_row
FUNCS['rest'] = lambda S, args, props: instr2.run_rest(S, args[0], dict(args[1]), props)
FUNCS['served'] = lambda S, args, props: instr2.run_served(S, args[0], props)
FUNCS['truncated'] = lambda S, args, props: instr2.run_truncated(S, *args)

HEAVY = {'ldm.w': 0, 'stm.w': 1, 'pop.w': 2, 'push.w': 3, 'asrs:dp': 4}


def rows(phases, kinds=None, names=None):
    out = []
    for row in ROWS:
        if kinds and FAMILY[row.kind] not in kinds and not ('C08' in kinds and instr.shifted(row)):
            continue
        if names and row.name not in names:
            continue
        for ph, fix in instr.tasks(row, phases):
            out.append((CPU, 'row', (row.name, ph, tuple(sorted(fix.items())))))
    out.sort(key=lambda t: HEAVY.get(t[2][0], 9))
    first = []
    if 'exec' in phases:
        for row in ROWS:
            if (not kinds or FAMILY[row.kind] in kinds) and (not names or row.name in names):
                first += [(CPU, 'row', (row.name, ph, tuple(sorted(fix.items())))) for ph, fix in instr.sample_tasks(row)]
    return first + out


def rest():
    return [(CPU, 'rest', (size, tuple(sorted(fix.items())))) for size, fix in instr2.rest_tasks()]


def truncated():
    return [(CPU, 'truncated', (n, w, kind)) for n, w in instr2.TRUNC for kind in ('bytearray', 'bytes')]


ENGINE = ('Abstract interpretation of the Python sources (AST, no execution): every integer is a vector of Boolean decision '
          'diagrams over the symbolic bits of the instruction word, address, registers and memory; branches are joined, '
          'exceptions and heap updates are guarded; equal normal forms mean equality for every input. ')
ASSUME = ['the abstract transfer functions in /verif/absint model the Python 3 semantics of the constructs used',
          'the encoding table in /verif/spec/thumb.py states the architecture for the supported encodings',
          'an obligation whose normal forms differ is reported only with a point at which both forms evaluate differently']

Prop('C01', lambda tier: rows(['decode']) + rest(), ENGINE +
     'Each of the reference encodings is decoded with all its field bits symbolic and must not end in an undefined '
     'instruction, and must carry the reference mnemonic; the complement of all encodings must be undefined.', ASSUME)
Prop('C02', lambda tier: rows(['format']) + [(CPU, 'served', (n,)) for n in range(8)], ENGINE +
     'The formatted text is a symbolic text whose parts are decision diagrams; it is compared with the reference operand '
     'text of the encoding for every field value. Particular words of every kind are also formatted by a formatter that served another one.', ASSUME)
Prop('C03', lambda tier: rows(['decode']), ENGINE +
     'The guard under which decoding raises the unpredictable error is compared with the reference condition.', ASSUME)
Prop('C04', lambda tier: rows(['identity']), ENGINE +
     'Size, bytes and address of the decoded instruction are compared with the input.', ASSUME)
Prop('C05', lambda tier: rows(['decode']) + rest() + truncated(), ENGINE +
     'The guards of all escaping exceptions other than the documented ones must be empty, on complete words of every '
     'encoding, on words of no encoding and on inputs of 0 to 3 bytes.', ASSUME)
for _p, _what in (('C07', 'the final PC'), ('C10', 'the final status register'),
                  ('C11', 'every register and memory access outside the architected effects')):
    Prop(_p, lambda tier: rows(['exec']), ENGINE +
         'Each encoding is executed abstractly on an arbitrary register file and memory; %s is compared with the '
         'reference semantics.' % _what, ASSUME)
for _p, _what in (('C08', 'data-processing and address'), ('C09', 'shift and rotate'), ('C12', 'load'), ('C13', 'store'),
                  ('C14', 'multiple-transfer'), ('C15', 'branch'), ('C16', 'system')):
    Prop(_p, lambda tier, p=_p: rows(['exec'], {p}), ENGINE +
         'Each %s encoding is executed abstractly on an arbitrary register file and memory; the results and accesses are '
         'compared with the reference semantics.' % _what, ASSUME)
Prop('C17', lambda tier: rows(['exec', 'format']), ENGINE +
     'The guards of all exceptions escaping from execution and formatting must be empty.', ASSUME)
Prop('C18', lambda tier: rows(['value-exec', 'value-format']), ENGINE +
     'Every heap write during execution and formatting is journalled; none may change an object reachable from the decoded '
     'instruction or the modules. If one does, later behaviour is compared with a fresh copy.', ASSUME)
Prop('C48', lambda tier: rows(['pure']) + rest(), ENGINE +
     'Every heap write during decoding of each encoding and of the undefined words is journalled; none may change an object reachable from '
     'the modules. If one does, outcome, identity, text and effect of every word decoded before or after another one (and the same one at '
     'another address) are compared with those of a first decode; where arbitrary words leave that undecided, particular words of every '
        'encoding are decoded before and after each other.', ASSUME)
Prop('C34', lambda tier: rows(['target'], names=[r.name for r in instr2.target_rows()]), ENGINE +
     'The printed text is compared with the text naming the executed target, also after the instruction was given another address.', ASSUME)


# ------------------------------------------------------------ bit strings
FUNCS['bits'] = bits.run
FUNCS['slice'] = bits.run_slice
BITS = ('Each operation of the bit string class is analysed for a list of widths with arbitrary (symbolic) values; for a width, '
        'the verdict covers every value. ')
BASSUME = ASSUME[:1] + ASSUME[2:] + ['widths are covered as listed in the unit names; the class treats widths uniformly']
for _p, _what in (('C19', 'Every result and mutated object must hold a value in range, also after a further operation.'),
                  ('C20', 'Operands are observed before and after every operation and query; results are then changed, and the operands, later results and the module constants compared again.'),
                  ('C21', 'Results are compared with the exact integer result reduced to the width, also on operands that were asked questions and changed before.'),
                  ('C22', 'Results are compared with the selected, replaced or concatenated bits, also on operands that were asked questions and changed before.'),
                  ('C23', 'Comparison results are compared with the reference relation, also on operands that were asked questions and changed before.'),
                  ('C24', 'Operands of unsupported types must end in TypeError on every path.'),
                  ('C25', 'Construction and conversion are compared with the value; a string changed after a question is compared with one never asked.'),
                  ('C26', 'Queries are compared with the binary expansion; a string changed after a query is compared with one never asked.')):
    Prop(_p, lambda tier, p=_p: bits.tasks(p, tier), ENGINE + BITS + _what, BASSUME)

# ------------------------------------------------------------ architecture helpers
FUNCS['arch'] = archfn.run
Prop('C27', lambda tier: archfn.tasks(tier), ENGINE +
     'Each helper is analysed on arbitrary operand values for a list of widths and every shift amount from 0 past the width, '
     'and compared with the pseudo-code definition stated on bits.', BASSUME)

# ------------------------------------------------------------ CPU model
FUNCS['model'] = model.run
MODEL = ('The CPU model is attached to an abstract delegate that records every call with its guard; register contents, addresses, '
         'values and view indices are symbolic. ')
Prop('C28', lambda tier: model.tasks('C28', tier), ENGINE + MODEL +
     'Every name, alias and number, every property and both array views must reach exactly the register the reference table names; a value '
        'written by any route must be seen by every reader, and by the values derived from it.',
     BASSUME[:2])
Prop('C29', lambda tier: model.tasks('C29', tier), ENGINE + MODEL +
     'The status register after a flag write is compared bit by bit with the one before, also when the register changed by another route in between.', BASSUME[:2])
Prop('C30', lambda tier: model.tasks('C30', tier) + rows(['exec']), ENGINE + MODEL +
     'Every argument that reaches the delegate, from the model and from executing each encoding, must be a plain integer and the '
     'forwarded address, value and size the given ones; the model must also work with the bare base class and with no delegate.', ASSUME)

# ------------------------------------------------------------ mock CPU
FUNCS['mock'] = mock.run
Prop('C31', lambda tier: mock.tasks('C31', tier), ENGINE +
     'Histories of symbolic writes reach every state of CONTROL, MSP and PSP; then every register is written with an arbitrary value '
     'and all registers are compared with a reference register file, before and after further stack pointer writes.', BASSUME[:2])
for _p, _what in (('C32', 'every byte of every region, the region sizes and the unmapped surroundings'),
                  ('C33', 'the values read back at every size and offset')):
    Prop(_p, lambda tier, p=_p: mock.tasks(p, tier), ENGINE +
         'Regions of several layouts hold arbitrary bytes; after sized and block writes of arbitrary values at every address around '
         'them and at arbitrary unmapped addresses, %s are compared with the reference.' % _what,
         BASSUME[:2] + ['regions of the listed small sizes stand for larger ones'])

# ------------------------------------------------------------ disassembly
FUNCS['stream'] = stream.run
Prop('C06', lambda tier: stream.tasks(tier), ENGINE +
     'Buffers are sequences of short, long, undefined and truncated instructions with arbitrary field bits at an arbitrary even '
     'address; the delivered sequence and its end are compared with single decodes at the running offset, also when other disassemblies of '
        'the same or another disassembler run between two items.',
     ASSUME[:1] + ['sequences up to the listed length stand for longer ones: the loop carries only the address and the offset'])

Prop('C35', lambda tier: rows(['names'], names=[r.name for r in instr2.name_rows()]), ENGINE +
     'The printed text of every encoding with a special register, barrier option, CPS flag set or shift operand is compared with the '
     'architected name for every operand value, and the reference names are shown to be distinct for distinct operands.', ASSUME)

# ------------------------------------------------------------ utilities and patterns
FUNCS['utils'] = utils.run
Prop('C38', lambda tier: utils.tasks('C38', tier), ENGINE +
     'Each helper is analysed on arbitrary bytes, words and fields, for every msb and lsb of the listed widths and every list length '
     'up to five items, and compared with the little-endian or bit-field definition.', BASSUME[:2])
Prop('C39', lambda tier: utils.tasks('C39', tier), ENGINE +
     'Patterns of every form of the grammar, hand written and generated, well formed and malformed, are read by the package and by an '
     'independent reader; matching and field extraction are compared on an arbitrary word.',
     BASSUME[:2] + ['the patterns listed in the unit names stand for the pattern language'])

# ------------------------------------------------------------ console
FUNCS['console'] = console.run
CONSOLE = ('The whole console program is analysed from its entry point; the lines typed (with symbolic numbers spelled in them), the binary '
           'file and the machine state are inputs, the printed text and the final machine state are compared with the reference; commands are '
           'also analysed after other commands that leave the machine in the same state. ')
CASSUME = ASSUME[:1] + ['argparse delivers the documented namespace and optparse the documented option splitting',
                        'the listed sequences of lines stand for longer sessions']
for _p, _what in (('C36', 'The names come from the help text the program prints; every name of a command must give the same effects, every other word of the '
                          'source must be refused, every list of words must leave the console running, and so must any exception raised by the machine.'),
                  ('C37', 'Memory after each write command, and the labels and items printed by each read command, for every width, at listed and at arbitrary addresses.'),
                  ('C44', 'The value every form of argument denotes, for arbitrary digits, register contents and memory.'),
                  ('C45', 'Memory layout, PC and SP after start and after reset, for arbitrary vectors and register contents.'),
                  ('C46', 'State and text after one step, compared with decoding and executing the instruction at PC directly; listings compared with the disassembler.'),
                  ('C47', 'Register reads, dumps and writes for every register name and arbitrary contents.'),
                  ('C51', 'Lines of several commands, blank lines, expressions and command-line options, compared with the single commands they stand for.')):
    Prop(_p, lambda tier, p=_p: console.tasks(p, tier), ENGINE + CONSOLE + _what, CASSUME)

# ------------------------------------------------------------ several machines, printed forms
FUNCS['indep'] = indep.run
Prop('C49', lambda tier: indep.tasks('C49', tier), ENGINE + MODEL +
     'Two models, or one model and two machines, or two mock machines, are driven side by side with arbitrary values; no call may reach the '
     'machine it was not meant for, and the registers and memory of that machine are compared with those before.', BASSUME[:2])
Prop('C52', lambda tier: indep.tasks('C52', tier), ENGINE + MODEL +
     'Sequences of recording stand-ins and of decoded instructions, in every kind of iterable, are handed to the model; the order, the number and the target '
     'of the executions and the final registers are compared with executing them one by one; the sequence is then executed again.', BASSUME[:2] + ['the listed sequences stand for longer ones'])
Prop('C50', lambda tier: indep.tasks('C50', tier), ENGINE + MODEL +
     'The text that dump prints is read back as pairs of names and values, and the text of repr compared, for arbitrary register contents.', BASSUME[:2])

# ------------------------------------------------------------ names
FUNCS['names'] = names.run_ast
FUNCS['lookups'] = names.wrap(call)


def c40(tier):
    out = [((), 'names', ())]
    other = rows(['decode', 'exec', 'format']) + truncated() + [x for x in stream.tasks('quick') if x[2][0] != 'long'] + console.tasks('C36', 'quick') + console.tasks('C46', 'quick') \
        + console.tasks('C44', 'quick') + console.tasks('C45', 'quick') + archfn.tasks('quick')
    for p, mod in (('C28', model), ('C29', model), ('C31', mock), ('C32', mock), ('C33', mock), ('C38', utils)):
        other += mod.tasks(p, 'quick')
    if tier == 'thorough':
        for p in ('C19', 'C21', 'C22', 'C25', 'C26'):
            other += bits.tasks(p, 'quick')
        for p in ('C37', 'C47'):
            other += console.tasks(p, 'quick')
    for mods, fn, args in other:
        out.append((mods, 'lookups', (fn, args, ('C05', 'C17'))))
    return out


Prop('C40', c40, 'Two static analyses of all modules (the console after its conversion to Python 3). (1) A flow analysis of the syntax trees: every name '
     'must resolve in its scopes, every local must be assigned on some path before each use, every import, module attribute and attribute of self must '
     'exist, every other attribute name must exist on some class. (2) Abstract interpretation of decoding, execution, formatting, the console and the '
     'library functions on symbolic inputs: no feasible path may fail in a name or attribute lookup, even where a handler would swallow it.',
     ['attributes of objects of unknown class are only checked against all attribute names that exist', 'a local that only some paths assign is decided by (2) alone'],
     technique='scope and definite-assignment dataflow over the AST, plus abstract interpretation recording failed lookups')
