"""Lifts AArch64 assembly to C over simulated registers, so that it can be
compiled to bitcode and executed symbolically (and natively for replay).

The assembly is read as llvm-mc prints it, which resolves register and
mnemonic aliases. Every function gets a stack of its own, exactly as large as
it uses, so that touching the caller's frame is out of bounds. Registers the
calling convention does not preserve are overwritten at calls; at the return
the callee-saved registers, the stack pointer and the frame pointer must be
what they were. Stack accesses need a stack pointer aligned to 16 bytes.
"""
import glob, os, re, subprocess


class LiftError(Exception):
    pass


def prototypes(repo):
    out = {}
    for f in glob.glob(repo + '/include/fble/*.h') + glob.glob(repo + '/lib/*.h'):
        t = re.sub(r'/\*.*?\*/', ' ', open(f, errors='replace').read(), flags=re.S)
        t = re.sub(r'//[^\n]*', ' ', t)
        t = re.sub(r'^\s*#.*(\\\n.*)*', ' ', t, flags=re.M)
        for m in re.finditer(r'([A-Za-z_][\w \t\n*]*?[\s*])(Fble\w+)\s*\(([^(){};]*)\)\s*;', t):
            ret, name, ps = m.group(1).strip(), m.group(2), m.group(3).strip()
            if name in out or ret.startswith('typedef') or ret.startswith('return'):
                continue
            ret = re.sub(r'\b(extern|static|inline)\b', '', ret).strip()
            tys = []
            for p in ([] if ps in ('', 'void') else ps.split(',')):
                p = p.strip()
                if p == '...':
                    tys.append('...')
                    continue
                p = p.replace('[]', '*') if '[]' in p else p
                q = re.sub(r'(\*|\s)\w+(\*?)$', r'\1\2', p).strip()
                tys.append(q or p)
            out[name] = (ret, tys, os.path.basename(f))
    return out


def cid(s):
    return 'L' + ''.join(c if c.isalnum() else '_%02x' % ord(c) for c in s)


def unescape(s):
    out, i = [], 0
    b = s.encode('latin-1', 'replace') if isinstance(s, str) else s
    esc = {'n': 10, 't': 9, 'b': 8, 'f': 12, 'r': 13, '"': 34, '\\': 92}
    while i < len(s):
        if s[i] != '\\':
            out.append(ord(s[i]))
            i += 1
        elif s[i + 1] in '01234567':
            m = re.match(r'[0-7]{1,3}', s[i + 1:])
            out.append(int(m.group(0), 8) & 255)
            i += 1 + len(m.group(0))
        else:
            if s[i + 1] not in esc:
                raise LiftError('escape in string: ' + s)
            out.append(esc[s[i + 1]])
            i += 2
    return out


def split_ops(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            depth += c in '[{' 
            depth -= c in ']}'
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Lift:
    def __init__(self, text, protos):
        self.protos = protos
        self.items = {'text': [], 'data': []}     # ('label', name) / ('ins', mnem, ops) / ('d', size, value)
        self.globals = set()
        self.refs = set()
        sec = 'text'
        for line in text.split('\n'):
            line = line.rstrip('\r')
            if '.ascii' not in line and '.string' not in line and '.asciz' not in line and '.file' not in line:
                line = re.sub(r'//.*$', '', line)
            line = line.strip()
            if not line:
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[\w.$]+):$', line)
            if m:
                if sec in self.items:
                    self.items[sec].append(('label', m.group(1).strip('"')))
                continue
            mn, _, rest = line.partition('\t') if '\t' in line else line.partition(' ')
            rest = rest.strip()
            if mn.startswith('.'):
                self.directive(mn, rest, sec)
                if mn == '.text':
                    sec = 'text'
                elif mn in ('.data', '.rodata', '.bss'):
                    sec = 'data'
                elif mn == '.section':
                    nm = rest.split(',')[0].strip().strip('"')
                    sec = 'data' if re.match(r'\.(data|rodata|bss)', nm) else 'text' if nm.startswith('.text') else 'other'
                elif mn == '.pushsection' or mn == '.popsection':
                    raise LiftError(mn)
                continue
            if sec == 'text':
                self.items['text'].append(('ins', mn, split_ops(rest)))
            elif sec == 'data':
                raise LiftError('instruction in data: ' + line)

    def directive(self, mn, rest, sec):
        if mn in ('.globl', '.global'):
            self.globals.add(rest.strip())
            return
        if sec != 'data':
            if sec == 'text' and mn in ('.xword', '.word', '.byte', '.ascii', '.8byte', '.4byte'):
                raise LiftError('data in text')
            return
        d = self.items['data']
        size = {'.xword': 8, '.quad': 8, '.8byte': 8, '.word': 4, '.4byte': 4, '.long': 4, '.hword': 2, '.short': 2, '.2byte': 2, '.byte': 1}.get(mn)
        if size:
            for v in rest.split(','):
                d.append(('d', size, v.strip()))
        elif mn in ('.ascii', '.asciz', '.string'):
            s = rest[1:rest.rindex('"')]
            d.append(('s', unescape(s) + ([] if mn == '.ascii' else [0])))
        elif mn in ('.zero', '.space', '.skip'):
            d.append(('s', [0] * int(rest.split(',')[0], 0)))
        elif mn == '.p2align':
            d.append(('a', 1 << int(rest.split(',')[0], 0)))
        elif mn == '.align':
            d.append(('a', 1 << int(rest.split(',')[0], 0)))

    # ---- C output
    def sym(self, name):
        """C expression for the address of a symbol, as uint64_t."""
        m = re.match(r'^(.*?)([+-]\d+)?$', name)
        base, off = m.group(1), m.group(2) or ''
        if base in self.datalabels:
            e = '(uint64_t)&%s' % self.dname(base)
        elif base in self.entries:
            e = '(uint64_t)&%s' % self.fname(base)
        elif base == 'stderr':
            e = '(uint64_t)&stderr'
        elif base in self.protos:
            e = '(uint64_t)&%s' % base
        else:
            if not re.match(r'^\w+$', base):
                raise LiftError('undefined local symbol ' + base)
            if not base.startswith('Fble'):
                self.externs.add(base)
            e = '(uint64_t)&%s' % base
        return '(%s%s)' % (e, off)

    def dname(self, l):
        return l if l in self.globals else cid(l)

    def fname(self, l):
        return l if l in self.globals else cid(l)

    def number(self, v):
        return re.match(r'^-?(0x[0-9a-fA-F]+|\d+)$', v) is not None

    def emit(self):
        self.externs = set()
        blobs, cur, pre = [], None, True
        for it in self.items['data']:
            if it[0] == 'label':
                cur = [it[1], []]
                blobs.append(cur)
            elif cur is None:
                if it[0] != 'a':
                    raise LiftError('data before a label')
            else:
                cur[1].append(it)
        self.datalabels = {b[0] for b in blobs}
        text = self.items['text']
        labels = [it[1] for it in text if it[0] == 'label']
        tset = set(labels)
        ent = set(self.globals) & tset
        for b in blobs:
            for it in b[1]:
                if it[0] == 'd' and it[2] in tset:
                    ent.add(it[2])
        for it in text:
            if it[0] == 'ins' and it[1] == 'bl' and it[2][0] in tset:
                ent.add(it[2][0])
        self.entries = ent
        # functions
        funcs, fcur = [], None
        for it in text:
            if it[0] == 'label' and it[1] in ent:
                fcur = (it[1], [])
                funcs.append(fcur)
            elif fcur is not None:
                fcur[1].append(it)
            elif it[0] == 'ins':
                raise LiftError('code outside of a function')
        bodies = [self.function(n, its) for n, its in funcs]
        data, types = [], []
        for name, its in blobs:
            fields, inits, off, dyn = [], [], 0, False
            trailing = len(its)
            while trailing and its[trailing - 1][0] == 'a':
                trailing -= 1
            for it in its[:trailing]:
                k = len(fields)
                if it[0] == 'a':
                    pad = -off % it[1]
                    if pad:
                        fields.append('char f%d[%d];' % (k, pad))
                        inits.append('{0}')
                        off += pad
                elif it[0] == 's':
                    if it[1]:
                        fields.append('unsigned char f%d[%d];' % (k, len(it[1])))
                        inits.append('{%s}' % ','.join(map(str, it[1])))
                        off += len(it[1])
                else:
                    size, v = it[1], it[2]
                    if self.number(v):
                        fields.append('uint%d_t f%d;' % (size * 8, k))
                        inits.append('(uint%d_t)%s%s' % (size * 8, v, 'll' if v.startswith('-') else 'ull'))
                    elif size == 8:
                        fields.append('void* f%d;' % k)
                        inits.append('(void*)%s' % re.sub(r'^\(\(uint64_t\)', '((char*)', self.sym(v)))
                    else:
                        raise LiftError('data expression ' + v)
                    off += size
            if not fields:
                fields, inits = ['char f0;'], ['0']
            st = '' if name in self.globals else 'static '
            c = self.dname(name)
            types.append('struct T_%s { %s } __attribute__((packed, aligned(16)));\n%sstruct T_%s %s;' % (cid(name), ' '.join(fields), st, cid(name), c))
            data.append('%sstruct T_%s %s = { %s };' % (st, cid(name), c, ', '.join(inits)))
        o = ['#include "a64.h"', '#undef stderr', 'extern FILE* stderr;']
        o += ['extern char %s[];' % e for e in sorted(self.externs)]
        for n, _ in funcs:
            o.append('%svoid* %s(void*, void*, void*, void*);' % ('' if n in self.globals else 'static ', self.fname(n)))
        return '\n'.join(o + types + data + bodies) + '\n'

    def function(self, name, its):
        labels = {it[1] for it in its if it[0] == 'label'}
        total = 0
        for it in its:
            if it[0] != 'ins':
                continue
            mn, ops = it[1], it[2]
            if mn == 'sub' and ops[0] == 'sp':
                if ops[1] != 'sp' or not ops[2].startswith('#') or len(ops) > 3 and not ops[3].startswith('lsl'):
                    raise LiftError('stack pointer arithmetic')
                total += int(ops[2][1:], 0) << (int(ops[3].split('#')[1]) if len(ops) > 3 else 0)
            m = ops and re.match(r'^\[sp, #(-\d+)\]!$', ops[-1])
            if m:
                total -= int(m.group(1))
        o = ['%svoid* %s(void* a0, void* a1, void* a2, void* a3) {' % ('' if name in self.globals else 'static ', self.fname(name)),
             '  A64_ENTRY(%d)' % total]
        for it in its:
            if it[0] == 'label':
                o.append(' %s: ;' % cid(it[1]))
            else:
                o.append('  ' + self.ins(it[1], it[2], labels))
        o.append('  sx_fail("code runs off the end of a function");\n  return 0;\n}')
        used = set(re.findall(r'goto (\w+);', '\n'.join(o)))
        o = [l for l in o if not (l.startswith(' L') and l.endswith(': ;')) or l[1:-3] in used]
        return '\n'.join(o)

    def target(self, l, labels):
        if l not in labels:
            raise LiftError('branch to ' + l)
        return 'goto %s;' % cid(l)

    def val(self, op, w, shift=None):
        """Value of an operand as uint64_t; w: 32 bit operation."""
        if op.startswith('#'):
            if op.startswith('#:lo12:'):
                raise LiftError('lo12 in ' + op)
            v = int(op[1:], 0)
            e = '(uint64_t)%dll' % v
        elif op in ('xzr', 'wzr'):
            e = '0ull'
        elif op == 'sp':
            e = 'sp'
        elif re.match(r'^x\d+$', op):
            e = op
        elif re.match(r'^w\d+$', op):
            e = '(uint64_t)(uint32_t)x' + op[1:]
        else:
            raise LiftError('operand ' + op)
        if shift:
            m = re.match(r'^(lsl|lsr|asr|uxtw|sxtw|uxtb|uxth|uxtx)(?: #(\d+))?$', shift)
            if not m:
                raise LiftError('shift ' + shift)
            k, n = m.group(1), int(m.group(2) or 0)
            if k == 'asr':
                e = '(uint64_t)((%s)(%s) >> %d)' % ('int32_t' if w else 'int64_t', e, n)
            elif k == 'lsr':
                e = '((%s) >> %d)' % (e, n)
            else:
                e = {'lsl': '(%s)', 'uxtx': '(%s)', 'uxtw': '(uint64_t)(uint32_t)(%s)', 'sxtw': '(uint64_t)(int64_t)(int32_t)(%s)', 'uxtb': '(uint64_t)(uint8_t)(%s)', 'uxth': '(uint64_t)(uint16_t)(%s)'}[k] % e
                e = '(%s << %d)' % (e, n)
        return e

    def set(self, rd, e):
        if rd in ('xzr', 'wzr'):
            return '(void)(%s);' % e
        if rd == 'sp':
            return 'sp = %s;' % e
        if re.match(r'^x\d+$', rd):
            return '%s = %s;' % (rd, e)
        if re.match(r'^w\d+$', rd):
            return 'x%s = (uint32_t)(%s);' % (rd[1:], e)
        raise LiftError('register ' + rd)

    def mem(self, ops):
        """(pre statement, address expression, post statement)"""
        a = ops[0]
        m = re.match(r'^\[(\w+)(?:, (.*))?\](!)?$', a)
        if not m:
            raise LiftError('address ' + a)
        base, off, pre = m.groups()
        b = 'sp' if base == 'sp' else base
        chk = 'A64_SP;' if base == 'sp' else ''
        if pre:
            n = int(off[1:], 0)
            return '%s += (uint64_t)%dll; %s' % (b, n, chk), b, ''
        if len(ops) > 1:
            return chk, b, '%s += (uint64_t)%dll;' % (b, int(ops[1][1:], 0))
        if off is None:
            return chk, b, ''
        if off.startswith('#'):
            return chk, '(%s + (uint64_t)%dll)' % (b, int(off[1:], 0)), ''
        if off.startswith(':lo12:'):
            s = self.sym(off[6:])
            return 'sx_check(%s == %s, "low bits of the address of the symbol whose page was taken");' % (b, s), b, ''
        ps = [p.strip() for p in off.split(',')]
        return chk, '(%s + %s)' % (b, self.val(ps[0], False, ps[1] if len(ps) > 1 else None)), ''

    def call(self, f):
        if f == 'fprintf':
            e = 'fprintf((FILE*)x0, (const char*)x1, x2, x3, x4, x5, x6, x7)'
            return '{ A64_SP; uint64_t r = (uint64_t)(int64_t)%s; A64_CLOBBER; x0 = r; }' % e
        if f in self.entries:
            return '{ A64_SP; uint64_t r = (uint64_t)%s((void*)x0, (void*)x1, (void*)x2, (void*)x3); A64_CLOBBER; x0 = r; }' % self.fname(f)
        if f not in self.protos:
            raise LiftError('call of ' + f)
        ret, tys, _ = self.protos[f]
        if len(tys) > 8 or '...' in tys and f != 'fprintf':
            raise LiftError('call of ' + f)
        e = '%s(%s)' % (f, ', '.join('(%s)%sx%d' % (t, '(uint8_t)' if t == 'bool' else '', i) for i, t in enumerate(tys)))
        if ret == 'void':
            return '{ A64_SP; %s; A64_CLOBBER; }' % e
        return '{ A64_SP; uint64_t r = (uint64_t)%s; A64_CLOBBER; x0 = r; }' % e

    def ins(self, mn, ops, labels):
        w = bool(ops) and ops[0].startswith('w')
        conds = {'eq': 'fz', 'ne': '!fz', 'hs': 'fc', 'cs': 'fc', 'lo': '!fc', 'cc': '!fc', 'mi': 'fn', 'pl': '!fn', 'vs': 'fv', 'vc': '!fv',
                 'hi': '(fc && !fz)', 'ls': '!(fc && !fz)', 'ge': '(fn == fv)', 'lt': '(fn != fv)', 'gt': '(!fz && fn == fv)', 'le': '!(!fz && fn == fv)', 'al': '1'}
        if mn == 'nop':
            return ';'
        if mn == 'ret':
            return 'A64_RETURN'
        if mn == 'b':
            return self.target(ops[0], labels)
        if mn.startswith('b.'):
            return 'if (%s) %s' % (conds[mn[2:]], self.target(ops[0], labels))
        if mn in ('cbz', 'cbnz'):
            return 'if (%s %s 0) %s' % (self.val(ops[0], w), '==' if mn == 'cbz' else '!=', self.target(ops[1], labels))
        if mn in ('tbz', 'tbnz'):
            return 'if ((%s >> %d & 1) %s 0) %s' % (self.val(ops[0], w), int(ops[1][1:], 0), '==' if mn == 'tbz' else '!=', self.target(ops[2], labels))
        if mn == 'bl':
            return self.call(ops[0])
        if mn == 'adrp':
            return self.set(ops[0], self.sym(ops[1]))
        if mn == 'adr':
            return self.set(ops[0], self.sym(ops[1]))
        if mn == 'add' and ops[2].startswith(':lo12:'):
            s = self.sym(ops[2][6:])
            return 'sx_check(%s == %s, "low bits of the address of the symbol whose page was taken"); %s' % (self.val(ops[1], w), s, self.set(ops[0], s))
        if mn in ('mov', 'movz'):
            v = self.val(ops[1], w, ops[2] if len(ops) > 2 else None)
            return self.set(ops[0], v)
        if mn == 'movn':
            return self.set(ops[0], '~(%s)' % self.val(ops[1], w, ops[2] if len(ops) > 2 else None))
        if mn == 'movk':
            sh = int(ops[2].split('#')[1]) if len(ops) > 2 else 0
            return self.set(ops[0], '(%s & ~(0xffffull << %d)) | (%s << %d)' % (self.val(ops[0], w), sh, self.val(ops[1], w), sh))
        if mn == 'mvn':
            return self.set(ops[0], '~(%s)' % self.val(ops[1], w))
        if mn == 'neg':
            return self.set(ops[0], '0 - (%s)' % self.val(ops[1], w))
        if mn in ('add', 'sub', 'and', 'orr', 'eor', 'mul', 'bic'):
            c = {'add': '+', 'sub': '-', 'and': '&', 'orr': '|', 'eor': '^', 'mul': '*', 'bic': '& ~'}[mn]
            return self.set(ops[0], '%s %s (%s)' % (self.val(ops[1], w), c, self.val(ops[2], w, ops[3] if len(ops) > 3 else None)))
        if mn in ('lsl', 'lsr') and ops[2].startswith('#'):
            return self.set(ops[0], '%s %s %d' % (self.val(ops[1], w), '<<' if mn == 'lsl' else '>>', int(ops[2][1:], 0)))
        if mn in ('cmp', 'cmn', 'subs', 'adds', 'tst'):
            rd = None
            if mn in ('subs', 'adds'):
                rd, ops = ops[0], ops[1:]
            a, b = self.val(ops[0], w), self.val(ops[1], w, ops[2] if len(ops) > 2 else None)
            kind = {'cmp': 'A64_SUBS', 'subs': 'A64_SUBS', 'cmn': 'A64_ADDS', 'adds': 'A64_ADDS', 'tst': 'A64_TST'}[mn]
            return '%s(uint%d_t, int%d_t, %s, %s)%s' % (kind, 32 if w else 64, 32 if w else 64, a, b, ' ' + self.set(rd, 'fr') if rd else '')
        if mn in ('cset',):
            return self.set(ops[0], '(uint64_t)(%s)' % conds[ops[1]])
        if mn in ('csel',):
            return self.set(ops[0], '%s ? %s : %s' % (conds[ops[3]], self.val(ops[1], w), self.val(ops[2], w)))
        if mn in ('ldr', 'ldur', 'ldrb', 'ldrh', 'ldrsw', 'str', 'stur', 'strb', 'strh'):
            pre, a, post = self.mem(ops[1:])
            t = 'm8' if mn.endswith('b') else 'm16' if mn.endswith('h') else 'm32' if w or mn == 'ldrsw' else 'm64'
            if mn.startswith('ld'):
                e = '*(%s*)%s' % (t, a)
                if mn == 'ldrsw':
                    e = '(uint64_t)(int64_t)(int32_t)' + e
                return '%s %s %s' % (pre, self.set(ops[0], e), post)
            return '%s *(%s*)%s = (%s)%s; %s' % (pre, t, a, t, self.val(ops[0], w), post)
        if mn in ('ldp', 'stp') and not w:
            pre, a, post = self.mem(ops[2:])
            if mn == 'ldp':
                return '{ %s uint64_t t0 = *(m64*)%s, t1 = *(m64*)(%s + 8); %s %s %s }' % (pre, a, a, self.set(ops[0], 't0'), self.set(ops[1], 't1'), post)
            return '{ %s *(m64*)%s = %s; *(m64*)(%s + 8) = %s; %s }' % (pre, a, self.val(ops[0], w), a, self.val(ops[1], w), post)
        raise LiftError('instruction %s %s' % (mn, ', '.join(ops)))


def lift(path, out, protos):
    """Returns None, or a message if the assembly does not assemble."""
    r = subprocess.run(['llvm-mc', '-triple=aarch64', '-filetype=obj', path, '-o', '/dev/null'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        return r.stdout
    r = subprocess.run(['llvm-mc', '-triple=aarch64', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        return r.stderr.decode(errors='replace')
    c = Lift(r.stdout.decode('latin-1'), protos).emit()
    with open(out, 'w', encoding='latin-1') as f:
        f.write(c)
    return None
