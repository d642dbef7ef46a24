#!/usr/bin/env python3
"""Insert a call to the scheduling layer in front of every memory access of a compiler-generated .s file.

The compiler has finished its work before the hooks appear, so the optimiser sees exactly the code it sees
in a release build. Stack-frame accesses through %rsp are left alone.  usage: asmhook.py out-suffix in.s...

Hooks: __vf_acc (read), __vf_st1/2/4/8 (plain store, address in %rax: the scheduler may keep it in a simulated
store buffer), __vf_accw (any other write: drains the buffer), __vf_rmw (locked instruction or fence: drains it)."""
import re, sys
INS = re.compile(r'^\s+([a-z][a-z0-9;]*)(?:\s+(.*))?$')
SKIP = ('lea', 'nop', 'prefetch', 'endbr', 'jmp', 'notrack', 'clflush', 'ret', 'push', 'pop', 'vzero')
READS = re.compile(r'^(cmp[bwlq]?|test[bwlq]?|bt[wlq]?|v?u?comis[sd]|vptest|ptest|call|jmp|push|[if]?div[bwlqs]*|i?mul[bwlq]?|v?cmp.*|vbroadcast.*)$')
STORE = {'movb': 1, 'movw': 2, 'movl': 4, 'movq': 8}
UNBUF = ('memcpy', 'memset', 'memmove', 'swapcontext', 'setcontext', 'getcontext', 'makecontext', 'malloc', 'free', 'posix_memalign', 'syscall', 'sched_', 'pthread_', 'numa_', 'mmap', 'munmap')


def operands(s):
    out, d, cur = [], 0, ''
    for c in s or '':
        if c == '(':
            d += 1
        elif c == ')':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def hook(sym, mem=None):
    if mem is None:
        return '\tleaq -128(%%rsp), %%rsp\n\tpushfq\n\tcall %s\n\tpopfq\n\tleaq 128(%%rsp), %%rsp\n' % sym
    return '\tleaq -128(%%rsp), %%rsp\n\tpushfq\n\tpushq %%rax\n\tleaq %s, %%rax\n\tcall %s\n\tpopq %%rax\n\tpopfq\n\tleaq 128(%%rsp), %%rsp\n' % (mem, sym)


def rewrite(src, dst, n):
    out, text = [], True
    for line in open(src):
        s = line.rstrip('\n')
        t = s.strip()
        if t.startswith('.section') or t in ('.data', '.bss', '.text'):
            text = t == '.text' or '.text' in t
        m = INS.match(s)
        if text and m and not t.startswith(('#', '.')):
            op, rest = m.group(1), m.group(2)
            if op.startswith('lock') or op in ('mfence',) or (op.startswith('xchg') and '(' in s):
                out.append(hook('__vf_rmw')); n['atomic'] += 1
            elif op.startswith('rep'):
                out.append(hook('__vf_accw')); n['write'] += 1
            elif op.startswith('call') and '(' not in s and any((rest or '').startswith(u) for u in UNBUF):
                out.append(hook('__vf_drain')); n['call'] += 1
            elif '(' in s and not op.startswith(SKIP):
                ops = operands(rest)
                mem = [o for o in ops if '(' in o]
                base = re.search(r'\((%\w+)?', mem[0]).group(1)
                if base == '%rsp' or '@GOT' in s or '@got' in s or '@tls' in s:
                    pass
                elif ops[-1] == mem[0] and op in STORE and not mem[0].startswith('%'):
                    out.append(hook('__vf_st%d' % STORE[op], mem[0])); n['store'] += 1
                elif ops[-1] == mem[0] and not READS.match(op):
                    out.append(hook('__vf_accw')); n['write'] += 1
                else:
                    out.append(hook('__vf_acc')); n['read'] += 1
        out.append(line)
    open(dst, 'w').write(''.join(out))


n = dict(read=0, store=0, write=0, atomic=0, call=0)
for f in sys.argv[2:]:
    rewrite(f, f[:-2] + sys.argv[1], n)
print('hooks: %s' % n)
