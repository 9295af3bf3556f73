"""Mechanical extraction of the code under verification, redone on every run.
 - compiler sources: /repo/*.c and *.h are copied byte for byte;
 - runtime library: see prepare_lib (each textual rewrite is listed there and in DESIGN.md);
 - loop invariants are inserted after the head of the n-th loop of a named function."""
import os, re, shutil

class ExtractError(Exception): pass

def strip_comments_keep(t):
    """same length text with comments / literals blanked, for searching"""
    out = list(t); i = 0; n = len(t)
    while i < n:
        c = t[i]
        if t.startswith('/*', i):
            j = t.find('*/', i + 2); j = n if j < 0 else j + 2
            for k in range(i, j):
                if out[k] != '\n': out[k] = ' '
            i = j
        elif t.startswith('//', i):
            j = t.find('\n', i); j = n if j < 0 else j
            for k in range(i, j): out[k] = ' '
            i = j
        elif c in '"\'':
            j = i + 1
            while j < n and t[j] != c and t[j] != '\n': j += 2 if t[j] == '\\' else 1
            for k in range(i + 1, min(j, n)): out[k] = ' ' if out[k] != '\n' else '\n'
            i = j + 1
        else: i += 1
    return ''.join(out)

def match_close(s, i, o, c):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise ExtractError('unbalanced ' + o)

def find_function(s, name):
    """(body start, body end) of the definition of name in comment-free text s"""
    for m in re.finditer(r'(?<![\w.>])%s\s*\(' % re.escape(name), s):
        j = match_close(s, m.end() - 1, '(', ')')
        k = j + 1
        while k < len(s) and s[k].isspace(): k += 1
        if k < len(s) and s[k] == '{':
            ls = s.rfind('\n', 0, m.start()) + 1
            if s[ls:ls+1].strip() == '' : 
                # nested call followed by block: definitions in this code base start at column 0
                if not re.match(r'[A-Za-z_]', s[ls:ls+1] or ' '): continue
            return k, match_close(s, k, '{', '}')
    raise ExtractError('function %s not found' % name)

def loops_in(s, a, b):
    """insertion offsets (where a loop contract goes) of the loops of a body, in order of appearance"""
    res = []; dostack = []
    for m in re.finditer(r'\b(for|while|do)\b', s[a:b]):
        p = a + m.start()
        if m.group(1) == 'do':
            k = a + m.end()
            while s[k].isspace(): k += 1
            if s[k] == '{': e = match_close(s, k, '{', '}') + 1
            else:
                e = s.index(';', k) + 1
                mm = re.search(r'\bwhile\b', s[k:])
                e = k + mm.start()
            w = re.compile(r'\s*while\s*\(').match(s, e)
            if not w: raise ExtractError('do without while')
            dostack.append(w.end() - 1)
            res.append((p, a + m.end()))   # do CONTRACT body while (c);
        else:
            k = s.index('(', a + m.end())
            if k in dostack: continue
            res.append((p, match_close(s, k, '(', ')') + 1))
    res.sort()
    return res

def simple_end(s, k):
    if re.match(r'(if|for|while|do|switch|else)\b', s[k:]): raise ExtractError('hook: compound loop body without braces')
    return s.index(';', k) + 1

def annotate_loops(t, anns):
    s = strip_comments_keep(t)
    ins = []
    for func, idx, text in anns:
        a, b = find_function(s, func)
        if idx == 'returns':   # ghost statement before every return of the function
            for m in re.finditer(r'\breturn\b', s[a:b]):
                e = s.index(';', a + m.start()) + 1
                ins.append((a + m.start(), 0, '{ ' + text.strip() + ' ')); ins.append((e, 0, ' }'))
            continue
        ls = loops_in(s, a, b); kind = 'contract'
        if isinstance(idx, (tuple, list)): kind, idx = idx
        if idx >= len(ls): raise ExtractError('%s has %d loops, wanted #%d' % (func, len(ls), idx))
        if kind == 'contract': ins.append((ls[idx][1], 0, ' ' + text.strip() + ' ')); continue
        st, k = ls[idx][0], ls[idx][1]
        while s[k].isspace(): k += 1
        if s[st:st+2] == 'do' or s[k] == ';': raise ExtractError('%s loop %d: hook needs a while/for body' % (func, idx))
        e = match_close(s, k, '{', '}') + 1 if s[k] == '{' else simple_end(s, k)
        if kind == 'before': ins.append((st, 1, text.strip() + ' '))      # ghost statement before the loop
        elif kind == 'after': ins.append((e, 2, ' ' + text.strip()))      # ghost statement after the loop
        elif kind == 'body':                                             # ghost statement first in the body
            ins.append((ls[idx][1], 1, ' { ' + text.strip() + ' ')); ins.append((e, 1, ' }'))
        else: raise ExtractError('unknown hook ' + str(kind))
    for p, r, x in sorted(ins, key=lambda i: (i[0], i[1]), reverse=True): t = t[:p] + x.replace('\n', ' ') + t[p:]
    return t

def prepare_lib(repo, d):
    """runtime library under goto-cc -m32 / clang --target=wasm32; rewrites applied to a copy:
       R1 header a.b.h is also reachable as a/b.h (wcpl resolves <a/b.h> that way);
       R2 '#pragma module' lines dropped; R3 'extern int int' -> 'extern int' (wcpl accepts it);
       R6 the prototype of qsort takes void * like its definition (wcpl ignores the difference);
       R5 '#pragma once' added to headers without it (wcpl-independent include guards);
       R4 in .c files asm(op, ..., instr) -> vf_asm_<instr>(args) (defined in libshim/vf_asm.h);
       sys.intrs.h, stdarg.h, assert.h are replaced by libshim equivalents."""
    inc = os.path.join(d, 'inc'); src = os.path.join(d, 'src')
    os.makedirs(inc); os.makedirs(src)
    def fix(t):
        t = re.sub(r'(?m)^#pragma\s+module[^\n]*', '', t)
        t = t.replace('extern int int ', 'extern int ')
        t = re.sub(r'extern void qsort\(const void \*', 'extern void qsort(void *', t)
        return t
    for f in sorted(os.listdir(os.path.join(repo, 'lib', 'include'))):
        p = os.path.join(repo, 'lib', 'include', f)
        if not os.path.isfile(p): continue
        t = fix(open(p, encoding='latin-1').read())
        parts = f[:-2].split('.') if f.endswith('.h') else [f]
        q = os.path.join(inc, *parts) + ('.h' if f.endswith('.h') else '')
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, 'w', encoding='latin-1').write('#pragma once\n' + t if '#pragma once' not in t and 'assert' not in f else t)
    for f in sorted(os.listdir(os.path.join(repo, 'lib', 'src'))):
        p = os.path.join(repo, 'lib', 'src', f)
        if not f.endswith('.c'): continue
        t = fix(open(p, encoding='latin-1').read())
        open(os.path.join(src, f), 'w', encoding='latin-1').write(rewrite_asm(t))

def rewrite_asm(t):
    def sub(m):
        ops = [o.strip() for o in m.group(1).split(',')]
        st = []
        for o in ops:
            w = o.split()
            if w[0] in ('local.get', 'i32.const', 'i64.const'): st.append(w[1])
            else:
                n = {'memory.size': 0, 'memory.grow': 1, 'unreachable': 0}.get(w[0])
                if n is None: n = 2 if w[0].split('.')[-1] in ('copysign', 'max', 'min', 'shl', 'shr_u', 'add') else 1
                if w[0] == 'memory.grow': a = [st[-1]]; st = []
                else: a = st[len(st)-n:] if n else []; st = st[:len(st)-n] if n else st
                st.append('vf_asm_%s(%s)' % (w[0].replace('.', '_'), ', '.join(a)))
        return '(' + st[-1] + ')'
    return re.sub(r'\basm\(([^()]*)\)', sub, t)

def prepare_sources(repo, d):
    os.makedirs(d)
    for f in os.listdir(repo):
        if f.endswith(('.c', '.h')) and os.path.isfile(os.path.join(repo, f)):
            shutil.copyfile(os.path.join(repo, f), os.path.join(d, f))
    prepare_lib(repo, os.path.join(d, 'lib'))
