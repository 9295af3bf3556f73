from engine import Job
ASSUMPTIONS = ['library source compiled by goto-cc -m32 (wasm32 data model), not by wcpl itself', 'wasm memory.copy and memory.fill behave as specified (overlap-safe copy; shim)', 'objects smaller than 2 GB']
TRUSTED = ['harness/libshim (shims for wcpl built-ins)']
NAMES = 'strlen strnlen strchr strrchr strcmp strncmp strncmp_nt strcasecmp strncasecmp memcmp memchr memchr_lim memmem strstr strspn strcspn strpbrk strcpy strncpy strncpy_nt strcat strncat memccpy memcpy memmove memset bzero memswap strdup strndup strxfrm strtok strtok_r strerror'.split()
def inv(assigns, inv, dec): return '__CPROVER_assigns(%s) __CPROVER_loop_invariant(%s) __CPROVER_decreases(%s)' % (assigns, inv, dec)
SO = '__CPROVER_same_object'
def off(p): return '__CPROVER_POINTER_OFFSET(%s)' % p
def imp(a, b): return '(!(%s) || (%s))' % (a, b)
EQ = 's1[gk] == s2[gk]'; LEQ = 'lo((unsigned char)s1[gk]) == lo((unsigned char)s2[gk])'
def two(n, eq, nul, ch=True):
    c1, c2 = '(const char *)c1', '(const char *)c2'
    i = '%s(c1, s1) && %s(c2, s2) && %s == %s && d == 0 && %s' % (SO, SO, off('c1'), off('c2'), imp('gk < ' + off('c1'), eq + (' && s1[gk] != 0' if nul else '')))
    if n: i += ' && %s + n == gn && n <= gn' % off('c1') + (' && (!term || (%s <= gL && %s <= gL2))' % (off('c1'), off('c1')) if nul else '')
    else: i += ' && %s <= gL && %s <= gL2' % (off('c1'), off('c1'))
    return inv('c1, c2, d' + (', ch' if ch else '') + (', n' if n else ''), i, 'n' if n else 'gL - ' + off('c1'))
LOOPS = {
 'strlen': [('strlen', 0, inv('ss', '%s(ss, s) && %s <= gL && %s' % (SO, off('ss'), imp('gk < ' + off('ss'), 's[gk] != 0')), 'gL - ' + off('ss')))],
 'strnlen': [('strnlen', 0, inv('ss, maxlen', '%s(ss, s) && %s + maxlen == gn && maxlen <= gn && (!term || %s <= gL) && %s' % (SO, off('ss'), off('ss'), imp('gk < ' + off('ss'), 's[gk] != 0')), 'maxlen'))],
 'strchr': [('strchr', 0, inv('s', '%s(s, gs) && %s <= gL && %s' % (SO, off('s'), imp('gk < ' + off('s'), 'gs[gk] != 0 && gs[gk] != (char)c')), 'gL - ' + off('s'))), ('strchr', 'returns', 'vf_end = s;')],
 'strrchr': [('strrchr', 0, inv('s, found', '%s(s, gs) && %s <= gL && (found == NULL || (%s(found, gs) && %s < %s && *found == (char)c)) && %s && %s' % (SO, off('s'), SO, off('found'), off('s'), imp('gk < ' + off('s'), 'gs[gk] != 0'), imp('gk < %s && gs[gk] == (char)c' % off('s'), 'found != NULL && %s >= gk' % off('found'))), 'gL - ' + off('s'))), ('strrchr', 'returns', 'vf_end = s;')],
 'strcmp': [('strcmp', 0, two(False, EQ, True)), ('strcmp', 'returns', 'vf_end = (const char *)c1;')],
 'strcasecmp': [('strcasecmp', 0, two(False, LEQ, True)), ('strcasecmp', 'returns', 'vf_end = (const char *)c1;')],
 'strncmp': [('strncmp', 0, two(True, EQ, True)), ('strncmp', 'returns', 'vf_end = (const char *)c1;')],
 'strncasecmp': [('strncasecmp', 0, two(True, LEQ, True)), ('strncasecmp', 'returns', 'vf_end = (const char *)c1;')],
 'memcmp': [('memcmp', 0, two(True, '((const char *)s1)[gk] == ((const char *)s2)[gk]', False, False)), ('memcmp', 'returns', 'vf_end = c1;')],
 'strcpy': [('strcpy', 0, inv('q, p, ch, __CPROVER_object_whole(dst)', '%s(q, dst) && %s(p, src) && %s <= gL && %s == %s && (gk < %s ? (dst[gk] == src[gk] && src[gk] != 0) : dst[gk] == old)' % (SO, SO, off('p'), off('q'), off('p'), off('p')), 'gL - ' + off('p'))), ('strcpy', 'returns', 'vf_end = q;')],
 'strncpy': [('strncpy', 0, inv('q, p, ch, n, __CPROVER_object_whole(dst)', '%s(q, dst) && %s(p, src) && %s == %s && %s + n == gn && n <= gn && (!term || %s <= gL) && (gk < %s ? (dst[gk] == src[gk] && src[gk] != 0) : dst[gk] == old)' % (SO, SO, off('p'), off('q'), off('p'), off('p'), off('p')), 'n')), ('strncpy', 'returns', 'vf_end = q;')],
 'memchr': [('memchr', 0, inv('sp, n', '%s(sp, s) && %s + n == gn && n <= gn && %s' % (SO, off('sp'), imp('gk < ' + off('sp'), '((const char *)s)[gk] != (char)c')), 'n'))],
 'memccpy': [('memccpy', 0, inv('q, p, ch, n, __CPROVER_object_whole(dst)', '%s(q, dst) && %s(p, src) && %s == %s && %s + n == gn && n <= gn && (gk < %s ? (gd[gk] == gs[gk] && gs[gk] != (char)c) : gd[gk] == old)' % (SO, SO, off('p'), off('q'), off('p'), off('p')), 'n'))],
 'memcpy': None, 'memmove': None, 'memset': None, 'bzero': None,
}
def jobs(tier):
    js = []
    N = 5 if tier == 'quick' else 7
    for n, l in LOOPS.items():
        js.append(Job('u.' + n, 'lib_string_u.c', 'h_' + n, m32='wide', solvers=['cadical', 'sat'], timeout=60, loops={'lib/src/string.c': l} if l else {}, checks='mem', unwind=2 if not l else None, defs=[] if l else ['VF_SLICE'], funcs=[n], what=n + ' for any length', native=False,
            fallback=dict(src='lib_string.c', m32=True, solvers=['sat', 'cadical'], entry='h_' + n, loops={}, defs=['N=6'], unwind=13, bounded='strings and blocks up to 6 bytes', native=True)))
    for n in NAMES:
        f = n.split('_nt')[0].split('_lim')[0]
        js.append(Job('b.' + n, 'lib_string.c', 'h_' + n, m32=True, defs=['N=%d' % N], unwind=N + 6, checks='mem', funcs=[f] + (['strcoll'] if n == 'strcmp' else []), what=n + ' against its ISO/POSIX definition', bounded='strings and blocks up to %d bytes' % N))
    return js
