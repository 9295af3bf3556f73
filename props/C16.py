from engine import Job
ASSUMPTIONS = ['library source compiled by goto-cc -m32 (wasm32 data model), not by wcpl itself', 'C locale', 'strings shorter than 8 MB (the verifier\'s pointer encoding for 32-bit targets)']
TRUSTED = ['harness/libshim (shims for wcpl built-ins)', 'the ghost code that folds the digits']
def inv(assigns, inv, dec): return '__CPROVER_assigns(%s) __CPROVER_loop_invariant(%s) __CPROVER_decreases(%s)' % (assigns, inv, dec)
S = 'lib/src/stdlib.c'
X = [('strntoumax', 0, inv('nptr, n', 'SAME(nptr) && OFF(nptr) <= gL && n == ~(size_t)0 - OFF(nptr) && (!(gk < OFF(nptr)) || sp_space(gs[gk]))', 'n')),
     ('strntoumax', ('after', 0), 'vf_prefix(nptr);'),
     ('strntoumax', ('before', 1), 'CHECK("digits start after the prefix, with its base and limit", SAME(nptr) && OFF(nptr) == sp.b && base == sp.base && lim == sp.lim && (minus != 0) == sp.neg);'),
     ('strntoumax', 1, inv('nptr, n, v, d, over, gv, go, gi', 'SAME(nptr) && sp.b <= OFF(nptr) && OFF(nptr) <= gL && n == ~(size_t)0 - OFF(nptr) && (!(sp.b <= gk && gk < OFF(nptr)) || sp_dig(gs[gk]) < base) && gi == OFF(nptr) && over == (go != 0) && (over || v == gv)', 'n')),
     ('strntoumax', ('body', 1), 'STEP')]
def ato(f, T, U): return [(f, 0, inv('s', 'SAME(s) && OFF(s) <= gL && (!(gk < OFF(s)) || sp_space(gs[gk]))', 'gL - OFF(s)')), (f, ('after', 0), 'vf_prefix(s);'),
     (f, ('before', 1), 'CHECK("digits start after the sign", SAME(s) && OFF(s) == sp.b && (neg != 0) == sp.neg);'),
     (f, 1, inv('s, n, gv, go, gi', 'SAME(s) && sp.b <= OFF(s) && OFF(s) <= gL && (!(sp.b <= gk && gk < OFF(s)) || sp_dig(gs[gk]) < 10) && gi == OFF(s) && (go || (%s)n == (%s)0 - (%s)gv)' % (U, U, U), 'gL - OFF(s)')),
     (f, ('body', 1), 'STEP'), (f, 'returns', 'vf_end = s;')]
def jobs(tier):
    js = []
    for f in 'strtol strtoul strtoll strtoull'.split():
        for b in (() if tier == 'quick' and f.endswith('l') and 'll' in f else ('any',)) + ('10', '16', '8', '0'):
            js.append(Job('u.%s.%s' % (f, b), 'lib_num_u.c', 'h_' + f, m32=True, defs=[] if b == 'any' else ['BASE=' + b], loops={S: X}, checks='mem', solvers=['sat', 'cadical', 'cvc5'], timeout=250 if b == 'any' else 100, native=False,
                funcs=[f, 'strntoumax', 'digitval', 'isspace', 'isxdigit'], what='%s, base %s, strings of any length' % (f, b),
                hunt=[dict(defs=['N=%d' % (23 if b == '10' else 13)] + ([] if b == 'any' else ['BASE=' + b]), unwind=25, timeout=90)],
                fallback=dict(src='lib_num.c', loops={}, native=True, bounded='strings up to 4 characters', unwind=6, defs=['N=4'] + ([] if b == 'any' else ['BASE=' + b]))))
    for f, T, U in (('atoi', 'int', 'unsigned'), ('atol', 'long', 'unsigned long'), ('atoll', 'long long', 'ull')):
        js.append(Job('u.' + f, 'lib_num_u.c', 'h_' + f, m32=True, loops={S: ato(f, T, U)}, checks='mem', solvers=['sat', 'cadical', 'cvc5'], timeout=100, native=False,
            funcs=[f, 'isspace', 'isdigit'], what=f + ', strings of any length', hunt=[dict(defs=['N=%d' % (21 if f == 'atoll' else 12)], unwind=25, timeout=90)], fallback=dict(src='lib_num.c', loops={}, native=True, bounded='strings up to 5 characters', unwind=7, defs=['N=5'])))
    return js
