from engine import Job
TS = 'BOOL CHAR UCHAR SHORT USHORT INT UINT LONG ULONG LLONG ULLONG FLOAT DOUBLE'.split()
PT = 'INT UINT LONG ULONG LLONG ULLONG FLOAT DOUBLE'.split()
OPS = 'PLUS MINUS STAR AND OR XOR SLASH REM SHL SHR EQ NE LT GT LE GE'.split()
LC = dict(link=['l.c'], unwind=20)
def jobs(tier):
    js = []
    def J(id, entry, fn, what, **k): js.append(Job(id, 'cc_asm.c', entry, funcs=fn if isinstance(fn, list) else [fn], what=what, **k, **LC))
    for t in TS:
        if t in ('FLOAT', 'DOUBLE'):
            for f in TS: J('cast.%s.%s' % (f, t), 'h_cast_%s_%s' % (f, t), 'asm_numerical_cast', 'code converting %s to %s' % (f, t), solvers=['cvc5', 'sat'])
        else:
            J('cast.ints.' + t, 'h_cast_ints_' + t, 'asm_numerical_cast', 'code converting every integer type to ' + t)
            for f in ('FLOAT', 'DOUBLE'): J('cast.%s.%s' % (f, t), 'h_cast_%s_%s' % (f, t), 'asm_numerical_cast', 'code converting %s to %s' % (f, t), solvers=['cvc5', 'sat'])
    for o in OPS:
        if o in ('STAR', 'SLASH', 'REM'):
            for t in PT[:6]: J('binary.%s.%s' % (o, t), 'h_binary_%s_%s' % (o, t), 'asm_binary', 'code of binary %s on %s' % (o, t), solvers=['cvc5', 'sat'])
        else: J('binary.%s.ints' % o, 'h_binary_%s_ints' % o, 'asm_binary', 'code of binary %s on every integer type' % o)
        for t in PT[6:]: J('binary.%s.%s' % (o, t), 'h_binary_%s_%s' % (o, t), 'asm_binary', 'code of binary %s on %s' % (o, t), solvers=['cvc5', 'sat'])
    for o in 'PLUS MINUS TILDE NOT'.split(): J('unary.' + o, 'h_unary_' + o, 'asm_unary', 'code of unary %s on every promoted type' % o)
    J('const', 'h_const', 'asm_numerical_const', 'constant instruction for every literal')
    J('memory', 'h_memory', ['asm_load', 'asm_store', 'asm_instr_load_to_store'], 'store then load of every scalar type')
    J('loadwide', 'h_loadwide', 'asm_load', 'widening loads')
    return js
