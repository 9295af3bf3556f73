from engine import Job
TS = 'BOOL CHAR UCHAR SHORT USHORT INT UINT LONG ULONG LLONG ULLONG FLOAT DOUBLE'.split()
OPS = 'PLUS MINUS STAR AND OR XOR SLASH REM SHL SHR EQ NE LT GT LE GE'.split()
INTS = 'ASSUME(sp_isint(in_tx) && sp_isint(in_ty));'
COMT = 'ASSUME(sp_common(in_tx, in_ty) == TS_%s);'
SMALLI = 'ASSUME((in_x <= 3 || in_x >= -3ull) && (in_y <= 3 || in_y >= -3ull));'
SMALLF = 'ASSUME(sp_isint(in_tx) ? in_x <= 3 : in_tx == TS_FLOAT ? in_x == sv_f(1.5f).u || in_x == sv_f(-2).u : in_x == sv_d(1.5).u || in_x == sv_d(-2).u);' \
         'ASSUME(sp_isint(in_ty) ? in_y <= 3 : in_ty == TS_FLOAT ? in_y == sv_f(0.5f).u || in_y == 0 : in_y == sv_d(0.5).u || in_y == 0);'
def B(id, op, dom, tx=None, ty=None, absconv=False, **kw):
    defs = ['OP=TT_' + op, 'DOM=' + dom]
    if tx: defs.append('TX=TS_' + tx)
    if ty: defs.append('TY=TS_' + ty)
    if absconv: defs.append('ABSCONV')
    kw.setdefault('what', 'folded %s' % op)
    return Job('binop.%s.%s' % (op, id), 'cc_fold.c', 'h_binop', defs=defs, enforce=['numval_binop'], replace=['numval_convert'] if absconv else [],
               funcs=['numval_binop', 'ts_arith_common', 'ts_integral_promote', 'integral_mask', 'integral_sext'],
               checks='memdiv' if op in ('SLASH', 'REM') else 'mem', **kw)
ASSUMPTIONS = ['subtrees of an evaluated expression are represented by literals of arbitrary type and value (structural induction over the expression)',
  'operands are canonical (signed sign-extended, unsigned zero-extended, _Bool 0/1), as the lexer and every folded result produce; results are proved canonical',
  'wasm32: long and pointers are 32 bits wide; the dialect keeps long for long op unsigned int (see C03)',
  'float division by zero may be left unfolded; float-to-integer conversions that trap at run time are unconstrained; NaN payloads are not distinguished',
  'host arithmetic is that of goto-cc (two\'s complement, IEEE binary32/64, round to nearest)']
TRUSTED = ['harness/csem.h: the specification of wasm32 C arithmetic']
def FB(op, t, dom): # bounded stand-in used when the prover gives no answer on changed code
    return dict(id='binop.%s.%s.bounded' % (op, t), defs=['OP=TT_' + op, 'TX=TS_' + t, 'TY=TS_' + t, 'DOM=' + dom], solvers=['sat', 'cadical'], bounded='operand values: small integers / a few floats')
def jobs(tier):
    js = []
    for t in TS + ['ENUM']:
        js.append(Job('convert.' + t, 'cc_fold.c', 'h_convert', defs=['TO=TS_' + t, 'DOM=', 'OP=0'], enforce=['numval_convert'], funcs=['numval_convert', 'integral_mask', 'integral_sext', 'ts_unsigned'],
                      what='constant conversion to %s from every arithmetic type equals the run-time conversion' % t))
    for o in 'PLUS MINUS TILDE NOT'.split():
        js.append(Job('unop.' + o, 'cc_fold.c', 'h_unop', defs=['OP=TT_' + o, 'DOM='], enforce=['numval_unop'], what='folded unary %s, every type and value' % o))
    UR = 'intern_strlit post_symbol measure_type measure_offset type_eval same_type npalloc neprintf n2eprintf wrap_type_pointer ndsettype ndnewbk ndset ndfini ndinit'.split()
    SE = dict(unreachable=UR, link=['l.c'], unwind=5, funcs=['static_eval'])
    js.append(Job('static_eval.prefix', 'cc_fold.c', 'h_sprefix', defs=['ABSOPS', 'DOM='], replace=['numval_unop'], what='prefix operator on any literal evaluates to numval_unop of it', **SE))
    js.append(Job('static_eval.infix', 'cc_fold.c', 'h_sinfix', defs=['ABSOPS', 'DOM='], replace=['numval_binop'], what='infix operator on any two literals evaluates to numval_binop of them', **SE))
    for t in TS:
        js.append(Job('static_eval.cast.' + t, 'cc_fold.c', 'h_scast', defs=['TO=TS_' + t, 'OP=0', 'DOM='], what='evaluation of a cast to %s of any literal' % t, **SE))
    js.append(Job('static_eval.cond', 'cc_fold.c', 'h_scond', defs=['OP=0', 'DOM=', 'ABSCONV', 'RECCONTRACT'], enforce=['rec:static_eval'], replace=['numval_convert'], what='?: on any literals', **SE))
    js.append(Job('static_eval.literal', 'cc_fold.c', 'h_sleaf', defs=['ABSCONV', 'RECCONTRACT'], enforce=['rec:static_eval'], what='a literal evaluates to itself', **SE))
    js.append(Job('static_eval.test', 'cc_fold.c', 'h_stest', defs=['OP=0', 'DOM='], what='integer constant value', unreachable=UR, link=['l.c'], unwind=5, funcs=['arithmetic_eval_to_int', 'static_eval']))
    js.append(Job('static_eval.null', 'cc_fold.c', 'h_snull', defs=['OP=0', 'DOM='], what='! on pointer constants', **SE))
    for o in OPS:
        hard = o in ('STAR', 'SLASH', 'REM')
        if not hard: js.append(B('int', o, INTS))
        else:
            for t in ('INT', 'UINT', 'LONG', 'ULONG', 'LLONG', 'ULLONG'):
                js.append(B(t, o, '', t, t, solvers=['cvc5', 'cadical'], timeout=100, fallback=FB(o, t, SMALLI)))
            if tier == 'quick': js.append(B('int.mixed', o, INTS + SMALLI, solvers=['sat', 'cadical'], bounded='operands in -3..3 (all type pairs); the unrestricted mixed pairs are proved in the thorough tier'))
        fhard = o in ('PLUS', 'MINUS', 'STAR', 'SLASH')
        for t in ('FLOAT', 'DOUBLE'):
            if not fhard: js.append(B(t, o, COMT % t, absconv=True)); continue
            js.append(B(t, o, '', t, t, solvers=['cvc5', 'sat'], timeout=100, fallback=FB(o, t, SMALLF)))
            if tier == 'quick': js.append(B(t + '.mixed', o, COMT % t + SMALLF, bounded='a few operand values (all type pairs); the unrestricted mixed pairs are proved in the thorough tier'))
        if tier != 'quick' and (hard or fhard):
            for x in TS + ['ENUM']:
                for y in TS + ['ENUM']:
                    f = x in ('FLOAT', 'DOUBLE') or y in ('FLOAT', 'DOUBLE')
                    if x == y and x not in ('BOOL', 'CHAR', 'UCHAR', 'SHORT', 'USHORT', 'ENUM'): continue
                    if (f and fhard) or (not f and hard): js.append(B('%s.%s' % (x, y), o, '', x, y, absconv=True, solvers=['cvc5', 'sat'], timeout=300))
    return js
