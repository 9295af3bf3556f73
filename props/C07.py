from engine import Job
ASSUMPTIONS = ['compiler built for the host data model (LP64), as the shipped wcpl is', 'names up to 16, data up to 12 bytes and function bodies up to 16 bytes in the copying loops (bounded jobs); section lengths are unbounded', 'fputc/fwrite of the host libc write what they are given']
KINDS = 'BT U32 U32X2 VTVEC Z1 Z2 S32 S64 F32 F64 HT MEMINIT B16 LANES LANE NONE0 NONE1 NONE2 NONE3 MEMARG0 MEMARG1 MEMARG2 MEMARG3 MEMARG4 MEMLANE0 MEMLANE1 MEMLANE2 MEMLANE3'.split()
def jobs(tier):
    js = []
    def J(id, entry, fn, what, **k): js.append(Job(id, 'wm_enc.c', entry, link=['l.c'], unwind=k.pop('unwind', 66), funcs=fn, what=what, **k))
    J('unsigned', 'h_unsigned', ['wasm_unsigned'], 'LEB128 of every unsigned 64-bit value')
    J('signed', 'h_signed', ['wasm_signed'], 'LEB128 of every signed 64-bit value')
    J('float', 'h_float', ['wasm_float'], 'every float bit pattern')
    J('double', 'h_double', ['wasm_double'], 'every double bit pattern')
    J('byte', 'h_byte', ['wasm_byte'], 'byte output to file or buffer')
    J('name', 'h_name', ['wasm_name'], 'length-prefixed names', bounded='names up to 16 bytes')
    J('data', 'h_data', ['wasm_data'], 'data bytes', bounded='up to 12 bytes')
    for k in KINDS: J('instr.' + k, 'h_expr_' + k, ['wasm_expr', 'wasm_in', 'instr_sig'], 'every instruction of this kind with every operand value')
    for n in '014': J('brtable.' + n, 'h_brtable_' + n, ['wasm_expr'], 'br_table and its branches', bounded='up to 5 labels (1 or 2 arbitrary, 5 below 128)')
    J('section', 'h_section', ['wasm_section_start', 'wasm_section_end'], 'section framing for contents of any length')
    J('code', 'h_code', ['wasm_code_start', 'wasm_code_end'], 'function body framing', bounded='bodies up to 16 bytes')
    return js
