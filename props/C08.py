from engine import Job
ASSUMPTIONS = ['the dictionary primitives (intern injective, sorted search finds the key) are used through their contracts', 'the instruction set table was generated once by an independent assembler (wasmtime wat2wasm); typed select and the two internal pseudo-instructions use wcpl\'s own names']
def jobs(tier):
    js = []
    X = ['--object-bits', '12', '--max-field-sensitivity-array-size', '600']
    def J(id, entry, fn, what): js.append(Job(id, 'wm_names.c', entry, link=['l.c'], unwind=600, extra=X, checks='none', funcs=fn, what=what))
    for i in range(8): J('names.%d' % i, 'h_names_%d' % i, ['instr_name', 'name_instr'], 'instruction code <-> standard name')
    J('total', 'h_total', ['name_instr'], 'no other names')
    J('sig', 'h_sig', ['instr_sig'], 'kinds of immediates')
    J('valtype', 'h_valtype', ['valtype_name'], 'value types')
    return js
