import sys, wasmtime as w
engine = w.Engine(); store = w.Store(engine)
mod = w.Module.from_file(engine, sys.argv[1])
inst = None; fails = []
def mem(): return inst.exports(store)["memory"]
def rd(p):
    b = bytearray()
    m = mem()
    while True:
        c = m.read(store, p, p + 1)[0]
        if not c: break
        b.append(c); p += 1
    return b.decode('latin-1')
class Stop(Exception): pass
code = []
def stop(c):
    code.append(c); raise Stop()
def report(p): print(rd(p), flush=True)
imports = []
for i in mod.imports:
    if i.name == 'vf_report': imports.append(w.Func(store, i.type, report))
    elif i.name == 'vf_stop': imports.append(w.Func(store, i.type, stop))
    elif isinstance(i.type, w.FuncType):
        def trap(*a, n=i.name): raise RuntimeError('unresolved ' + n)
        imports.append(w.Func(store, i.type, trap))
    else: raise SystemExit('import %s' % i.name)
inst = w.Instance(store, mod, imports)
try:
    r = inst.exports(store)["vf_main"](store)
except Exception as e:
    if code: sys.exit(code[0])
    print('REPLAY-FAILED: trap', str(e)[:500]); sys.exit(1)
sys.exit(r)
