"""Native replay of a counterexample: the same harness text and the same real sources, compiled by
gcc (compiler sources, with ASan/UBSan) or clang --target=wasm32 run under wasmtime (runtime library)."""
import os, subprocess
import engine as E

def build_native(eng, job, inputs, wd, srcd):
    if job.m32: return wasm_replay(eng, job, inputs, wd, srcd)
    exe = os.path.join(wd, 'replay')
    srcs = [os.path.join(E.HARN, job.src)] + [os.path.join(srcd, s) if not s.startswith('@') else os.path.join(E.HARN, s[1:]) for s in job.link]
    cmd = ['gcc', '-g', '-O0', '-w', '-fno-builtin', '-fsanitize=address,undefined', '-fno-sanitize=shift,signed-integer-overflow,alignment,pointer-overflow',
           '-fsanitize-undefined-trap-on-error', '-ffunction-sections', '-Wl,--gc-sections',
           '-Wl,--unresolved-symbols=ignore-all'] + eng.cc_args(job, srcd) + \
          ['-DVF_ENTRY=' + job.entry, '-o', exe] + srcs + [os.path.join(E.HARN, 'vf_native.c'), '-lm']
    rc, out = E.sh(cmd, timeout=120)
    if rc != 0: return False, 'native build failed: ' + out[-1500:]
    env = dict(os.environ, VF_INPUTS=inputs, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0')
    rc, out = E.sh([exe], timeout=30, env=env)
    bad = rc not in (0, 3)
    return bad, 'exit %d\n%s' % (rc, out[-3000:])

def wasm_replay(eng, job, inputs, wd, srcd):
    w = os.path.join(wd, 'replay.wasm'); gen = os.path.join(wd, 'vf_inputs.c')
    ents = []
    for ln in open(inputs):
        p = ln.split()
        if len(p) != 2: continue
        bs = ','.join('0x' + p[1][i:i+2] for i in range(0, len(p[1]) - 1, 2))
        ents.append((p[0], len(p[1]) // 2, bs))
    with open(gen, 'w') as f:
        for i, (n, l, b) in enumerate(ents): f.write('static const unsigned char d%d[] = {%s};\n' % (i, b or '0'))
        f.write('const struct { const char *n; const unsigned char *p; unsigned sz; } vf_inputs[] = {')
        for i, (n, l, b) in enumerate(ents): f.write('{"%s", d%d, %d},' % (n, i, l))
        f.write('{0,0,0}};\n')
    cmd = ['clang', '--target=wasm32', '-O0', '-w', '-fno-builtin', '-nostdlib', '-mbulk-memory', '-fwrapv', '-Wno-everything',
           '-Wl,--no-entry', '-Wl,--export=vf_main', '-Wl,--allow-undefined', '-Wl,--gc-sections'] + \
          [x for x in eng.cc_args(job, srcd) if x != '-m32'] + ['-DVF_ENTRY=' + job.entry, '-o', w, os.path.join(E.HARN, job.src)] + \
          [os.path.join(srcd, s) if not s.startswith('@') else os.path.join(E.HARN, s[1:]) for s in job.link] + \
          [os.path.join(E.HARN, 'libshim', 'vf_wasm_rt.c'), gen]
    rc, out = E.sh(cmd, timeout=120)
    if rc != 0: return False, 'wasm build failed: ' + out[-1500:]
    rc, out = E.sh(['/opt/vp/venv/bin/python', os.path.join(E.VERIF, 'vf', 'runwasm.py'), w], timeout=60)
    return rc not in (0, 3), 'exit %d\n%s' % (rc, out[-3000:])
