from engine import Job
CLS = 'alnum alpha cntrl digit graph lower print punct space upper xdigit blank'.split()
ASSUMPTIONS = ['arguments in EOF(-1)..255 as ISO C requires (isascii: any int)', 'library source compiled by goto-cc -m32 (wasm32 data model), not by wcpl itself']
TRUSTED = ['harness/libshim (shims for wcpl built-ins)']
def jobs(tier):
    js = []
    for n in CLS:
        js.append(Job('is' + n, 'lib_ctype.c', 'h_classify', m32=True, defs=['CLASSIFY', 'FN=is' + n, 'SP=sp_' + n], enforce=['wl_is' + n], what='is%s equals the C-locale table on every argument' % n))
    for n in ('toupper', 'tolower'):
        js.append(Job(n, 'lib_ctype.c', 'h_map', m32=True, defs=['MAPPING', 'FN=' + n, 'SP=sp_' + n], enforce=['wl_' + n], what=n + ' equals the C-locale mapping'))
    js.append(Job('isascii', 'lib_ctype.c', 'h_isascii', m32=True, enforce=['wl_isascii'], what='isascii for every int'))
    return js
