#!/usr/bin/env python3
"""setup.py: nothing to build ahead of time; verify that the tools the checks drive are present."""
import shutil, subprocess, sys
bad = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'cvc5', 'gcc', 'clang', 'wasm-ld') if not shutil.which(t)]
print('tools:', 'ok' if not bad else 'missing ' + ' '.join(bad))
sys.exit(1 if [b for b in bad if b not in ('wasm-ld',)] else 0)
