"""setup_cmd: nothing to build; checks that the tools are there and warms the extraction cache."""
import multiprocessing as mp
import shutil
import sys
from . import build


def main():
    for t in ('clang-18', 'opt-18', 'llvm-dis-18', 'gcc', 'g++', 'objcopy', 'nm'):
        if not shutil.which(t):
            print('missing tool', t)
            sys.exit(1)
    import z3  # noqa: F401
    import importlib
    C = importlib.import_module('contracts')
    tus = set()
    for p, d in C.PROPERTIES.items():
        for m in d['modules']:
            tus |= set(importlib.import_module('contracts.' + m).TUS(p))
    with mp.Pool(8) as p:
        p.map(build.extract, sorted(tus))
    print('extracted', len(tus), 'translation units')


if __name__ == '__main__':
    main()
