"""Setup: byte-compile the analyser and check that the code base loads abstractly."""
import compileall, os, sys


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    if not compileall.compile_dir(here, quiet=1): return 1
    from .repo import Repo
    r = Repo()
    r.load('kolombos.app')
    print('analyser ready,', len(r.I.mods) if hasattr(r.I, 'mods') else '', 'modules loaded')
    return 0


if __name__ == '__main__': sys.exit(main())
