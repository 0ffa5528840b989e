import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf  # noqa: E402


def load(pid):
    sys.path.insert(0, os.path.join(vf.VERIF, 'checks'))
    return importlib.import_module(pid.lower())


def setup():
    """setup_cmd: nothing has to be built in advance; says what is missing."""
    import shutil
    import hypothesis
    import gb.hypergraph.hypergraph  # noqa: F401
    if shutil.which('gcc') is None and shutil.which('cc') is None:
        print('no C compiler: T03 and T08 need one')
        return 2
    if shutil.which('javac') is None or shutil.which('java') is None:
        print('no Java compiler: J01 to J04 need one')
        return 2
    print('hypothesis %s, python %s' % (hypothesis.__version__, sys.version.split()[0]))
    return 0


def main(argv):
    try:
        vf.setup_process()
        if argv[:1] == ['--replay']:
            return vf.replay(argv[1], load)
        if argv[:1] == ['--setup']:
            return setup()
        return vf.check(argv[0], load(argv[0]))
    except BaseException:
        traceback.print_exc()
        print('ERROR: the check itself failed', file=sys.stderr)
        return 2
    finally:
        vf.cleanup()
        if os.environ.get('VERIF_IOLOG'):
            import iolog
            iolog.release()


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
