#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough] | check.py replay FILE | check.py setup"""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def main():
    if os.environ.get('VERIF_CHILD') != '1':
        # fresh interpreter: the tree under test first on the path, fixed
        # string hashing, no byte code left behind or picked up
        env = dict(os.environ, VERIF_CHILD='1', PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX=f'/tmp/verif-pyc-{os.getpid()}',
                   PYTHONPATH=REPO + os.pathsep + ROOT)
        os.execve(sys.executable, [sys.executable, *sys.argv], env)
    from mon import engine
    if sys.argv[1] == 'setup':
        return engine.setup()
    if sys.argv[1] == 'replay':
        return engine.replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    return engine.main(sys.argv[1], tier)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
