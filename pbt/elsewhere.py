"""The same questions in another process.

The child reads one JSON line {world, asks} after another and answers each with a
JSON line: the answers as text, in the order of the questions.  It ends with its
standard input.
"""
import json
import os
import select
import subprocess
import sys

LIMIT = 120                     # seconds without an answer


class Lost(Exception):
    pass


class Elsewhere:
    """A child with a hash seed of its own and, if so, a plain locale."""

    def __init__(self, hashseed, plain=False):
        self.hashseed, self.plain, self.p = hashseed, plain, None

    def start(self):
        e = dict(os.environ, PYTHONHASHSEED=str(self.hashseed))
        for k in ('PYTHONUTF8', 'LANG', 'LC_ALL', 'LC_CTYPE', 'PYTHONCOERCECLOCALE'):
            e.pop(k, None)
        e.update({'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}
                 if self.plain else {'LC_ALL': 'C.UTF-8'})
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        e['PYTHONPATH'] = here
        os.makedirs('elsewhere%d' % self.hashseed, exist_ok=True)
        self.p = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-m', 'pbt.elsewhere'], env=e,
            cwd='elsewhere%d' % self.hashseed, stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def ask(self, case):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        self.p.stdin.write(json.dumps(case).encode() + b'\n')
        self.p.stdin.flush()
        out = b''
        while not out.endswith(b'\n'):
            if not select.select([self.p.stdout], [], [], LIMIT)[0]:
                self.stop()
                raise Lost('no answer within %d s in another process' % LIMIT)
            more = os.read(self.p.stdout.fileno(), 1 << 16)
            if not more:
                self.stop()
                raise Lost('another process ended without an answer')
            out += more
        out = json.loads(out)
        if 'error' in out:
            raise Lost('in another process: ' + out['error'])
        return out['answer']


def main():
    out = os.fdopen(os.dup(1), 'w')
    sys.stdout = open(os.devnull, 'w')              # the library prints
    from pbt import env
    env.setup()
    from pbt.props import c24
    for line in sys.stdin.buffer:
        try:
            answer = {'answer': c24.serve(json.loads(line))}
        except Exception as e:
            answer = {'error': '%s: %s' % (type(e).__name__, e)}
        out.write(json.dumps(answer) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
