"""Replay of concrete inputs against the compiled code."""
import os
import select
import struct
import subprocess


class Driver:
    def __init__(self, exe, lib, timeout=10):
        self.exe, self.lib, self.timeout = exe, lib, timeout
        self.p = None

    def start(self):
        env = dict(os.environ, RUST_BACKTRACE='0')
        self.p = subprocess.Popen([self.exe, self.lib, str(self.timeout)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def line(self, harness, tier, inputs, want=None, probe=0):
        parts = [harness, str(tier), str(len(inputs))]
        for k, v in inputs:
            if k == 'f':
                parts += ['f', '%x' % struct.unpack('<Q', struct.pack('<d', v))[0]]
            else:
                parts += [k, str(int(v))]
        if want:
            parts += ['d', '%x' % struct.unpack('<Q', struct.pack('<d', want))[0]]
        if probe:
            parts += ['x', str(probe)]
        return ' '.join(parts) + '\n'

    def run(self, harness, tier, inputs, want=None, probe=0):
        """-> (verdict, text); verdict in pass fail assume error"""
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(self.line(harness, tier, inputs, want, probe).encode())
            self.p.stdin.flush()
            out = []
            while True:
                l = self.p.stdout.readline()
                if not l:
                    self.p = None
                    return 'error', 'driver died'
                l = l.decode('utf-8', 'replace')
                if l.startswith('END'):
                    end = l.strip()
                    break
                out.append(l)
        except (BrokenPipeError, OSError):
            self.p = None
            return 'error', 'driver died'
        return classify(''.join(out), end)

    def memcheck(self, harness, tier, inputs):
        """run under valgrind: -> (verdict, text)"""
        try:
            r = subprocess.run(['valgrind', '-q', '--error-exitcode=99', '--leak-check=no', self.exe, self.lib, '10', 'nofork'],
                               input=self.line(harness, tier, inputs).encode(), capture_output=True, timeout=120)
        except (subprocess.TimeoutExpired, OSError) as e:
            return 'error', str(e)
        txt = r.stdout.decode('utf-8', 'replace')
        err = r.stderr.decode('utf-8', 'replace')
        if r.returncode == 99 or r.returncode < 0:
            return 'fail', err[:1500]
        v, t = classify(txt + err, 'END %d' % r.returncode)
        return v, t


def classify(txt, end):
    if 'FAIL ' in txt:
        return 'fail', txt[txt.index('FAIL '):].split('\n')[0]
    if end.startswith('END signal 14'):
        return 'fail', 'no termination: timed out'
    if end.startswith('END signal') or (end.startswith('END') and end != 'END 0'):
        return 'fail', (txt.strip() or end)[:600] + ' (' + end[4:] + ')'
    if 'ASSUME' in txt:
        return 'assume', ''
    if 'DONE' in txt:
        return 'pass', txt.strip()[-60:]
    return 'error', txt.strip()[:200]
