"""Runs several real processes under a scheduler: each stops before its file operations below one path (harness/gate.c)
and continues when the schedule says so. Only one process acts at a time, so every run is an interleaving of file
operations that can be repeated."""
import os, socket, subprocess, tempfile, shutil, time
import vf


class Proc:
    def __init__(self, k, cmd, env, cwd, log):
        self.k, self.cmd, self.env, self.cwd, self.log = k, cmd, env, cwd, log
        self.conn, self.buf, self.at, self.rc, self.ops = None, b'', None, None, []
        self.p = None


class Stuck(Exception):
    pass


class World:
    """cmds: list of commands (or (command, environment)); match: names with this text are gated"""

    def __init__(self, match, cmds, cwd, timeout=60):
        self.dir = tempfile.mkdtemp(prefix='gate-', dir='/tmp')
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.bind(self.dir + '/s')
        self.sock.listen(64)
        self.timeout = timeout
        self.procs = []
        for k, c in enumerate(cmds, 1):
            env = vf.clean_env()
            env.update(LD_PRELOAD=vf.shared_lib('gate'), GATE_MATCH=match, GATE_SOCK=self.dir + '/s', GATE_ID=str(k), OMP_NUM_THREADS='1')
            self.procs.append(Proc(k, c, env, cwd, f'{self.dir}/log{k}'))
        for q in self.procs:     # started one after the other, so that connections are told apart by their greeting
            q.p = subprocess.Popen(q.cmd, env=q.env, cwd=q.cwd, stdin=subprocess.DEVNULL, stdout=open(q.log, 'wb'), stderr=subprocess.STDOUT)
        for q in self.procs:
            self._wait(q)

    def _accept(self):
        self.sock.settimeout(0.02)
        try:
            c, _ = self.sock.accept()
        except (socket.timeout, BlockingIOError):
            return
        c.settimeout(self.timeout)
        b = b''
        while b'\n' not in b:
            x = c.recv(256)
            if not x:
                return
            b += x
        hello, rest = b.split(b'\n', 1)
        q = self.procs[int(hello.split()[1]) - 1]
        q.conn, q.buf = c, rest

    def _wait(self, q):
        """until the process is about to do its next operation or has ended"""
        t = time.time()
        q.at = None
        while True:
            if time.time() - t > self.timeout:
                raise Stuck(f'process {q.k} neither ended nor came to a file operation')
            if q.conn is None:
                self._accept()
                if q.conn is None and q.p.poll() is not None:
                    q.rc = q.p.returncode
                    return
                continue
            if b'\n' in q.buf:
                line, q.buf = q.buf.split(b'\n', 1)
                q.at = tuple(line.decode().split(' ', 1))
                return
            q.conn.settimeout(0.5)
            try:
                x = q.conn.recv(4096)
            except socket.timeout:
                if q.p.poll() is not None:
                    q.rc = q.p.returncode
                    return
                continue
            if not x:
                q.conn.close()
                q.conn = None
                q.rc = q.p.wait(self.timeout)
                return
            q.buf += x

    def step(self, k):
        """lets process k do one operation and run up to its next one"""
        q = self.procs[k - 1]
        q.ops.append(q.at)
        q.conn.send(b'g')
        self._wait(q)

    def alive(self, k):
        return self.procs[k - 1].rc is None

    def spinning(self, k):
        """the process waits for another one: it repeats an operation"""
        q = self.procs[k - 1]
        return q.at is not None and len(q.ops) >= 4 and all(o == q.at for o in q.ops[-4:])

    def output(self, k):
        return open(self.procs[k - 1].log, 'rb').read().decode('utf8', 'replace')

    def run(self, schedule, observe, limit=4000):
        """schedule: list of (process, number of operations or None for all); afterwards the others follow in order.
        A process that waits for another one is passed over. observe(k) is called after every step of process k."""
        todo = list(schedule) + [(q.k, None) for q in self.procs] * 50
        n = 0
        for k, m in todo:
            while self.alive(k) and (m is None or m > 0):
                if m is None and self.spinning(k) and any(self.alive(j.k) and j.k != k and not self.spinning(j.k) for j in self.procs):
                    break
                self.step(k)
                observe(k)
                n += 1
                if n > limit:
                    raise Stuck('the processes do not end')
                if m is not None:
                    m -= 1
                elif self.spinning(k):
                    break
            if not any(self.alive(q.k) for q in self.procs):
                return
        raise Stuck('the processes do not end')

    def close(self):
        for q in self.procs:
            if q.p and q.p.poll() is None:
                q.p.kill()
                q.p.wait()
            if q.conn:
                q.conn.close()
        self.sock.close()
        shutil.rmtree(self.dir, ignore_errors=True)
