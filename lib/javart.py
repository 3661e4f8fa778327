"""Java side: a persistent host JVM per worker (rt/javahost/Host.java) against the stand-in Mink API (rt/java)."""
import os, select
from common import *
from model import *

JT = {'uint8': 'byte', 'int8': 'byte', 'uint16': 'char', 'int16': 'char', 'uint32': 'int', 'int32': 'int', 'uint64': 'long', 'int64': 'long',
      'float32': 'float', 'float64': 'double'}
RTJ = os.path.join(VERIF, 'rt/java/com/qualcomm/qti/qms/api/mink')


def build_host():
    """compiles the stand-in API and the host once per content; returns the class path"""
    srcs = [os.path.join(RTJ, x) for x in sorted(os.listdir(RTJ))] + [os.path.join(VERIF, 'rt/javahost/Host.java')]
    h = hashlib.sha1(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()[:12]
    dst = os.path.join(BUILD, 'javahost-' + h)
    with lock('javahost'):
        if not os.path.exists(os.path.join(dst, 'done')):
            r = run(['javac', '-nowarn', '-proc:none', '-encoding', 'UTF-8', '-d', dst] + srcs, timeout=300)
            if r[0]:
                raise BuildError('javac host: ' + r[2])
            open(os.path.join(dst, 'done'), 'w').close()
    return dst


class Java:
    def __init__(self, cp):
        self.cp = cp
        self.p = None

    def start(self):
        def pre():
            os.setsid()
        self.err = open(os.devnull, 'w')
        self.p = subprocess.Popen(['java', '-Xshare:auto', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xmx700m', '-cp', self.cp, 'Host'],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=ENV, preexec_fn=pre)
        self.buf = b''

    def cmd(self, line, timeout=120):
        """-> list of token lists; raises RuntimeError when the JVM dies or stalls"""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(line.encode() + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            raise RuntimeError('host JVM died')
        t_end = time.time() + timeout
        while not (self.buf.endswith(b'\n.\n') or self.buf == b'.\n'):
            r, _, _ = select.select([self.p.stdout], [], [], max(0, t_end - time.time()))
            d = os.read(self.p.stdout.fileno(), 1 << 20) if r else b''
            if not d:
                self.stop()
                raise RuntimeError('host JVM %s on: %s' % ('died' if r else 'stalled', line[:300]))
            self.buf += d
        out = self.buf.decode('utf-8', 'replace').split('\n')[:-2]
        self.buf = b''
        return [x.split(' ') for x in out]

    def stop(self):
        if self.p:
            with contextlib.suppress(ProcessLookupError):
                os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
            self.p = None
            self.buf = b''


def jkind(fs, p):
    return {'prim': 'v', 'small': 'v', 'big': 'v', 'buf': 'b', 'sbuf': 'b', 'obj': 'o', 'objarr': 'O'}[fs.kind(p)]


def args_script(call):
    """positional arguments of a rt.Call in the host's format"""
    fs, L = call.fs, [str(len(call.m.params))]
    for k, p in enumerate(call.m.params):
        kd = jkind(fs, p)
        b, ln, objs = (call.ins if p.dir == 'in' else call.outs)[k]
        if p.dir == 'out':
            ln = call.cap[k] if kd == 'b' else fs.elem_size(p) if kd == 'v' else 0
        L.append('%d %s %s %d %d %s' % (p.dir == 'out', kd, b.hex() or '-', ln, len(objs), ' '.join(map(str, objs))))
    return ' '.join(' '.join(L).split())


def j_type(fs, p):
    kd = fs.kind(p)
    if p.type == 'buffer':
        t = 'byte'
    elif kd in ('obj', 'objarr'):
        t = 'IMinkObject'
    else:
        t = JT.get(p.type, p.type)
    return t + {'buf': '[]', 'sbuf': '[]', 'objarr': '[]'}.get(kd, '')


def java_impls(fs, d):
    """a conforming implementation class per interface, and a user of every proxy method; returns the file list"""
    out = []
    for n, i in enumerate(fs.ifaces()):
        for full in (True, False):
            if not full and not any(m.optional for _, _, m in fs.flat_methods(i)):
                continue
            cn = 'Zimpl%d%s' % (n, 'f' if full else 'p')
            t = 'package com.qualcomm.qti.mink;\nimport com.qualcomm.qti.qms.api.mink.*;\npublic class %s implements %s {\n' % (cn, i.name)
            for _, _, m in fs.flat_methods(i):
                if m.optional and not full:
                    continue
                ps = []
                for k, p in enumerate(m.params):
                    ps.append('%s%s a%d' % (j_type(fs, p), '[]' if p.dir == 'out' else '', k))
                    if p.dir == 'out' and jkind(fs, p) in 'bO':
                        ps.append('int n%d' % k)
                t += '    @Override public void %s(%s) throws IMinkObject.InvokeException { }\n' % (m.name, ', '.join(ps))
            t += '    static IMinkObject make() { return new %s.MinkObject(new %s()); }\n' % (i.name, cn)
            t += '    static %s proxy(IMinkObject o) { return new %s.Proxy(o); }\n}\n' % (i.name, i.name)
            p = os.path.join(d, cn + '.java')
            open(p, 'w').write(t)
            out.append(p)
    return out
