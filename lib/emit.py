"""Per-language glue around generated code: drivers which call every stub entry through a neutral argument table (Slot),
and implementations which hand what they receive to the host.  Everything is positional, so no IDL parameter name is used."""
import os
from model import *

CT = {'uint8': 'uint8_t', 'uint16': 'uint16_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t', 'int8': 'int8_t', 'int16': 'int16_t',
      'int32': 'int32_t', 'int64': 'int64_t', 'float32': 'float', 'float64': 'double'}
RT = {'uint8': 'u8', 'uint16': 'u16', 'uint32': 'u32', 'uint64': 'u64', 'int8': 'i8', 'int16': 'i16', 'int32': 'i32',
      'int64': 'i64', 'float32': 'f32', 'float64': 'f64'}

HOST_H = r'''
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "object.h"
typedef struct Slot { unsigned char *p; size_t bytes, elem, len, lenout; Object *objs; size_t nobj; int out; } Slot;
#ifdef __cplusplus
extern "C" {
#endif
int32_t host_impl(void *me, int mid, Slot *s, int n);
void host_modified(int idx);
void *host_new(int skel);
int32_t host_retain(void *me);
int32_t host_release(void *me);
#ifdef __cplusplus
}
#endif
'''


def cpath(base, path):
    s = base
    for x in path:
        s += '[%d]' % x if isinstance(x, int) else '.' + x
    return s


def rpath(base, path):
    s = base
    for x in path:
        s += '[%d]' % x if isinstance(x, int) else '.r#' + x
    return s


class Emit:
    def __init__(self, fs):
        self.fs = fs
        self.entries = []       # (iface, op, owner, method)
        self.mids = {}          # (owner.name, method.name) -> id
        for i in fs.ifaces():
            for op, ow, m in fs.flat_methods(i):
                self.mids.setdefault((ow.name, m.name), len(self.mids))
                self.entries.append((i, op, ow, m))
        self.methods = {v: k for k, v in self.mids.items()}
        self.skels = []         # (iface, full?)
        for i in fs.ifaces():
            self.skels.append((i, True))
            if any(m.optional for _, _, m in fs.flat_methods(i)):
                self.skels.append((i, False))
        # objects of each struct
        self.objs = {s.name: fs.objects_in(s.name) for s in fs.structs()}

    def desc(self, i):
        """interfaces which are i or derive from it"""
        return [y for y in self.fs.ifaces() if i in self.fs.chain(y)]

    # ------------------------------------------------------------ C
    def c_type(self, t, typed=True):
        if t in CT:
            return CT[t]
        if t == 'interface':
            return 'Object'
        if self.fs.is_obj(t):
            return t if typed else 'Object'
        return t

    def c_params(self, m, typed=True, names=None):
        fs, r = self.fs, []
        for k, p in enumerate(m.params):
            n = 'a%d' % k if names is None else names[k]
            kd = fs.kind(p)
            t = self.c_type(p.type, typed) if p.type != 'buffer' else 'void'
            o = p.dir == 'out'
            if kd == 'prim':
                r.append('%s *%s' % (t, n) if o else '%s %s' % (t, n))
            elif kd in ('small', 'big'):
                r.append('%s%s *%s' % ('' if o else 'const ', t, n))
            elif kd in ('buf', 'sbuf'):
                r.append('%s%s *%s' % ('' if o else 'const ', t, n))
                r.append('size_t %s_len' % n)
                if o:
                    r.append('size_t *%s_lenout' % n)
            elif kd == 'obj':
                r.append('%s %s%s' % (t, '*' if o else '', n))
            else:
                r.append('%s%s (*%s)[%d]' % ('' if o else 'const ', t, n, p.arr))
        return r

    def c_driver(self, fn, iface, m, cpp=False, typed=True):
        """one driver function; cpp=True for the C++ proxy classes"""
        fs = self.fs
        pre, args, post = [], [], []
        for k, p in enumerate(m.params):
            kd, o = fs.kind(p), p.dir == 'out'
            if kd == 'prim':
                t = CT[p.type]
                pre.append('%s v%d; memcpy(&v%d, s[%d].p, sizeof v%d);' % (t, k, k, k, k))
                args.append('&v%d' % k if o else 'v%d' % k)
                if o:
                    post.append('memcpy(s[%d].p, &v%d, sizeof v%d);' % (k, k, k))
            elif kd in ('small', 'big'):
                t = p.type
                ob = self.objs[t]
                pre.append('%s v%d; memcpy(&v%d, s[%d].p, sizeof v%d);' % (t, k, k, k, k))
                if not o:
                    pre += ['%s = s[%d].objs[%d];' % (cpath('v%d' % k, pa), k, j) for j, (pa, _, _) in enumerate(ob)]
                    pre.append('%s c%d; memcpy(&c%d, &v%d, sizeof v%d);' % (t, k, k, k, k))
                    post.append('if (memcmp(&c%d, &v%d, sizeof v%d)) host_modified(%d);' % (k, k, k, k))
                else:
                    for j, (pa, _, _) in enumerate(ob):
                        post.append('s[%d].objs[%d] = %s; %s = Object_NULL;' % (k, j, cpath('v%d' % k, pa), cpath('v%d' % k, pa)))
                    post.append('memcpy(s[%d].p, &v%d, sizeof v%d);' % (k, k, k))
                args.append(('v%d' if cpp else '&v%d') % k)
            elif kd in ('buf', 'sbuf'):
                t = 'void' if p.type == 'buffer' else self.c_type(p.type)
                args.append('(%s%s*)s[%d].p' % ('' if o else 'const ', t, k))
                args.append('s[%d].len' % k)
                if o:
                    args.append('&s[%d].lenout' % k)
            elif kd == 'obj':
                if cpp:
                    t = 'ProxyBase' if p.type == 'interface' else p.type
                    if o:
                        pre.append('%s v%d;' % (t, k))
                        post.append('if (!r) s[%d].objs[0] = v%d.ProxyBase::extract();' % (k, k))
                    else:
                        pre.append('%s v%d(s[%d].objs[0]);' % (t, k, k))
                        post.append('{ Object g = v%d.ProxyBase::extract(); if (memcmp(&s[%d].objs[0], &g, sizeof g)) host_modified(%d); }'
                                    % (k, k, k))
                    args.append('v%d' % k)
                else:
                    args.append('&s[%d].objs[0]' % k if o else 's[%d].objs[0]' % k)
            else:
                if cpp:
                    t = 'ProxyBase' if p.type == 'interface' else p.type
                    if o:
                        pre.append('%s v%d[%d];' % (t, k, p.arr))
                        post += ['if (!r) s[%d].objs[%d] = v%d[%d].ProxyBase::extract();' % (k, j, k, j) for j in range(p.arr)]
                    else:
                        pre.append('%s v%d[%d] = {%s};' % (t, k, p.arr, ', '.join('%s(s[%d].objs[%d])' % (t, k, j)
                                                                                 for j in range(p.arr))))
                        post += ['{ Object g = v%d[%d].ProxyBase::extract(); if (memcmp(&s[%d].objs[%d], &g, sizeof g)) host_modified(%d); }'
                                 % (k, j, k, j, k) for j in range(p.arr)]
                    args.append('v%d' % k)
                else:
                    t = self.c_type(p.type, typed)
                    args.append('(%s%s (*)[%d])s[%d].objs' % ('' if o else 'const ', t, p.arr, k))
        if cpp:
            head = 'extern "C" int32_t %s(Object target, Slot *s);\nint32_t %s(Object target, Slot *s)' % (fn, fn)
            call = '%s self_(target); int32_t r = self_.%s(%s); self_.ProxyBase::extract();' % (iface.name, m.name, ', '.join(args))
        else:
            head = 'int32_t %s(Object target, Slot *s);\nint32_t %s(Object target, Slot *s)' % (fn, fn)
            call = 'int32_t r = %s_%s(%s);' % (iface.name, m.name, ', '.join(['target'] + args))
        return head + '\n{\n    (void)s;\n' + ''.join('    %s\n' % x for x in pre + [call] + post) + '    return r;\n}\n'

    def c_impl_body(self, mid, m, cpp, me):
        """statements of an implementation; parameters are a0.. (C signature naming of c_params)"""
        fs = self.fs
        n = len(m.params)
        b, post = [], []
        if n:
            b.append('Slot s[%d]; memset(s, 0, sizeof s);' % n)
        for k, p in enumerate(m.params):
            kd, o = fs.kind(p), p.dir == 'out'
            if kd == 'prim':
                t = CT[p.type]
                if o:
                    b.append('%s v%d; memset(&v%d, 0, sizeof v%d);' % (t, k, k, k))
                    post.append('*a%d = v%d;' % (k, k))
                else:
                    b.append('%s v%d = a%d;' % (t, k, k))
                b.append('s[%d].p = (unsigned char*)&v%d; s[%d].bytes = sizeof v%d; s[%d].out = %d;' % (k, k, k, k, k, o))
            elif kd in ('small', 'big'):
                t, ob = p.type, self.objs[p.type]
                dot = 'a%d' % k if cpp else '(*a%d)' % k
                if ob:
                    b.append('Object o%d[%d]; memset(o%d, 0, sizeof o%d); s[%d].objs = o%d; s[%d].nobj = %d;' % (
                        k, len(ob), k, k, k, k, k, len(ob)))
                b.append('%s v%d; memset(&v%d, 0, sizeof v%d);' % (t, k, k, k))
                if not o:
                    b.append('memcpy(&v%d, &%s, sizeof v%d);' % (k, dot, k))
                    b += ['o%d[%d] = %s; %s = Object_NULL;' % (k, j, cpath('v%d' % k, pa), cpath('v%d' % k, pa))
                          for j, (pa, _, _) in enumerate(ob)]
                else:
                    post += ['%s = o%d[%d];' % (cpath('v%d' % k, pa), k, j) for j, (pa, _, _) in enumerate(ob)]
                    post.append('%s = v%d;' % (dot, k))
                b.append('s[%d].p = (unsigned char*)&v%d; s[%d].bytes = sizeof v%d; s[%d].out = %d;' % (k, k, k, k, k, o))
            elif kd in ('buf', 'sbuf'):
                e = '1' if p.type == 'buffer' else 'sizeof(%s)' % self.c_type(p.type)
                b.append('s[%d].p = (unsigned char*)(uintptr_t)a%d; s[%d].len = a%d_len; s[%d].elem = %s; s[%d].bytes = a%d_len * %s; s[%d].out = %d;' % (
                    k, k, k, k, k, e, k, k, e, k, o))
                if o:
                    post.append('*a%d_lenout = s[%d].lenout;' % (k, k))
            else:
                cnt = 1 if kd == 'obj' else p.arr
                b.append('Object o%d[%d]; memset(o%d, 0, sizeof o%d); s[%d].objs = o%d; s[%d].nobj = %d; s[%d].out = %d;' % (
                    k, cnt, k, k, k, k, k, cnt, k, o))
                for j in range(cnt):
                    if cpp:
                        ref = 'a%d' % k if kd == 'obj' else 'a%d[%d]' % (k, j)
                        if o:
                            post.append('%s.ProxyBase::consume(o%d[%d]);' % (ref, k, j))
                        else:
                            b.append('o%d[%d] = %s.ProxyBase::get();' % (k, j, ref))
                    else:
                        if kd == 'obj':
                            ref = '*a%d' % k if o else 'a%d' % k
                        else:
                            ref = '(*a%d)[%d]' % (k, j)
                        if o:
                            post.append('%s = o%d[%d];' % (ref, k, j))
                        else:
                            b.append('o%d[%d] = %s;' % (k, j, ref))
        b.append('int32_t r = host_impl(%s, %d, %s, %d);' % (me, mid, 's' if n else 'NULL', n))
        if post:
            b.append('if (!r || r == 77) {')     # 77: the implementation sets its outputs although it fails
            b += ['    ' + x for x in post]
            b.append('}')
        b.append('return r;')
        return ''.join('    %s\n' % x for x in b)

    def c_skel(self, typed=True, tag='c'):
        """implementations + skeleton instances + constructors, C"""
        out = []
        for k, (y, full) in enumerate(self.skels):
            pre = 'im_%s%d_' % (tag, k)
            out.append('static int32_t %srelease(void *me) { return host_release(me); }' % pre)
            out.append('static int32_t %sretain(void *me) { return host_retain(me); }' % pre)
            for op, ow, m in self.fs.flat_methods(y):
                if m.optional and not full:
                    continue
                ps = ', '.join(['void *me'] + self.c_params(m, typed))
                st = '' if m.optional else 'static '
                fn = '%s%s' % (pre, m.name)
                if m.optional:
                    out.append('int32_t %s(%s);' % (fn, ps))
                out.append('%sint32_t %s(%s)\n{\n    (void)me;\n%s}' % (
                    st, fn, ps, self.c_impl_body(self.mids[ow.name, m.name], m, False, 'me')))
            out.append('static\n%s_DEFINE_INVOKE(sk_%s%d, %s, void*)' % (y.name, tag, k, pre))
            out.append('Object mk_%s%d(void);\nObject mk_%s%d(void) { return (Object){sk_%s%d, host_new(%d)}; }' % (
                tag, k, tag, k, tag, k, k))
        return '\n'.join(out) + '\n'

    def c_stubs(self, typed=True, tag='c'):
        return ''.join(self.c_driver('drv_%s%d' % (tag, k), i, m, False, typed) for k, (i, op, ow, m) in enumerate(self.entries))

    def c_unit(self, stub=True, skel=True, typed=True, tag='c'):
        t = '#include "host.h"\n'
        for f in self.fs.files:
            if stub:
                t += '#include "%s.h"\n' % f.base
        for f in self.fs.files:
            if skel:
                t += '#include "%s_invoke.h"\n' % f.base
        return t + (self.c_stubs(typed, tag) if stub else '') + (self.c_skel(typed, tag) if skel else '')

    # ------------------------------------------------------------ C++
    def cpp_type(self, t):
        return CT.get(t) or ('ProxyBase' if t == 'interface' else t)

    def cpp_params(self, m):
        fs, r = self.fs, []
        for k, p in enumerate(m.params):
            n, kd, o = 'a%d' % k, fs.kind(p), p.dir == 'out'
            t = self.cpp_type(p.type) if p.type != 'buffer' else 'void'
            c = '' if o else 'const '
            if kd == 'prim':
                r.append('%s *%s' % (t, n) if o else '%s %s' % (t, n))
            elif kd in ('small', 'big', 'obj'):
                r.append('%s%s &%s' % (c, t, n))
            elif kd in ('buf', 'sbuf'):
                r += ['%s%s *%s' % (c, t, n), 'size_t %s_len' % n] + (['size_t *%s_lenout' % n] if o else [])
            else:
                r.append('%s%s (&%s)[%d]' % (c, t, n, p.arr))
        return r

    def cpp_unit(self, stub=True, skel=True, tag='cpp'):
        t = '#include "host.h"\n'
        for f in self.fs.files:
            if stub:
                t += '#include "%s.hpp"\n' % f.base
        for f in self.fs.files:
            if skel:
                t += '#include "%s_invoke.hpp"\n' % f.base
        if stub:
            t += ''.join(self.c_driver('drv_%s%d' % (tag, k), i, m, True) for k, (i, op, ow, m) in enumerate(self.entries))
        if skel:
            for k, (y, full) in enumerate(self.skels):
                cn = 'Zimp_%s%d' % (tag, k)
                t += 'class %s : public %sImplBase {\n  public:\n    void *host_;\n' % (cn, y.name)
                t += '    %s() : host_(host_new(%d)) {}\n    ~%s() { host_release(host_); }\n' % (cn, k, cn)
                t += '    static Object mk() { ImplBase *b = new %s; Object o = {ImplBase::invoke, b}; return o; }\n' % cn
                for op, ow, m in self.fs.flat_methods(y):
                    if m.optional and not full:
                        continue
                    t += '    virtual int32_t %s(%s) override {\n%s    }\n' % (
                        m.name, ', '.join(self.cpp_params(m)), self.c_impl_body(self.mids[ow.name, m.name], m, True, 'host_'))
                t += '};\nextern "C" Object mk_%s%d(void);\nObject mk_%s%d(void) { return %s::mk(); }\n' % (tag, k, tag, k, cn)
        return t

    # ------------------------------------------------------------ Rust
    def r_type(self, t):
        if t in RT:
            return RT[t]
        if t == 'interface':
            return 'crate::object::Object'
        if self.fs.is_obj(t):
            return 'crate::interfaces::%s::r#%s' % (t.lower(), t)
        return 'crate::interfaces::%s::r#%s' % (self.fs.file_of(t).stem.lower(), t)

    def r_out_type(self, p):
        t, kd = self.r_type(p.type) if p.type != 'buffer' else 'u8', self.fs.kind(p)
        return {'prim': t, 'small': t, 'big': t, 'obj': 'Option<%s>' % t, 'objarr': '[Option<%s>; %s]' % (t, p.arr)}[kd]

    def r_sig(self, m):
        fs, r, outs = self.fs, [], []
        for k, p in enumerate(m.params):
            n, kd, o = 'a%d' % k, fs.kind(p), p.dir == 'out'
            t = self.r_type(p.type) if p.type != 'buffer' else 'u8'
            if kd in ('buf', 'sbuf'):
                if o:
                    r += ['%s: &mut [%s]' % (n, t), '%s_lenout: &mut usize' % n]
                else:
                    r.append('%s: &[%s]' % (n, t))
            elif o:
                outs.append((k, self.r_out_type(p)))
            elif kd == 'prim':
                r.append('%s: %s' % (n, t))
            elif kd in ('small', 'big'):
                r.append('%s: &%s' % (n, t))
            elif kd == 'obj':
                r.append('%s: Option<&%s>' % (n, t))
            else:
                r.append('%s: &[Option<%s>; %d]' % (n, t, p.arr))
        return r, outs

    def r_driver(self, fn, iface, m):
        fs = self.fs
        pre, args, post, chk = [], [], [], []
        outs = []
        for k, p in enumerate(m.params):
            kd, o = fs.kind(p), p.dir == 'out'
            t = self.r_type(p.type) if p.type != 'buffer' else 'u8'
            if kd in ('buf', 'sbuf'):
                if o:
                    pre.append('let v%d = slice_mut::<%s>((*s.add(%d)).p, (*s.add(%d)).len);' % (k, t, k, k))
                    args += ['v%d' % k, '&mut (*s.add(%d)).lenout' % k]
                else:
                    pre.append('let v%d = slice::<%s>((*s.add(%d)).p, (*s.add(%d)).len);' % (k, t, k, k))
                    args.append('v%d' % k)
            elif not o:
                if kd == 'prim':
                    args.append('((*s.add(%d)).p as *const %s).read_unaligned()' % (k, t))
                elif kd in ('small', 'big'):
                    pre.append('let mut v%d = std::mem::MaybeUninit::<%s>::uninit();' % (k, t))
                    pre.append('std::ptr::copy_nonoverlapping((*s.add(%d)).p, v%d.as_mut_ptr() as *mut u8, std::mem::size_of::<%s>());' % (k, k, t))
                    for j, (pa, _, _) in enumerate(self.objs[p.type]):
                        pre.append('*(std::ptr::addr_of_mut!(%s) as *mut Raw) = *(*s.add(%d)).objs.add(%d);' % (
                            rpath('(*v%d.as_mut_ptr())' % k, pa), k, j))
                    pre.append('let c%d: Vec<u8> = bytes(v%d.as_ptr());' % (k, k))
                    chk.append('if c%d != bytes(v%d.as_ptr()) { host_modified(%d); }' % (k, k, k))
                    args.append('&*v%d.as_ptr()' % k)
                elif kd == 'obj':
                    args.append('(*((*s.add(%d)).objs as *const Option<%s>)).as_ref()' % (k, t))
                else:
                    args.append('&*((*s.add(%d)).objs as *const [Option<%s>; %d])' % (k, t, p.arr))
            else:
                outs.append('w%d' % k)
                if kd == 'prim':
                    post.append('((*s.add(%d)).p as *mut %s).write_unaligned(w%d);' % (k, t, k))
                elif kd in ('small', 'big'):
                    post.append('let mut w%d = std::mem::ManuallyDrop::new(w%d);' % (k, k))
                    for j, (pa, _, _) in enumerate(self.objs[p.type]):
                        q = 'std::ptr::addr_of_mut!(%s) as *mut Raw' % rpath('w%d' % k, pa)
                        post.append('*(*s.add(%d)).objs.add(%d) = *(%s); *(%s) = Raw::NULL;' % (k, j, q, q))
                    post.append('std::ptr::copy_nonoverlapping(&*w%d as *const %s as *const u8, (*s.add(%d)).p, std::mem::size_of::<%s>()); let _ = &mut w%d;' % (k, t, k, t, k))
                else:
                    cnt = 1 if kd == 'obj' else p.arr
                    post.append('let w%d = std::mem::ManuallyDrop::new(w%d);' % (k, k))
                    post.append('std::ptr::copy_nonoverlapping(std::ptr::addr_of!(*w%d) as *const Raw, (*s.add(%d)).objs, %d);' % (k, k, cnt))
        pat = '()' if not outs else outs[0] if len(outs) == 1 else '(%s)' % ', '.join(outs)
        return '''#[no_mangle]
pub unsafe extern "C" fn %s(target: Raw, s: *mut Slot) -> i32 {
    let _ = s;
    let t = std::mem::ManuallyDrop::new(std::mem::transmute::<Raw, %s>(target));
%s    let r = match t.r#%s(%s) {
        Ok(%s) => {
%s            0
        }
        Err(e) => i32::from(crate::object::Error::from(e)),
    };
%s    r
}
''' % (fn, self.r_type(iface.name), ''.join('    %s\n' % x for x in pre), m.name, ', '.join(args), pat,
            ''.join('            %s\n' % x for x in post), ''.join('    %s\n' % x for x in chk))

    def r_impl_body(self, mid, m):
        fs, n = self.fs, len(m.params)
        b, outs, post = [], [], []
        b.append('let mut s: [Slot; %d] = [%s]; let s = s.as_mut_ptr(); let _ = s;' % (n, ', '.join(['Slot::NEW'] * n)))
        for k, p in enumerate(m.params):
            kd, o = fs.kind(p), p.dir == 'out'
            t = self.r_type(p.type) if p.type != 'buffer' else 'u8'
            S = '(*s.add(%d))' % k
            b.append('%s.out = %d;' % (S, o))
            if kd in ('buf', 'sbuf'):
                e = 'std::mem::size_of::<%s>()' % t
                b.append('%s.p = a%d.as_ptr() as *mut u8; %s.len = a%d.len(); %s.elem = %s; %s.bytes = std::mem::size_of_val(a%d);' % (
                    S, k, S, k, S, e, S, k))
                if o:
                    b[-1] = b[-1].replace('.as_ptr() as', '.as_mut_ptr() as')
                    post.append('*a%d_lenout = %s.lenout;' % (k, S))
                continue
            if kd == 'prim':
                if o:
                    b.append('let mut v%d = std::mem::MaybeUninit::<%s>::zeroed(); %s.p = v%d.as_mut_ptr() as *mut u8;' % (k, t, S, k))
                else:
                    b.append('let mut v%d = a%d; %s.p = &mut v%d as *mut %s as *mut u8;' % (k, k, S, k, t))
                b.append('%s.bytes = std::mem::size_of::<%s>();' % (S, t))
            elif kd in ('small', 'big'):
                ob = self.objs[p.type]
                if o:
                    b.append('let mut v%d = std::mem::MaybeUninit::<%s>::zeroed();' % (k, t))
                else:
                    b.append('let mut v%d = std::mem::MaybeUninit::<%s>::uninit(); std::ptr::copy_nonoverlapping(a%d, v%d.as_mut_ptr(), 1);' % (k, t, k, k))
                if ob:
                    b.append('let mut o%d = [Raw::NULL; %d]; %s.objs = o%d.as_mut_ptr(); %s.nobj = %d;' % (k, len(ob), S, k, S, len(ob)))
                for j, (pa, _, _) in enumerate(ob):
                    q = 'std::ptr::addr_of_mut!(%s) as *mut Raw' % rpath('(*v%d.as_mut_ptr())' % k, pa)
                    if o:
                        post.append('*(%s) = o%d[%d];' % (q, k, j))
                    else:
                        b.append('o%d[%d] = *(%s); *(%s) = Raw::NULL;' % (k, j, q, q))
                b.append('%s.p = v%d.as_mut_ptr() as *mut u8; %s.bytes = std::mem::size_of::<%s>();' % (S, k, S, t))
            else:
                cnt = 1 if kd == 'obj' else p.arr
                b.append('let mut o%d = [Raw::NULL; %d]; %s.objs = o%d.as_mut_ptr(); %s.nobj = %d;' % (k, cnt, S, k, S, cnt))
                if not o:
                    if kd == 'obj':
                        b.append('if let Some(x) = a%d { o%d[0] = *(x as *const %s as *const Raw); }' % (k, k, t))
                    else:
                        b.append('std::ptr::copy_nonoverlapping(a%d as *const [Option<%s>; %d] as *const Raw, o%d.as_mut_ptr(), %d);' % (k, t, cnt, k, cnt))
            if o:
                if kd in ('prim', 'small', 'big'):
                    outs.append('v%d.assume_init()' % k)
                elif kd == 'obj':
                    outs.append('std::mem::transmute::<Raw, Option<%s>>(o%d[0])' % (t, k))
                else:
                    outs.append('std::mem::transmute::<[Raw; %d], [Option<%s>; %d]>(o%d)' % (cnt, t, cnt, k))
        res = '()' if not outs else outs[0] if len(outs) == 1 else '(%s)' % ', '.join(outs)
        return '''unsafe {
%s            let r = host_impl(self.0 as *mut _, %d, s, %d);
            if r != 0 { return Err(std::mem::transmute::<i32, crate::object::Error>(r).into()); }
%s            Ok(%s)
        }''' % (''.join('            %s\n' % x for x in b), mid, n, ''.join('            %s\n' % x for x in post), res)

    R_HEAD = '''#![allow(unused_unsafe, unused_parens, unused_mut, dead_code, non_camel_case_types, non_snake_case, non_upper_case_globals, unused_variables, clippy::all, invalid_value)]
#[repr(C)] #[derive(Clone, Copy)]
pub struct Raw { pub invoke: *const (), pub context: std::mem::MaybeUninit<*mut ()> }
impl Raw { pub const NULL: Raw = Raw { invoke: std::ptr::null(), context: std::mem::MaybeUninit::new(std::ptr::null_mut()) }; pub unsafe fn ctx(&self) -> usize { self.context.assume_init() as usize } }
#[repr(C)]
pub struct Slot { pub p: *mut u8, pub bytes: usize, pub elem: usize, pub len: usize, pub lenout: usize, pub objs: *mut Raw, pub nobj: usize, pub out: i32 }
impl Slot { pub const NEW: Slot = Slot { p: std::ptr::null_mut(), bytes: 0, elem: 0, len: 0, lenout: 0, objs: std::ptr::null_mut(), nobj: 0, out: 0 }; }
extern "C" {
    fn host_impl(me: *mut u8, mid: i32, s: *mut Slot, n: i32) -> i32;
    fn host_modified(idx: i32);
    fn host_new(skel: i32) -> *mut u8;
    fn host_release(me: *mut u8) -> i32;
}
unsafe fn slice<'a, T>(p: *const u8, n: usize) -> &'a [T] { if n == 0 { &[] } else { std::slice::from_raw_parts(p.cast(), n) } }
unsafe fn slice_mut<'a, T>(p: *mut u8, n: usize) -> &'a mut [T] { if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(p.cast(), n) } }
unsafe fn bytes<T>(p: *const T) -> Vec<u8> { std::slice::from_raw_parts(p as *const u8, std::mem::size_of::<T>()).to_vec() }
'''

    def r_unit(self, tag='rust'):
        t = self.R_HEAD
        t += ''.join(self.r_driver('drv_%s%d' % (tag, k), i, m) for k, (i, op, ow, m) in enumerate(self.entries))
        for k, (y, full) in enumerate(self.skels):
            cn = 'Zimp_%s%d' % (tag, k)
            t += 'struct %s(usize);\nimpl Drop for %s { fn drop(&mut self) { unsafe { host_release(self.0 as *mut u8); } } }\n' % (cn, cn)
            for i in self.fs.chain(y):
                md = 'crate::interfaces::%s' % i.name.lower()
                t += 'impl %s::I%s for %s {\n' % (md, i.name, cn)
                for m in i.methods:
                    if m.optional and not full:
                        continue
                    ps, outs = self.r_sig(m)
                    rt = '()' if not outs else outs[0][1] if len(outs) == 1 else '(%s)' % ', '.join(x for _, x in outs)
                    t += '    fn r#%s(%s) -> Result<%s, %s::Error> {\n        %s\n    }\n' % (
                        m.name, ', '.join(['&mut self'] + ps), rt, md, self.r_impl_body(self.mids[i.name, m.name], m))
                t += '}\n'
            t += '''#[no_mangle]
pub unsafe extern "C" fn mk_%s%d() -> Raw {
    std::mem::transmute(%s::from(%s(host_new(%d) as usize)))
}
''' % (tag, k, self.r_type(y.name), cn, k)
        return t

    def r_lib(self, rsdir):
        """crate root; rsdir: directory with the generated modules"""
        t = '#![crate_type = "staticlib"]\n'
        from common import RUNTIME_RS
        t += '#[allow(warnings)]\n#[path = "%s/mod.rs"]\npub mod object;\n' % RUNTIME_RS
        t += '#[allow(unused, nonstandard_style)]\npub mod interfaces {\n'
        for f in sorted(os.listdir(rsdir)):
            t += '    #[path = "%s"]\n    pub mod r#%s;\n' % (os.path.join(rsdir, f), f[:-3])
        return t + '}\n#[allow(warnings)]\n#[path = "glue.rs"]\nmod glue;\n'

    # ------------------------------------------------------------ tables
    def tables(self, stubs, skels):
        """stubs/skels: lists of tags"""
        t = '#include "host.h"\n'
        for s in stubs:
            t += ''.join('int32_t drv_%s%d(Object, Slot*);\n' % (s, k) for k in range(len(self.entries)))
        for s in skels:
            t += ''.join('Object mk_%s%d(void);\n' % (s, k) for k in range(len(self.skels)))
        n, m = max(1, len(self.entries)), max(1, len(self.skels))
        t += 'int32_t (*const drv_table[%d][%d])(Object, Slot*) = {%s};\n' % (len(stubs), n, ','.join(
            '{%s}' % (','.join('drv_%s%d' % (s, k) for k in range(len(self.entries))) or '0') for s in stubs))
        t += 'Object (*const mk_table[%d][%d])(void) = {%s};\n' % (len(skels), m, ','.join(
            '{%s}' % (','.join('mk_%s%d' % (s, k) for k in range(len(self.skels))) or '0') for s in skels))
        t += 'const int n_entries = %d, n_skels = %d;\n' % (n, m)
        t += 'int32_t drv_call(int be, int k, Object o, Slot *s) { return drv_table[be][k](o, s); }\n'
        t += 'Object mk_call(int be, int k) { return mk_table[be][k](); }\n'
        return t
