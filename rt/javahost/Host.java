import com.qualcomm.qti.qms.api.mink.IMinkObject;
import java.io.*;
import java.lang.reflect.Array;
import java.lang.reflect.Constructor;
import java.lang.reflect.Field;
import java.lang.reflect.InvocationHandler;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.lang.reflect.Modifier;
import java.lang.reflect.Proxy;
import java.net.URL;
import java.net.URLClassLoader;
import java.nio.*;
import java.nio.file.*;
import java.util.*;
import javax.tools.*;

/** Compiles generated Java in-process and drives proxies and skeletons by reflection; one command per line on stdin. */
public class Host {
    static final String PKG = "com.qualcomm.qti.mink.";
    static PrintStream out;
    static ClassLoader loader;
    static StringTokenizer tk;

    static class Obj implements IMinkObject {
        final int id;
        Obj(int i) { id = i; }
        public void invoke(int m, byte[][] bi, int[] s, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) { out.println("OTHER " + id); }
        public void retain() { refs[id]++; }
        public void release() { refs[id]--; }
        public boolean isNull() { return false; }
    }
    static final Obj[] pool = new Obj[64];
    static final int[] refs = new int[64];

    static String next() { return tk.nextToken(); }
    static int num() { return Integer.parseInt(next()); }
    static byte[] hex(String s) {
        if (s.equals("-")) return new byte[0];
        byte[] r = new byte[s.length() / 2];
        for (int i = 0; i < r.length; i++) r[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return r;
    }
    static String hex(byte[] b) {
        if (b == null) return "null";
        if (b.length == 0) return "-";
        StringBuilder s = new StringBuilder();
        for (byte x : b) s.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16));
        return s.toString();
    }
    static IMinkObject obj(int id) { return id < 0 ? null : pool[id]; }
    static String oid(Object o) { return o == null ? "-1" : o instanceof Obj ? "" + ((Obj) o).id : "?" + o.getClass().getName(); }

    // ---- values <-> little-endian images, driven by the declared Java types
    static Object get(Class<?> t, ByteBuffer b) throws Exception {
        if (t == byte.class) return b.get();
        if (t == char.class) return b.getChar();
        if (t == short.class) return b.getShort();
        if (t == int.class) return b.getInt();
        if (t == long.class) return b.getLong();
        if (t == float.class) return b.getFloat();
        if (t == double.class) return b.getDouble();
        Constructor<?> c = t.getDeclaredConstructor();
        c.setAccessible(true);
        Object o = c.newInstance();
        fill(o, b);
        return o;
    }
    static List<Field> fields(Class<?> t) {
        List<Field> r = new ArrayList<>();
        for (Field f : t.getDeclaredFields()) if (!f.isSynthetic() && !Modifier.isStatic(f.getModifiers())) { f.setAccessible(true); r.add(f); }
        return r;
    }
    static void fill(Object o, ByteBuffer b) throws Exception {
        for (Field f : fields(o.getClass())) {
            Class<?> t = f.getType();
            if (t.isArray()) {
                Object a = f.get(o);
                for (int i = 0; i < Array.getLength(a); i++) Array.set(a, i, get(t.getComponentType(), b));
            } else f.set(o, get(t, b));
        }
    }
    static void put(Object v, Class<?> t, ByteArrayOutputStream s) throws Exception {
        ByteBuffer b = ByteBuffer.allocate(8).order(ByteOrder.LITTLE_ENDIAN);
        if (t == byte.class) b.put((Byte) v);
        else if (t == char.class) b.putChar((Character) v);
        else if (t == short.class) b.putShort((Short) v);
        else if (t == int.class) b.putInt((Integer) v);
        else if (t == long.class) b.putLong((Long) v);
        else if (t == float.class) b.putFloat((Float) v);
        else if (t == double.class) b.putDouble((Double) v);
        else {
            if (v == null) { s.write('N'); return; }
            for (Field f : fields(t)) {
                Class<?> ft = f.getType();
                if (ft.isArray()) {
                    Object a = f.get(v);
                    for (int i = 0; i < Array.getLength(a); i++) put(Array.get(a, i), ft.getComponentType(), s);
                } else put(f.get(v), ft, s);
            }
            return;
        }
        s.write(b.array(), 0, b.position());
    }
    static Object array(Class<?> ct, byte[] d) throws Exception {
        ByteBuffer b = ByteBuffer.wrap(d).order(ByteOrder.LITTLE_ENDIAN);
        List<Object> l = new ArrayList<>();
        while (b.remaining() > 0) l.add(get(ct, b));
        Object a = Array.newInstance(ct, l.size());
        for (int i = 0; i < l.size(); i++) Array.set(a, i, l.get(i));
        return a;
    }
    static String image(Object a) throws Exception {   // array -> "count hex"
        if (a == null) return "-1 null";
        ByteArrayOutputStream s = new ByteArrayOutputStream();
        for (int i = 0; i < Array.getLength(a); i++) put(Array.get(a, i), a.getClass().getComponentType(), s);
        return Array.getLength(a) + " " + hex(s.toByteArray());
    }
    static String ids(Object a) {
        if (a == null) return "null";
        StringBuilder s = new StringBuilder();
        for (int i = 0; i < Array.getLength(a); i++) s.append(i > 0 ? " " : "").append(oid(Array.get(a, i)));
        return s.toString();
    }

    /** one argument of a scripted call */
    static class Arg {
        boolean o; char kind; byte[] data; int len; int[] objs;
        static Arg read() {
            Arg a = new Arg();
            a.o = num() == 1;
            a.kind = next().charAt(0);       // v value, b buffer, o object, O object array
            a.data = hex(next());
            a.len = num();
            a.objs = new int[num()];
            for (int i = 0; i < a.objs.length; i++) a.objs[i] = num();
            return a;
        }
    }
    static Arg[] args() {
        Arg[] r = new Arg[num()];
        for (int i = 0; i < r.length; i++) r[i] = Arg.read();
        return r;
    }
    static IMinkObject[] objs(int[] id) {
        IMinkObject[] r = new IMinkObject[id.length];
        for (int i = 0; i < r.length; i++) r[i] = obj(id[i]);
        return r;
    }
    static Method find(Class<?> c, String name) throws Exception {
        Method m = null;
        for (Method x : c.getMethods()) if (x.getName().equals(name) && !x.isBridge() && !x.isSynthetic()) { if (m == null || m.getDeclaringClass().isInterface()) m = x; }
        if (m == null) throw new Exception("no method " + name);
        return m;
    }
    static Class<?> cls(String n) throws Exception { return Class.forName(PKG + n, true, loader); }

    // ---- implementation behind a skeleton: scripted by `script`
    static Arg[] script; static int status; static int entered; static Set<String> missing = new HashSet<>();
    static Object impl(Class<?> itf) {
        return Proxy.newProxyInstance(loader, new Class<?>[] { itf }, (self, m, a) -> {
            if (m.getName().equals("hashCode") && m.getParameterCount() == 0) return System.identityHashCode(self);
            if (m.isDefault() && missing.contains(m.getName())) return InvocationHandler.invokeDefault(self, m, a);
            entered++;
            out.println("I " + m.getName());
            if (a == null) a = new Object[0];
            int k = 0;
            for (int i = 0; i < script.length; i++) {
                Arg g = script[i];
                if (!g.o) {
                    Object v = a[k++];
                    if (g.kind == 'v') {
                        Object box = Array.newInstance(m.getParameterTypes()[k - 1], 1);
                        Array.set(box, 0, v);
                        out.println("i " + i + " " + image(box));
                    } else if (g.kind == 'b') out.println("i " + i + " " + image(v));
                    else if (g.kind == 'o') out.println("i " + i + " o " + oid(v));
                    else out.println("i " + i + " O " + ids(v));
                } else {
                    Object v = a[k++];
                    if (g.kind == 'b' || g.kind == 'O') out.println("i " + i + " c " + a[k++]);
                    if (status != 0) continue;
                    Class<?> ct = v.getClass().getComponentType();
                    if (g.kind == 'v') Array.set(v, 0, get(ct, ByteBuffer.wrap(g.data).order(ByteOrder.LITTLE_ENDIAN)));
                    else if (g.kind == 'b') Array.set(v, 0, array(ct.getComponentType(), g.data));
                    else if (g.kind == 'o') Array.set(v, 0, obj(g.objs[0]));
                    else { Object r = Array.get(v, 0); for (int j = 0; j < g.objs.length; j++) Array.set(r, j, obj(g.objs[j])); }
                }
            }
            if (status != 0) throw new IMinkObject.InvokeException(status);
            return null;
        });
    }
    static void logRequest(int op, byte[][] bi, int[] bs, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) {
        out.println("W " + op + " " + (bi == null ? 0 : bi.length) + " " + (bs == null ? 0 : bs.length) + " " + (bo == null ? 0 : bo.length) + " "
            + (oi == null ? 0 : oi.length) + " " + (oo == null ? 0 : oo.length));
        if (bi != null) for (byte[] b : bi) out.println("BI " + hex(b));
        if (bs != null) for (int s : bs) out.println("BO " + s);
        if (oi != null) for (IMinkObject o : oi) out.println("OI " + oid(o));
    }
    static void logReply(byte[][] bo, IMinkObject[] oo) {
        if (bo != null) for (byte[] b : bo) out.println("bo " + hex(b));
        if (oo != null) for (IMinkObject o : oo) out.println("oo " + oid(o));
    }
    static IMinkObject skel(String cn) throws Exception {
        Class<?> itf = cls(cn);
        Constructor<?> c = cls(cn + "$MinkObject").getConstructors()[0];
        return (IMinkObject) c.newInstance(impl(itf));
    }
    static abstract class Target implements IMinkObject {
        public void retain() { out.println("TRETAIN"); }
        public void release() { out.println("TRELEASE"); }
        public boolean isNull() { return false; }
    }
    /** forwards copies of what the envelope describes, and nothing else */
    static Target copying(final IMinkObject k) {
        return new Target() {
            public void invoke(int op, byte[][] bi, int[] bs, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws IMinkObject.InvokeException {
                logRequest(op, bi, bs, bo, oi, oo);
                byte[][] bi2 = bi == null ? null : new byte[bi.length][];
                if (bi != null) for (int i = 0; i < bi.length; i++) bi2[i] = bi[i] == null ? new byte[0] : bi[i].clone();
                byte[][] bo2 = bo == null ? null : new byte[bo.length][];
                IMinkObject[] oo2 = oo == null ? null : new IMinkObject[oo.length];
                try {
                    k.invoke(op, bi2, bs == null ? null : bs.clone(), bo2, oi == null ? null : oi.clone(), oo2);
                    out.println("R 0");
                } catch (IMinkObject.InvokeException e) {
                    out.println("R " + e.code);
                    throw e;
                }
                logReply(bo2, oo2);
                if (bo != null) for (int i = 0; i < bo.length; i++) bo[i] = bo2[i] == null ? null : bo2[i].clone();
                if (oo != null) System.arraycopy(oo2, 0, oo, 0, oo.length);
            }
        };
    }

    static void proxyCall(String pc, String method, Arg[] as, IMinkObject target) throws Exception {
        Class<?> c = cls(pc + "$Proxy");
        Object proxy = c.getConstructor(IMinkObject.class).newInstance(target);
        Method m = find(c, method);
        Class<?>[] ts = m.getParameterTypes();
        Object[] av = new Object[ts.length];
        int k = 0;
        for (Arg g : as) {
            Class<?> t = ts[k];
            if (!g.o) {
                if (g.kind == 'v') av[k] = get(t, ByteBuffer.wrap(g.data).order(ByteOrder.LITTLE_ENDIAN));
                else if (g.kind == 'b') av[k] = array(t.getComponentType(), g.data);
                else if (g.kind == 'o') av[k] = obj(g.objs[0]);
                else av[k] = objs(g.objs);
                k++;
            } else {
                Object b = Array.newInstance(t.getComponentType(), 1);
                if (g.kind == 'v' && !t.getComponentType().isPrimitive()) Array.set(b, 0, get(t.getComponentType(), ByteBuffer.wrap(new byte[g.len]).order(ByteOrder.LITTLE_ENDIAN)));
                if (g.kind == 'O') Array.set(b, 0, new IMinkObject[g.objs.length]);
                av[k++] = b;
                if (g.kind == 'b') av[k++] = g.len;
                else if (g.kind == 'O') av[k++] = g.objs.length;
            }
        }
        int st = 0;
        try {
            m.invoke(proxy, av);
        } catch (InvocationTargetException e) {
            if (!(e.getCause() instanceof IMinkObject.InvokeException)) throw e;
            st = ((IMinkObject.InvokeException) e.getCause()).code;
        }
        out.println("S " + st);
        k = 0;
        for (int i = 0; i < as.length; i++) {
            Arg g = as[i];
            if (!g.o) { 
                Object v = av[k++];
                if (g.kind == 'v') { Object box = Array.newInstance(ts[k - 1], 1); Array.set(box, 0, v); String im = image(box); if (!im.equals("1 " + hex(g.data))) out.println("X " + i); }
                else if (g.kind == 'b') { if (!image(v).endsWith(" " + hex(g.data))) out.println("X " + i); }
                continue;
            }
            Object v = av[k++];
            if (g.kind == 'b' || g.kind == 'O') k++;
            if (st != 0) continue;
            if (g.kind == 'v') out.println("o " + i + " " + image(v));
            else if (g.kind == 'b') out.println("o " + i + " " + image(Array.get(v, 0)));
            else if (g.kind == 'o') out.println("o " + i + " o " + oid(Array.get(v, 0)));
            else out.println("o " + i + " O " + ids(Array.get(v, 0)));
        }
    }
    static byte[][] bufs(int n) { byte[][] r = new byte[n][]; for (int i = 0; i < n; i++) r[i] = hex(next()); return r; }

    static void command(String line) throws Exception {
        tk = new StringTokenizer(line);
        String c = next();
        if (c.equals("compile")) {
            Path src = Paths.get(next()), dst = Paths.get(next());
            boolean werror = num() == 1;
            Files.createDirectories(dst);
            List<File> fs = new ArrayList<>();
            try (DirectoryStream<Path> d = Files.newDirectoryStream(src, "*.java")) { for (Path p : d) fs.add(p.toFile()); }
            JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
            DiagnosticCollector<JavaFileObject> dc = new DiagnosticCollector<>();
            try (StandardJavaFileManager fm = jc.getStandardFileManager(dc, null, java.nio.charset.StandardCharsets.UTF_8)) {
                List<String> o = new ArrayList<>(Arrays.asList("-proc:none", "-encoding", "UTF-8", "-d", dst.toString(), "-cp", System.getProperty("java.class.path")));
                boolean ok = jc.getTask(null, fm, dc, o, null, fm.getJavaFileObjectsFromFiles(fs)).call();
                for (Diagnostic<?> x : dc.getDiagnostics())
                    if (!ok || werror)
                        if (x.getKind() == Diagnostic.Kind.ERROR || x.getKind() == Diagnostic.Kind.WARNING || x.getKind() == Diagnostic.Kind.MANDATORY_WARNING)
                            out.println("DIAG " + x.getKind() + " " + (x.getSource() == null ? "" : Paths.get(((FileObject) x.getSource()).getName()).getFileName()) + ":" + x.getLineNumber() + " " + x.getMessage(null).replace('\n', ' '));
                out.println(ok ? "OK" : "FAIL");
            }
            loader = new URLClassLoader(new URL[] { dst.toUri().toURL() }, Host.class.getClassLoader());
            return;
        }
        if (c.equals("consts")) {                   // every constant of an interface
            for (Field f : cls(next()).getDeclaredFields()) {
                if (f.getType().isPrimitive()) out.println("K " + f.getName() + " " + f.getType() + " " + (f.getType() == char.class ? "" + (int) f.getChar(null) : "" + f.get(null)));
            }
            return;
        }
        Arrays.fill(refs, 0);
        entered = 0;
        missing.clear();
        script = null;
        try {
            if (c.equals("call")) {                 // proxy -> copying transport -> skeleton
                String pc = next(), kc = next(), m = next();
                status = num();
                if (num() == 1) missing.add(m);
                script = args();
                proxyCall(pc, m, script, copying(skel(kc)));
            } else if (c.equals("proxy")) {         // proxy -> scripted reply
                String pc = next(), m = next();
                status = num();
                final byte[][] rbo = bufs(num());
                final int[] roo = new int[num()];
                for (int i = 0; i < roo.length; i++) roo[i] = num();
                script = args();
                proxyCall(pc, m, script, new Target() {
                    public void invoke(int op, byte[][] bi, int[] bs, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws IMinkObject.InvokeException {
                        logRequest(op, bi, bs, bo, oi, oo);
                        if (status != 0) throw new IMinkObject.InvokeException(status);
                        for (int i = 0; i < rbo.length; i++) bo[i] = rbo[i];
                        for (int i = 0; i < roo.length; i++) oo[i] = obj(roo[i]);
                    }
                });
            } else if (c.equals("skel")) {          // reference request -> skeleton, then optionally again
                String kc = next(), m = next();
                IMinkObject k = skel(kc);
                int n = num();
                for (int r = 0; r < n; r++) {
                    int op = num();
                    status = num();
                    missing.clear();
                    if (num() == 1) missing.add(next()); else next();
                    byte[][] bi = bufs(num());
                    int[] bs = new int[num()];
                    for (int i = 0; i < bs.length; i++) bs[i] = num();
                    byte[][] bo = new byte[num()][];
                    int[] oid = new int[num()];
                    for (int i = 0; i < oid.length; i++) oid[i] = num();
                    IMinkObject[] oo = new IMinkObject[num()];
                    boolean nulls = num() == 1;
                    script = args();
                    entered = 0;
                    try {
                        k.invoke(op, nulls && bi.length == 0 ? null : bi, nulls && bs.length == 0 ? null : bs, nulls && bo.length == 0 ? null : bo,
                            nulls && oid.length == 0 ? null : objs(oid), nulls && oo.length == 0 ? null : oo);
                        out.println("R 0");
                        logReply(bo, oo);
                    } catch (IMinkObject.InvokeException e) {
                        out.println("R " + e.code);
                    } catch (RuntimeException e) {
                        StackTraceElement[] st = e.getStackTrace();
                        out.println("THROW " + e + " " + (st.length > 0 ? st[0] : ""));
                    }
                    out.println("Q " + entered);
                }
            }
        } catch (Throwable e) {
            Throwable t = e instanceof InvocationTargetException ? e.getCause() : e;
            StackTraceElement[] st = t.getStackTrace();
            out.println("THROW " + t.toString().replace('\n', ' ') + " " + (st.length > 0 ? st[0] : ""));
        }
        out.println("Q " + entered);
        for (int i = 0; i < refs.length; i++) if (refs[i] != 0) out.println("L " + i + " " + refs[i]);
    }

    public static void main(String[] a) throws Exception {
        for (int i = 0; i < pool.length; i++) pool[i] = new Obj(i);
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "UTF-8"), 1 << 16);
        out = new PrintStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out), 1 << 16), false, "UTF-8");
        String l;
        while ((l = in.readLine()) != null) {
            try {
                command(l);
            } catch (Throwable e) {
                out.println("HOSTFAIL " + e.toString().replace('\n', ' '));
            }
            out.println(".");
            out.flush();
        }
    }
}
