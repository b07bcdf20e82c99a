import java.io.*;
import java.lang.reflect.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.CompletableFuture;

/** Performs operations in compiled generated Java: one JSON object per line in, one per line out. The first line is the list of schema descriptions. */
public class Driver {
    static final Map<String, Map<String, Object>> DATA = new HashMap<>(), ENUM = new HashMap<>(), SERVER = new HashMap<>();

    static class Odd extends RuntimeException {
        Odd(String s) { super(s); }
    }

    // --- JSON ---
    static class Parser {
        final String s;
        int p = 0;
        Parser(String s) { this.s = s; }
        void ws() { while (p < s.length() && " \t\r\n".indexOf(s.charAt(p)) >= 0) p++; }
        Object value() {
            ws();
            char c = s.charAt(p);
            if (c == '{') {
                Map<String, Object> m = new LinkedHashMap<>();
                p++; ws();
                while (s.charAt(p) != '}') {
                    String k = (String) value();
                    ws(); p++;
                    m.put(k, value());
                    ws();
                    if (s.charAt(p) == ',') { p++; ws(); }
                }
                p++;
                return m;
            }
            if (c == '[') {
                List<Object> l = new ArrayList<>();
                p++; ws();
                while (s.charAt(p) != ']') {
                    l.add(value());
                    ws();
                    if (s.charAt(p) == ',') { p++; ws(); }
                }
                p++;
                return l;
            }
            if (c == '"') {
                StringBuilder b = new StringBuilder();
                p++;
                while ((c = s.charAt(p++)) != '"') {
                    if (c != '\\') { b.append(c); continue; }
                    c = s.charAt(p++);
                    switch (c) {
                    case 'n': b.append('\n'); break;
                    case 't': b.append('\t'); break;
                    case 'r': b.append('\r'); break;
                    case 'b': b.append('\b'); break;
                    case 'f': b.append('\f'); break;
                    case 'u': b.append((char) Integer.parseInt(s.substring(p, p + 4), 16)); p += 4; break;
                    default: b.append(c);
                    }
                }
                return b.toString();
            }
            int a = p;
            while (p < s.length() && ",]} \t".indexOf(s.charAt(p)) < 0) p++;
            String t = s.substring(a, p);
            if (t.equals("null")) return null;
            if (t.equals("true") || t.equals("false")) return Boolean.valueOf(t);
            return Long.valueOf(t);
        }
    }

    static void write(StringBuilder b, Object o) {
        if (o == null || o instanceof Boolean || o instanceof Integer || o instanceof Long) { b.append(o); return; }
        if (o instanceof Map) {
            b.append('{');
            String sep = "";
            for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) { b.append(sep); write(b, String.valueOf(e.getKey())); b.append(':'); write(b, e.getValue()); sep = ","; }
            b.append('}');
            return;
        }
        if (o instanceof Iterable) {
            b.append('[');
            String sep = "";
            for (Object e : (Iterable<?>) o) { b.append(sep); write(b, e); sep = ","; }
            b.append(']');
            return;
        }
        b.append('"');
        for (char c : String.valueOf(o).toCharArray()) {
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        b.append('"');
    }

    @SuppressWarnings("unchecked")
    static Map<String, Object> m(Object o) { return (Map<String, Object>) o; }
    @SuppressWarnings("unchecked")
    static List<Object> l(Object o) { return (List<Object>) o; }
    static String s(Object o) { return (String) o; }

    static Class<?> cls(String n) {
        try { return Class.forName(n); } catch (ClassNotFoundException e) { throw new Odd("no class " + n); }
    }

    // --- values ---
    static Object ref(Map<String, Object> t, Object v) throws Exception {
        if (v == null) return null;
        switch (s(t.get("k"))) {
        case "enum": return enumOf(s(t.get("n")), Integer.parseInt(s(v)));
        case "data": return data(s(t.get("n")), m(v));
        case "int8": return Byte.valueOf(s(v));
        case "int16": return Short.valueOf(s(v));
        case "int32": case "uint16": return Integer.valueOf(s(v));
        case "int64": case "uint32": return Long.valueOf(s(v));
        case "uint8": return Character.valueOf((char) Integer.parseInt(s(v)));
        case "uint64": return new BigInteger(s(v));
        case "bool": return v;
        case "string": return v;
        case "float": return Float.valueOf(s(v));
        case "double": return Double.valueOf(s(v));
        case "date": return new Date(Long.parseLong(s(v)));
        case "decimal": return new BigDecimal(s(v));
        }
        throw new Odd("kind " + t.get("k"));
    }

    static Object key(Map<String, Object> t, String v) throws Exception {
        if (s(t.get("k")).equals("bool")) return Boolean.valueOf(v);
        return ref(t, v);
    }

    static Object val(Map<String, Object> t, Object v) throws Exception {
        if (v == null) return null;
        if (s(t.get("c")).equals("list")) {
            List<Object> r = new ArrayList<>();
            for (Object e : l(v)) r.add(ref(t, e));
            return r;
        }
        if (s(t.get("c")).equals("map")) {
            Map<Object, Object> r = new LinkedHashMap<>();
            for (Object e : l(v)) r.put(key(m(t.get("key")), s(l(e).get(0))), ref(t, l(e).get(1)));
            return r;
        }
        return ref(t, v);
    }

    static Object enumOf(String n, int v) throws Exception {
        return cls(s(ENUM.get(n).get("cls"))).getMethod("valueOf", int.class).invoke(null, v);
    }

    static Method setter(Class<?> c, Map<String, Object> f) {
        for (Method x : c.getMethods()) if (x.getName().equals("set" + f.get("java")) && x.getParameterCount() == 1 && !x.isBridge()) return x;
        throw new Odd("no setter for " + f.get("java") + " in " + c.getName());
    }

    static Method getter(Class<?> c, Map<String, Object> f) {
        for (Method x : c.getMethods()) if (x.getName().equals("get" + f.get("java")) && x.getParameterCount() == 0 && !x.isBridge()) return x;
        throw new Odd("no getter for " + f.get("java") + " in " + c.getName());
    }

    static Object data(String n, Map<String, Object> v) throws Exception {
        Map<String, Object> d = DATA.get(n);
        Class<?> c = cls(s(d.get("cls")) + "Impl");
        Object o = c.getConstructor().newInstance();
        for (Object f : l(d.get("fields"))) setter(c, m(f)).invoke(o, val(m(m(f).get("t")), v.get(m(f).get("name"))));
        return o;
    }

    static Object odd(String why, Object x) {
        Map<String, Object> r = new LinkedHashMap<>();
        r.put("?", why + ": " + (x == null ? "null" : x.getClass().getName() + " " + x));
        return r;
    }

    static Object num(Object o) throws Exception {
        Field f = o.getClass().getDeclaredField("value");
        f.setAccessible(true);
        return f.get(o);
    }

    static Object unref(Map<String, Object> t, Object x) throws Exception {
        if (x == null) return null;
        Class<?> want;
        switch (s(t.get("k"))) {
        case "enum":
            if (!x.getClass().getName().equals(s(ENUM.get(s(t.get("n"))).get("cls")))) return odd("not of the enum", x);
            return String.valueOf(num(x));
        case "data": return undata(s(t.get("n")), x);
        case "int8": want = Byte.class; break;
        case "int16": want = Short.class; break;
        case "int32": case "uint16": want = Integer.class; break;
        case "int64": case "uint32": want = Long.class; break;
        case "uint8": return x instanceof Character ? String.valueOf((int) (Character) x) : odd("not a char", x);
        case "uint64": want = BigInteger.class; break;
        case "bool": return x instanceof Boolean ? x : odd("not a boolean", x);
        case "string": return x instanceof String ? x : odd("not a string", x);
        case "float": want = Float.class; break;
        case "double": want = Double.class; break;
        case "date": return x instanceof Date ? String.valueOf(((Date) x).getTime()) : odd("not a date", x);
        default: return x instanceof BigDecimal ? ((BigDecimal) x).toPlainString() : odd("not a decimal", x);
        }
        return want.isInstance(x) ? String.valueOf(x) : odd("not a " + want.getSimpleName(), x);
    }

    static Object unval(Map<String, Object> t, Object x) throws Exception {
        if (x == null) return null;
        if (s(t.get("c")).equals("list")) {
            if (!(x instanceof List)) return odd("not a list", x);
            List<Object> r = new ArrayList<>();
            for (Object e : (List<?>) x) r.add(unref(t, e));
            return r;
        }
        if (s(t.get("c")).equals("map")) {
            if (!(x instanceof Map)) return odd("not a map", x);
            List<Object> r = new ArrayList<>();
            for (Map.Entry<?, ?> e : ((Map<?, ?>) x).entrySet()) {
                Map<String, Object> kt = m(t.get("key"));
                Object k = unref(kt, e.getKey());
                r.add(Arrays.asList(k instanceof Boolean ? String.valueOf(k) : k, unref(t, e.getValue())));
            }
            return r;
        }
        return unref(t, x);
    }

    static Object undata(String n, Object x) throws Exception {
        Map<String, Object> d = DATA.get(n);
        Class<?> c = cls(s(d.get("cls")));
        if (!c.isInstance(x)) return odd("not a " + n, x);
        Map<String, Object> r = new LinkedHashMap<>();
        for (Object f : l(d.get("fields"))) r.put(s(m(f).get("name")), unval(m(m(f).get("t")), getter(x.getClass(), m(f)).invoke(x)));
        return r;
    }

    // spoil changes everything that can be changed in x.
    @SuppressWarnings("unchecked")
    static int spoil(Map<String, Object> t, Object x) throws Exception {
        if (x == null) return 0;
        int n = 0;
        if (x instanceof List) {
            for (Object e : (List<?>) x) n += spoil(t, e);
            ((List<Object>) x).add(null);
            Collections.reverse((List<Object>) x);
            return n + 1;
        }
        if (x instanceof Map) {
            for (Object e : ((Map<?, ?>) x).values()) n += spoil(t, e);
            ((Map<Object, Object>) x).clear();
            return n + 1;
        }
        if (x instanceof Date) { ((Date) x).setTime(((Date) x).getTime() + 12345); return 1; }
        if (s(t.get("k")).equals("data")) return spoilData(s(t.get("n")), x);
        return 0;
    }

    static int spoilData(String n, Object x) throws Exception {
        int c = 1;
        for (Object f : l(DATA.get(n).get("fields"))) {
            c += spoil(m(m(f).get("t")), getter(x.getClass(), m(f)).invoke(x));
            setter(x.getClass(), m(f)).invoke(x, new Object[] { null });
        }
        return c;
    }

    // --- operations ---
    static Map<String, Object> inventory(Class<?> c) {
        Map<String, Object> r = new LinkedHashMap<>();
        List<String> own = new ArrayList<>(), all = new ArrayList<>(), up = new ArrayList<>();
        for (Method x : c.getDeclaredMethods()) if (!x.isSynthetic()) own.add(x.getName() + "/" + x.getParameterCount());
        for (Method x : c.getMethods()) if (!x.isBridge() && x.getDeclaringClass() != Object.class) all.add(x.getName() + "/" + x.getParameterCount());
        for (Class<?> x : c.getInterfaces()) up.add(x.getName());
        Collections.sort(own); Collections.sort(all); Collections.sort(up);
        r.put("own", own); r.put("all", new ArrayList<>(new TreeSet<>(all))); r.put("up", up);
        r.put("iface", c.isInterface());
        return r;
    }

    static Object perform(Map<String, Object> o) throws Exception {
        Map<String, Object> r = new LinkedHashMap<>();
        String t = s(o.get("t"));
        switch (s(o.get("op"))) {
        case "data": {
            String c = s(DATA.get(t).get("cls"));
            r.put("iface", inventory(cls(c)));
            r.put("impl", inventory(cls(c + "Impl")));
            break;
        }
        case "server": {
            String c = s(SERVER.get(t).get("cls"));
            r.put("iface", inventory(cls(c)));
            r.put("client", inventory(cls(c + "Client")));
            break;
        }
        case "values": {
            Object x = data(t, m(o.get("v")));
            r.put("same", undata(t, x));
            break;
        }
        case "copy": {
            Object x = data(t, m(o.get("v")));
            Object c = x.getClass().getMethod("copy").invoke(x);
            r.put("own", c != x);
            r.put("cls", c.getClass().getName());
            r.put("copy", undata(t, c));
            r.put("changes", spoilData(t, c));
            r.put("orig", undata(t, x));
            x = data(t, m(o.get("v")));
            c = x.getClass().getMethod("copy").invoke(x);
            spoilData(t, x);
            r.put("kept", undata(t, c));
            x = data(t, m(o.get("w")));
            for (Object f : l(DATA.get(t).get("fields"))) setter(x.getClass(), m(f)).invoke(x, val(m(m(f).get("t")), m(o.get("v")).get(m(f).get("name"))));
            r.put("reset", undata(t, x));
            break;
        }
        case "enum": {
            Class<?> c = cls(s(ENUM.get(t).get("cls")));
            Map<String, Object> consts = new LinkedHashMap<>();
            List<Object> list = new ArrayList<>(), vals = new ArrayList<>(), names = new ArrayList<>(), texts = new ArrayList<>();
            List<Object> insts = new ArrayList<>();
            for (Field f : c.getDeclaredFields()) {
                f.setAccessible(true);
                if (Modifier.isStatic(f.getModifiers()) && f.getType() == c) consts.put(f.getName(), Arrays.asList(num(f.get(null)), name(f.get(null))));
                if (Modifier.isStatic(f.getModifiers()) && f.getType().isArray()) for (Object x : (Object[]) f.get(null)) { insts.add(x); list.add(Arrays.asList(num(x), name(x))); texts.add(x.toString()); }
            }
            for (Object n : l(o.get("nums"))) vals.add(look(c, insts, "valueOf", int.class, (int) (long) (Long) n));
            for (Object n : l(o.get("texts"))) names.add(look(c, insts, "nameOf", String.class, new String(s(n))));
            boolean eq = true;
            for (Object a : insts) for (Object b : insts) if (a.equals(b) != (a == b) || a.equals(b) && a.hashCode() != b.hashCode()) eq = false;
            for (Object a : insts) if (a.equals(null) || a.equals("x")) eq = false;
            r.put("consts", consts); r.put("list", list); r.put("values", vals); r.put("names", names); r.put("texts", texts); r.put("eq", eq);
            break;
        }
        case "routes": {
            Map<String, Object> sv = SERVER.get(t);
            List<Object> log = new ArrayList<>();
            com.hbuf.java.Server.Client cl = new com.hbuf.java.Server.Client() {
                public <T> CompletableFuture<T> invoke(String serverName, long serverId, String name, long id, com.hbuf.java.Data param, com.hbuf.java.Server.Decode<T> json, com.hbuf.java.Server.Decode<T> dt) throws Exception {
                    Map<String, Object> e = new LinkedHashMap<>();
                    e.put("server", serverName); e.put("serverId", serverId); e.put("name", name); e.put("id", id);
                    e.put("param", System.identityHashCode(param));
                    T v = json == null ? null : json.invoke("{}".getBytes());
                    e.put("json", v == null ? null : v.getClass().getName());
                    T w = dt == null ? null : dt.invoke(new byte[0]);
                    log.add(e);
                    return CompletableFuture.completedFuture(v);
                }
            };
            Class<?> c = cls(s(sv.get("cls")) + "Client");
            Object x = c.getConstructor(com.hbuf.java.Server.Client.class).newInstance(cl);
            r.put("client", ((com.hbuf.java.Server.ClientRouter) x).getName());
            Map<String, Object> sent = new LinkedHashMap<>();
            for (Object mm : l(sv.get("methods"))) {
                Map<String, Object> d = m(mm);
                Method f = null;
                for (Method y : c.getMethods()) if (y.getName().equals(d.get("java")) && !y.isBridge() && y.getParameterCount() == 2) f = y;
                if (f == null) throw new Odd("no method " + d.get("java"));
                Object p = data(s(d.get("param")), new HashMap<>());
                int at = log.size();
                Object ret = ((CompletableFuture<?>) f.invoke(x, p, null)).get();
                List<Object> es = new ArrayList<>(log.subList(at, log.size()));
                for (Object e : es) m(e).put("param", m(e).get("param").equals(System.identityHashCode(p)));
                Map<String, Object> one = new LinkedHashMap<>();
                one.put("sent", es);
                one.put("ret", ret == null ? null : ret.getClass().getName());
                sent.put(s(d.get("name")), one);
            }
            r.put("sent", sent);
            break;
        }
        default: throw new Odd("operation " + o.get("op"));
        }
        return r;
    }

    static Object name(Object o) throws Exception {
        Field f = o.getClass().getDeclaredField("name");
        f.setAccessible(true);
        return f.get(o);
    }

    static Object look(Class<?> c, List<Object> insts, String f, Class<?> p, Object x) throws Exception {
        Map<String, Object> r = new LinkedHashMap<>();
        try {
            Object v = c.getMethod(f, p).invoke(null, x);
            if (v == null) { r.put("none", "null"); return r; }
            boolean same = false;
            for (Object i : insts) if (i == v) same = true;
            r.put("value", num(v)); r.put("name", name(v)); r.put("same", same);
        } catch (InvocationTargetException e) {
            r.put("none", String.valueOf(e.getCause().getMessage()));
        }
        return r;
    }

    public static void main(String[] a) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), true, "UTF-8");
        for (Object x : l(new Parser(in.readLine()).value())) {
            for (Object d : l(m(x).get("data"))) DATA.put(s(m(d).get("n")), m(d));
            for (Object d : l(m(x).get("enums"))) ENUM.put(s(m(d).get("n")), m(d));
            for (Object d : l(m(x).get("servers"))) SERVER.put(s(m(d).get("n")), m(d));
        }
        String line;
        while ((line = in.readLine()) != null) {
            Object r;
            try {
                r = perform(m(new Parser(line).value()));
            } catch (Odd e) {
                r = Collections.singletonMap("misfit", e.getMessage());
            } catch (Throwable e) {
                Throwable c = e instanceof InvocationTargetException ? e.getCause() : e;
                StringWriter w = new StringWriter();
                c.printStackTrace(new PrintWriter(w));
                Map<String, Object> q = new LinkedHashMap<>();
                q.put("panic", String.valueOf(c));
                q.put("stack", w.toString());
                r = q;
            }
            StringBuilder b = new StringBuilder();
            write(b, r);
            out.println(b);
        }
    }
}
