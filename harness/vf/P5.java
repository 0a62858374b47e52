package vf;

import io.netty.buffer.ByteBuf;
import io.netty.buffer.Unpooled;
import java.io.IOException;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.TimeUnit;
import java.util.function.Supplier;
import java.util.stream.Stream;

/** First use of the classes, in any order and from any thread: C23. Text in other environments: TXT. */
final class P5 {
  static final Map<String, byte[]> CLASSES = new HashMap<>();

  static void load(Path classes) throws IOException {
    try (Stream<Path> st = Files.walk(classes)) {
      for (Path p : (Iterable<Path>) st.filter(x -> x.toString().endsWith(".class"))::iterator) {
        String n = classes.relativize(p).toString();
        CLASSES.put(n.substring(0, n.length() - 6).replace('/', '.'), Files.readAllBytes(p));
      }
    }
  }

  /** Loads the code under test anew: nothing of it has been used before. */
  static final class Cold extends ClassLoader {
    Cold() {
      super(P5.class.getClassLoader());
    }

    @Override
    protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
      byte[] b = CLASSES.get(name);
      if (b == null) {
        return super.loadClass(name, resolve);
      }
      synchronized (getClassLoadingLock(name)) {
        Class<?> c = findLoadedClass(name);
        return c != null ? c : defineClass(name, b, 0, b.length);
      }
    }

    static {
      ClassLoader.registerAsParallelCapable();
    }
  }

  /** The few reflective calls needed, on classes of one loader, touching no class before it is used. */
  static final class World {
    final Cold loader = new Cold();
    static final Map<String, Spec.Msg> BY_NAME = new HashMap<>();

    static {
      for (Spec.Msg m : Bridge.spec.all) {
        BY_NAME.put(m.mod.pkg + "." + m.name, m);
      }
    }

    Class<?> cls(String n) {
      try {
        return Class.forName(n, true, loader);
      } catch (ClassNotFoundException e) {
        throw new IllegalStateException(e);
      }
    }

    Object call(Object o, String name, Object... args) {
      return callOn(o.getClass(), o, name, args);
    }

    Object callOn(Class<?> c, Object o, String name, Object... args) {
      for (Method m : c.getMethods()) {
        if (m.getName().equals(name) && m.getParameterCount() == args.length && !m.isBridge()) {
          boolean fits = true;
          for (int i = 0; i < args.length; i++) {
            fits &= args[i] == null || box(m.getParameterTypes()[i]).isInstance(args[i]);
          }
          if (!fits) {
            continue;
          }
          try {
            m.setAccessible(true);
            return m.invoke(o, args);
          } catch (InvocationTargetException e) {
            throw P4.raise(e.getCause());
          } catch (IllegalAccessException e) {
            throw new IllegalStateException(e);
          }
        }
      }
      throw new IllegalStateException("no method " + name + " in " + c);
    }

    static Class<?> box(Class<?> c) {
      return c == int.class ? Integer.class : c == short.class ? Short.class : c == byte.class ? Byte.class : c == long.class
          ? Long.class : c == float.class ? Float.class : c == double.class ? Double.class : c == boolean.class ? Boolean.class : c;
    }

    static String cap(String n) {
      return Character.toUpperCase(n.charAt(0)) + n.substring(1);
    }

    Object fresh(Spec.Msg m) {
      return make(m.mod.pkg + "." + m.name);
    }

    Object make(String n) {
      try {
        return cls(n).getConstructor().newInstance();
      } catch (InvocationTargetException e) {
        throw P4.raise(e.getCause());
      } catch (ReflectiveOperationException e) {
        throw new IllegalStateException(e);
      }
    }

    Object real(Object v) {
      if (v instanceof M) {
        M m = (M) v;
        Object r = fresh(m.t);
        for (Spec.Field f : m.t.fields) {
          call(r, "set" + cap(f.name), real(m.v[f.idx]));
        }
        return r;
      }
      if (v instanceof List) {
        List<Object> l = new ArrayList<>();
        for (Object x : (List<?>) v) {
          l.add(real(x));
        }
        return l;
      }
      return v;
    }

    Object model(Object o) {
      if (o instanceof List) {
        List<Object> l = new ArrayList<>();
        for (Object x : (List<?>) o) {
          l.add(model(x));
        }
        return l;
      }
      Spec.Msg t = o == null ? null : BY_NAME.get(o.getClass().getName());
      if (t == null) {
        return o;
      }
      M m = new M(t);
      for (Spec.Field f : t.fields) {
        m.v[f.idx] = model(call(o, "get" + cap(f.name)));
      }
      return m;
    }

    Object factory(Spec.Msg owner) {
      String base = owner.mod.pkg + "." + owner.name + "$";
      for (String n : CLASSES.keySet()) {
        if (n.startsWith(base) && n.endsWith("MessageFactory")) {
          return callOn(cls(n), null, "getInstance");
        }
      }
      return null;
    }
  }

  static final String[] OPS = {"encode", "decode", "create", "checksum", "hashCode, equals, toString", "SSE codes", "register and decode",
    "unassigned code", "remove or add a checksum service"};
  static final String[] HOW = {"a code of its own", "an assigned code", "remove an assigned code and"};

  static final class Step {
    int op;
    int how;
    Spec.Target t;
    M m;
    M exp;
    byte[] img;
    Object key;
    String algo;
    Spec.Msg other;

    @Override
    public String toString() {
      return OPS[op] + (op == 6 ? " (" + HOW[how] + ")" : op == 8 ? " (" + how + ")" : "") + (algo != null && (op == 3 || op == 8) ? " " + algo : " " + t.msg + (key != null ? " " + key : "")
          + (m != null ? " " + R.val(m, 160) : ""));
    }
  }

  static final class C23 extends Prop {
    C23() {
      super("C23", 6000, 150000, false, "all classes under test loaded anew, then a sequence of first uses (encode, decode, create from a "
          + "registry, checksum look-up, SSE code look-up, registration) in generated order on one thread, or on two to four at once (freely or in a generated interleaving), each "
          + "compared with the reference model; non-trivial: all; distinct by sequence");
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % 3 == 2 ? 1 : 0, i / 3 % OPS.length, i * 31 % Bridge.spec.targets.size()};
    }

    static Step step(Src s, boolean alone) {
      Step p = new Step();
      p.op = s.upto(OPS.length);
      p.t = P1.target(s);
      if ((p.op == 6 || p.op == 8) && !alone) {
        p.op = p.op == 6 ? 1 : 3; // registries are for one thread at a time
      }
      if (p.op == 8) {
        p.t = Bridge.spec.targets.get(0);
        p.algo = s.of(P2.ALGOS);
        p.how = s.upto(3);
        p.img = s.bytes(s.upto(20));
        return p;
      }
      if ((p.op == 2 || p.op >= 6) && p.t.caseIdx < 0) {
        Spec.Msg o = Bridge.spec.unions.get(s.upto(Bridge.spec.unions.size()));
        p.t = new Spec.Target(o, s.upto(o.union.t.keys.size()));
      }
      if (p.op == 5) {
        Spec.Msg o = Bridge.spec.get("sse.SseBinary");
        p.t = new Spec.Target(o, s.upto(o.union.t.keys.size()));
      }
      if (p.t.caseIdx >= 0) {
        p.key = p.t.msg.union.t.keys.get(p.t.caseIdx);
      }
      p.algo = s.of(P2.ALGOS);
      if (p.op == 3) {
        p.img = s.bytes(s.upto(40));
        return p;
      }
      if (p.op == 2 || p.op == 5) {
        return p;
      }
      Gen g = new Gen(s, p.op == 4 ? Gen.Mode.CANON : Gen.Mode.FORMED);
      g.maxList = 3;
      p.m = g.target(p.t);
      if (p.op == 6) {
        // a code of one's own for another type without extension of its own
        Spec.Type u = p.t.msg.union.t;
        do {
          p.other = Bridge.spec.all.get(s.upto(Bridge.spec.all.size()));
        } while (p.other.union != null || u.cases.containsValue(p.other)); // one that has no code yet
        p.how = s.pick(40, 40, 20);
        if (p.how == 0) {
          p.key = P3.unknownKey(s, u, p.t.msg.fields.get(u.otherIdx).t);
        }
        if (p.how == 2) {
          p.other = u.cases.get(p.key);
        }
        p.m.v[u.otherIdx] = p.key;
        p.m.v[p.t.msg.union.idx] = g.msg(p.other, -1);
      }
      if (p.op == 7) {
        Spec.Type u = p.t.msg.union.t;
        p.key = P3.unknownKey(s, u, p.t.msg.fields.get(u.otherIdx).t);
        p.m.v[u.otherIdx] = p.key;
      }
      p.img = Ref.encode(p.m);
      if (p.op < 6) {
        p.exp = Ref.decode(p.t.msg, new Ref.In(p.img, 0, p.img.length));
      }
      return p;
    }

    static final String[] CLASS_OF = {"Crc16", "Crc32", "SseBin", "SzseBin"};

    private static void register(World w, Object f, Spec.Msg t, Object key) {
      Supplier<Object> sup = () -> w.fresh(t);
      if (f.getClass().getName().contains(".sse.")) {
        w.call(f, "register", w.cls(t.mod.pkg + "." + t.name), key, sup);
      } else {
        w.call(f, "register", key, sup);
      }
    }

    static void perform(World w, Step p) {
      switch (p.op) {
        case 0: {
          ByteBuf b = Unpooled.buffer();
          w.call(w.real(p.m), "encode", b);
          byte[] x = Bufs.content(b, 0, b.writerIndex());
          if (!Arrays.equals(x, p.img)) {
            throw new Fail(p + ": " + R.cmp(p.img, x));
          }
          break;
        }
        case 1: {
          Object r = w.fresh(p.t.msg);
          w.call(r, "decode", Unpooled.wrappedBuffer(p.img));
          String d = M.diff(p.t.msg.simple(), p.exp, w.model(r));
          if (d != null) {
            throw new Fail(p + ": " + d);
          }
          break;
        }
        case 2: {
          Object f = w.factory(p.t.msg);
          if (f != null) {
            Object x = w.call(f, "create", p.key);
            Spec.Msg e = p.t.msg.union.t.cases.get(p.key);
            if (x == null || World.BY_NAME.get(x.getClass().getName()) != e) {
              throw new Fail(p + " gives " + x + " instead of a " + e);
            }
          }
          break;
        }
        case 3: {
          Class<?> c = w.cls("com.finproto.codec.ChecksumServiceFactory");
          Object f = w.callOn(c, null, "getInstance");
          Object x = w.call(f, "getChecksumService", p.algo);
          if (x == null) {
            throw new Fail("no service for " + p.algo + " when it is first looked up");
          }
          Object sum = w.call(x, "calc", Unpooled.wrappedBuffer(p.img));
          if (((Number) sum).longValue() != Ref.sum(p.algo, p.img).longValue()) {
            throw new Fail(p.algo + " of " + R.hex(p.img, 60) + " is " + sum + " instead of " + Ref.sum(p.algo, p.img));
          }
          break;
        }
        case 4: {
          Object a = w.real(p.m), b = w.real(p.m.copy());
          if (!a.equals(b) || a.hashCode() != b.hashCode() || a.toString() == null) {
            throw new Fail(p + ": equality of " + a + " and " + b);
          }
          break;
        }
        case 5: {
          Object f = w.factory(p.t.msg);
          Spec.Msg e = p.t.msg.union.t.cases.get(p.key);
          Object code = w.call(f, "getMsgType", w.cls(e.mod.pkg + "." + e.name));
          if (!p.key.equals(code)) {
            throw new Fail("the code of " + e + " is " + code + " instead of " + p.key + " when it is first looked up");
          }
          break;
        }
        case 6: {
          Object f = w.factory(p.t.msg);
          if (f == null) {
            return;
          }
          if (p.how == 2) {
            if (!Boolean.TRUE.equals(w.call(f, "remove", p.key))) {
              throw new Fail(p + ": removing the assigned code reported false");
            }
            for (int i = 0; i < 2; i++) {
              try {
                Object x = i == 0 ? w.call(f, "create", p.key) : w.call(w.fresh(p.t.msg), "decode", Unpooled.wrappedBuffer(p.img));
                throw new Fail(p + ": the code removed is still accepted by " + (i == 0 ? "create, which gives " + x : "decode"));
              } catch (IllegalArgumentException e) {
                // as it should
              }
            }
          }
          register(w, f, p.other, p.key);
          Object r = w.fresh(p.t.msg);
          w.call(r, "decode", Unpooled.wrappedBuffer(p.img));
          M x = (M) w.model(r);
          Object body = x.v[p.t.msg.union.idx];
          if (!(body instanceof M) || ((M) body).t != p.other) {
            throw new Fail(p + ": decoded as " + R.val(body, 200) + " instead of the type registered");
          }
          if (p.how == 0) {
            if (!Boolean.TRUE.equals(w.call(f, "remove", p.key))) {
              throw new Fail(p + ": removing it again reported false");
            }
          } else {
            register(w, f, p.t.msg.union.t.cases.get(p.key), p.key);
          }
          break;
        }
        case 8: {
          Class<?> c = w.cls("com.finproto.codec.ChecksumServiceFactory");
          Object f = w.callOn(c, null, "getInstance");
          String n = "com.finproto.codec." + CLASS_OF[Arrays.asList(P2.ALGOS).indexOf(p.algo)] + "ChecksumService";
          if (p.how == 0) {
            w.call(f, "removeChecksumService", p.algo);
          } else if (p.how == 1) {
            w.call(f, "clearAllChecksumService");
          }
          Object mine = w.make(n);
          if (p.how < 2 && w.call(f, "getChecksumService", p.algo) != null) {
            throw new Fail(p + ": " + p.algo + " is still there after its removal");
          }
          Object done = w.call(f, "registry", mine);
          if (!done.equals(p.how < 2)) {
            throw new Fail(p + ": registering a service for " + p.algo + (p.how < 2 ? " after its removal" : ", which has one,")
                + " reported " + done);
          }
          Object x = w.call(f, "getChecksumService", p.algo);
          if (x == null || (x == mine) != (p.how < 2)) {
            throw new Fail(p + ": the wrong service is found for " + p.algo);
          }
          Object sum = w.call(x, "calc", Unpooled.wrappedBuffer(p.img));
          if (((Number) sum).longValue() != Ref.sum(p.algo, p.img).longValue()) {
            throw new Fail(p + ": " + p.algo + " of " + R.hex(p.img, 60) + " is " + sum + " instead of " + Ref.sum(p.algo, p.img));
          }
          if (p.how == 1) {
            for (int i = 0; i < P2.ALGOS.length; i++) {
              if (!P2.ALGOS[i].equals(p.algo)) {
                if (w.call(f, "getChecksumService", P2.ALGOS[i]) != null) {
                  throw new Fail(p + ": " + P2.ALGOS[i] + " is still there after all were removed");
                }
                w.call(f, "registry", w.make("com.finproto.codec." + CLASS_OF[i] + "ChecksumService"));
              }
            }
          }
          break;
        }
        default: {
          Object r = w.fresh(p.t.msg);
          try {
            w.call(r, "decode", Unpooled.wrappedBuffer(p.img));
          } catch (IllegalArgumentException e) {
            break;
          }
          throw new Fail(p + ": accepted");
        }
      }
    }

    @Override
    void run(Src s, Ctx c) {
      boolean many = s.upto(2) == 1;
      Step first = step(s, !many);
      int n = many ? 2 + s.upto(3) : 1;
      List<List<Step>> plans = new ArrayList<>();
      long h = n;
      for (int i = 0; i < n; i++) {
        List<Step> l = new ArrayList<>();
        int k = 1 + s.upto(many ? 3 : 6);
        for (int j = 0; j < k; j++) {
          l.add(i == 0 && j == 0 ? first : step(s, !many));
          h = h * 31 + l.get(j).toString().hashCode();
        }
        plans.add(l);
        int ii = i;
        c.show(() -> (many ? "thread " + ii + ": " : "") + l);
      }
      for (List<Step> l : plans) {
        c.label("first:" + OPS[l.get(0).op]);
      }
      c.label("threads:" + n);
      World w = new World();
      if (!many) {
        for (Step p : plans.get(0)) {
          go(w, p, "");
          c.checks++;
        }
      } else if (s.pct(40)) {
        c.label("threads in a generated interleaving");
        long seed = s.raw();
        int gap = s.of(new int[] {3, 10, 40, 150, 600});
        c.show(() -> "taking turns every " + gap + " steps or so (" + seed + ")");
        Sched.run(n, seed, gap, i -> {
          for (Step p : plans.get(i)) {
            go(w, p, "thread " + i + ", ");
          }
        });
        c.checks += n;
      } else {
        CyclicBarrier bar = new CyclicBarrier(n);
        CountDownLatch done = new CountDownLatch(n);
        Throwable[] err = new Throwable[n];
        Thread[] ts = new Thread[n];
        for (int i = 0; i < n; i++) {
          int ii = i;
          ts[i] = new Thread(() -> {
            try {
              bar.await(60, TimeUnit.SECONDS);
              for (Step p : plans.get(ii)) {
                go(w, p, "thread " + ii + ", ");
              }
            } catch (Throwable e) {
              err[ii] = e;
            } finally {
              done.countDown();
            }
          });
          ts[i].setDaemon(true);
          ts[i].start();
        }
        try {
          if (!done.await(100, TimeUnit.SECONDS)) {
            StringBuilder b = new StringBuilder("first uses on " + n + " threads do not end:");
            for (Thread t : ts) {
              if (t.isAlive()) {
                b.append(" [").append(t.getState());
                StackTraceElement[] st = t.getStackTrace();
                for (int i = 0; i < st.length && i < 8; i++) {
                  b.append(" at ").append(st[i]);
                }
                b.append("]");
              }
            }
            throw new Fail(b.toString());
          }
        } catch (InterruptedException e) {
          throw new IllegalStateException(e);
        }
        for (Throwable e : err) {
          c.checks++;
          if (e != null) {
            throw e instanceof Fail ? (Fail) e : new Fail(Main.what(e), e);
          }
        }
      }
      c.nontrivial(h);
    }

    private static void go(World w, Step p, String where) {
      try {
        perform(w, p);
      } catch (Fail f) {
        throw new Fail(where + "in fresh classes, " + f.getMessage(), f);
      } catch (Throwable t) {
        throw new Fail(where + "in fresh classes, " + p + ": " + Main.what(t), t);
      }
    }
  }

  /** The textual form of case i, remembered so that runs in different environments can be compared. */
  static final class Txt extends Prop {
    static long[] digests = new long[0];

    Txt() {
      super("TXT", 3000, 3000, false, "");
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i, i % Bridge.spec.targets.size()};
    }

    @Override
    void run(Src s, Ctx c) {
      long i = s.raw();
      Spec.Target t = P1.target(s);
      Gen g = new Gen(s.bulk(), Gen.Mode.FORMED);
      g.noDict = true;
      g.maxList = 5;
      M m = g.target(t);
      noFloats(m); // how floating-point numbers are written differs between versions of the JDK
      c.show(() -> "text of " + R.val(m, 600));
      String x = Bridge.toReal(m, null).toString();
      c.show(() -> x);
      c.checks++;
      digests[(int) i] = R.hash(x.getBytes(java.nio.charset.StandardCharsets.UTF_16BE));
      c.nontrivial(digests[(int) i]);
    }

    private static void noFloats(Object o) {
      if (o instanceof M) {
        M m = (M) o;
        for (int i = 0; i < m.v.length; i++) {
          m.v[i] = m.v[i] instanceof Float ? (Object) 0f : m.v[i] instanceof Double ? (Object) 0d : m.v[i];
          noFloats(m.v[i]);
        }
      } else if (o instanceof List) {
        @SuppressWarnings("unchecked")
        List<Object> l = (List<Object>) o;
        for (int i = 0; i < l.size(); i++) {
          l.set(i, l.get(i) instanceof Float ? (Object) 0f : l.get(i) instanceof Double ? (Object) 0d : l.get(i));
          noFloats(l.get(i));
        }
      }
    }
  }
}
