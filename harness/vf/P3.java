package vf;

import com.finproto.codec.BinaryCodec;
import com.finproto.codec.ChecksumService;
import com.finproto.codec.ChecksumServiceFactory;
import com.finproto.sse.bin.messages.SseBinary;
import io.netty.buffer.ByteBuf;
import io.netty.buffer.Unpooled;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.util.AbstractList;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.Future;
import java.util.concurrent.TimeUnit;
import java.util.function.IntConsumer;
import java.util.function.Supplier;

/** Dispatch, registries, value semantics, isolation: C06, C07, C19, C20, C21. */
final class P3 {
  private static final ExecutorService POOL = Executors.newCachedThreadPool(r -> {
    Thread t = new Thread(r);
    t.setDaemon(true);
    return t;
  });

  static void parallel(int n, IntConsumer body) {
    CyclicBarrier bar = new CyclicBarrier(n);
    List<Future<?>> fs = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      int k = i;
      fs.add(POOL.submit(() -> {
        bar.await(60, TimeUnit.SECONDS);
        body.accept(k);
        return null;
      }));
    }
    Throwable err = null;
    for (Future<?> f : fs) {
      try {
        f.get();
      } catch (java.util.concurrent.ExecutionException e) {
        err = e.getCause();
      } catch (InterruptedException e) {
        throw new IllegalStateException(e);
      }
    }
    if (err != null) {
      throw err instanceof Fail ? (Fail) err : new Fail("on a thread: " + Main.what(err), err);
    }
  }

  /** The public registry of a frame or extension-bearing type, through its public methods. */
  static final class Reg {
    final Spec.Msg owner;
    final Object inst;
    final Method create;
    final Method register;
    final Method remove;

    Reg(Spec.Msg owner, Class<?> cls) throws ReflectiveOperationException {
      this.owner = owner;
      inst = cls.getMethod("getInstance").invoke(null);
      Method cr = null, rg = null, rm = null;
      for (Method m : cls.getMethods()) {
        if (m.getName().equals("create") && m.getParameterCount() == 1) cr = m;
        if (m.getName().equals("register")) rg = m;
        if (m.getName().equals("remove") && m.getParameterCount() == 1) rm = m;
      }
      create = cr;
      register = rg;
      remove = rm;
    }

    Object call(Method m, Object... args) {
      try {
        return m.invoke(inst, args);
      } catch (InvocationTargetException e) {
        if (e.getCause() instanceof RuntimeException) {
          throw (RuntimeException) e.getCause();
        }
        throw new Fail(m.getName() + " threw " + e.getCause(), e.getCause());
      } catch (IllegalAccessException e) {
        throw new IllegalStateException(e);
      }
    }

    BinaryCodec create(Object key) {
      return (BinaryCodec) call(create, key);
    }

    void register(Class<?> cls, Object key, Supplier<BinaryCodec> s) {
      if (register.getParameterCount() == 3) {
        call(register, cls, key, s);
      } else {
        call(register, key, s);
      }
    }

    boolean remove(Object key) {
      return (Boolean) call(remove, key);
    }

    void setDefault(Object key) {
      Spec.Msg m = owner.union.t.cases.get(key);
      register(m.acc.cls, key, () -> Bridge.fresh(m));
    }
  }

  static List<Reg> registries() {
    List<Reg> l = new ArrayList<>();
    for (Spec.Msg m : Bridge.spec.unions) {
      for (Class<?> c : m.acc.cls.getClasses()) {
        if (c.getSimpleName().endsWith("MessageFactory")) {
          try {
            l.add(new Reg(m, c));
          } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
          }
        }
      }
    }
    return l;
  }

  /** A key that the protocol does not assign, near ones that it does. */
  private static Object numbered(Spec.Type u, int i) {
    if (u.keyWidth > 0) {
      return u.keyWidth == 2 ? (Object) (short) i : (Object) i;
    }
    int j = i & 0x3FFFF;
    String a = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz+-";
    return "" + a.charAt(j & 63) + a.charAt(j >> 6 & 63) + a.charAt(j >> 12);
  }

  static Object unknownKey(Src s, Spec.Type u, Spec.Type keyField) {
    for (int tries = 0; tries < 40; tries++) {
      Object k;
      if (u.keyWidth == 0) {
        String b = (String) u.keys.get(s.upto(u.keys.size()));
        StringBuilder x = new StringBuilder(b);
        switch (s.upto(8)) {
          case 0: x.setCharAt(s.upto(3), (char) ('0' + s.upto(10))); break;
          case 1: x.setCharAt(s.upto(3), "aAzZ -_xX".charAt(s.upto(9))); break;
          case 2: x.reverse(); break;
          case 3: x.deleteCharAt(0); break;
          case 4: x.setLength(2); break;
          case 5: {
            Spec.Msg o = Bridge.spec.unions.get(s.upto(Bridge.spec.unions.size()));
            Object y = o.union.t.keys.get(s.upto(o.union.t.keys.size()));
            x = new StringBuilder(String.valueOf(y));
            break;
          }
          case 6: x = new StringBuilder(" " + b.substring(1)); break;
          default: x.setLength(0);
        }
        k = Ref.trim(x.length() > 3 ? x.substring(0, 3) : x.toString(), keyField.pad, keyField.left);
      } else {
        long b = ((Number) u.keys.get(s.upto(u.keys.size()))).longValue();
        long v;
        switch (s.upto(8)) {
          case 0: v = b + 1 + s.upto(3); break;
          case 1: v = b - 1 - s.upto(3); break;
          case 2: v = b ^ (1L << s.upto(32)); break;
          case 3: v = -b; break;
          case 4: v = b & (s.pct(50) ? 0xFFFF : 0xFF); break;
          case 5: v = u.keyWidth == 2 ? Short.reverseBytes((short) b) : Integer.reverseBytes((int) b); break;
          case 6: {
            Spec.Msg o = Bridge.spec.frames.get(s.upto(Bridge.spec.frames.size()));
            v = ((Number) o.union.t.keys.get(s.upto(o.union.t.keys.size()))).longValue();
            break;
          }
          default: v = s.pct(70) ? s.raw() : s.of(new int[] {0, -1, Integer.MIN_VALUE, Integer.MAX_VALUE, Short.MIN_VALUE, Short.MAX_VALUE});
        }
        k = u.keyWidth == 2 ? (Object) (short) v : (Object) (int) v;
      }
      if (!u.cases.containsKey(k)) {
        return k;
      }
    }
    return u.keyWidth == 0 ? (Object) "zzz" : u.keyWidth == 2 ? (Object) (short) 12345 : (Object) 987654321;
  }

  /** An image of owner whose selector is key; the rest of the frame follows the given body. */
  static byte[] image(Src s, Spec.Msg owner, Object key, Object body) {
    Gen g = new Gen(s, Gen.Mode.FORMED);
    g.maxList = 5;
    M m = g.msg(owner, -1);
    m.v[owner.union.t.otherIdx] = key;
    m.v[owner.union.idx] = body;
    return Ref.encode(m);
  }

  static final class C06 extends Prop {
    private final List<Reg> regs = registries();
    private final Map<Spec.Msg, Reg> byOwner = new HashMap<>();
    private final List<Spec.Target> cases = new ArrayList<>();

    C06() {
      super("C06", 700000, 5600000, false, "an image of a frame or of a message with extension (owners and assigned codes in "
          + "turn, and unassigned codes near them) decoded twice; the class of body or extension, or the rejection, is "
          + "compared with the protocol's table; non-trivial: all; distinct by owner, code and image");
      for (Reg r : regs) {
        byOwner.put(r.owner, r);
      }
      for (Spec.Target t : Bridge.spec.targets) {
        if (t.caseIdx >= 0) {
          cases.add(t);
        }
      }
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % cases.size(), i / cases.size() % 2};
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t = cases.get(s.upto(cases.size()));
      Spec.Field u = t.msg.union;
      boolean known = s.upto(2) == 0;
      if (known) {
        Object key = u.t.keys.get(t.caseIdx);
        Spec.Msg exp = u.t.cases.get(key);
        Gen g = new Gen(s, Gen.Mode.FORMED);
        g.maxList = 20;
        M m = g.target(t);
        byte[] img = Ref.encode(m);
        c.show(() -> t.msg + " with code " + key + ": " + R.hex(img, 200));
        BinaryCodec[] body = new BinaryCodec[2];
        for (int i = 0; i < 2; i++) {
          BinaryCodec r = i == 0 ? P1.anyObject(s, c, s.pct(50) ? t : new Spec.Target(t.msg, -1)) : Bridge.fresh(t.msg);
          if (i == 0 && s.pct(20)) {
            // after a rejection
            Object no = unknownKey(s, u.t, t.msg.fields.get(u.t.otherIdx).t);
            M bad = m.copy();
            bad.v[u.t.otherIdx] = no;
            byte[] bi = Ref.encode(bad);
            c.show(() -> "after unassigned code " + no);
            BinaryCodec rr = s.pct(50) ? r : Bridge.fresh(t.msg);
            reject(() -> rr.decode(Unpooled.wrappedBuffer(bi)), no, "decoding " + t.msg + " with unassigned code " + no);
          }
          if (i == 0 && s.pct(25)) {
            // the object already holds one of the same code, perhaps received
            if (s.pct(70)) {
              r.decode(P1.anyReader(s, c, img));
            } else {
              Bridge.fill(r, (M) fresh(m), null);
            }
            c.label("object:holds a part of the same code");
          }
          Object was = Bridge.get(r, u);
          M held = was instanceof BinaryCodec && Bridge.spec.byClass.containsKey(was.getClass()) ? Bridge.fromReal((BinaryCodec) was) : null;
          r.decode(P1.anyReader(s, c, img));
          Object b = Bridge.get(r, u);
          c.check(was == null || b != was, () -> "decoding " + t.msg + " with code " + key + " into an object that held a part: "
              + "the part is not a fresh object");
          c.check(held == null || M.same(held, Bridge.fromReal((BinaryCodec) was)), () -> "decoding " + t.msg + " with code " + key
              + " changed the part that the object held before");
          c.check(b != null && b.getClass() == exp.acc.cls, () -> "code " + key + " of " + t.msg + " decoded as "
              + (b == null ? null : b.getClass().getName()) + " instead of " + exp);
          body[i] = (BinaryCodec) b;
        }
        c.check(body[0] != body[1], () -> "code " + key + " of " + t.msg + ": both decodes share one object");
        Reg reg = byOwner.get(t.msg);
        if (reg != null) {
          BinaryCodec x = reg.create(key), y = reg.create(key);
          c.check(x.getClass() == exp.acc.cls, () -> "create(" + key + ") of " + t.msg + " makes " + x.getClass().getName());
          c.check(x != y, () -> "create(" + key + ") of " + t.msg + " makes the same object twice");
          c.check(M.same(Bridge.fromReal(x), new M(exp)), () -> "create(" + key + ") of " + t.msg + " is not a fresh object: " + Bridge.fromReal(x));
        }
        c.label("code:assigned");
        c.nontrivial(R.hash(img) * 31 + t.msg.num);
        return;
      }
      Object key = unknownKey(s, u.t, t.msg.fields.get(u.t.otherIdx).t);
      Object bodyKey = u.t.keys.get(t.caseIdx);
      Gen g = new Gen(s, Gen.Mode.FORMED);
      g.maxList = 5;
      M m = g.target(t);
      m.v[u.t.otherIdx] = key;
      byte[] img = Ref.encode(m);
      // sometimes inside a frame
      Spec.Msg top = t.msg;
      byte[] whole = img;
      if (!top.frame() && s.pct(40)) {
        for (Spec.Msg f : Bridge.spec.frames) {
          if (f.mod == top.mod) {
            for (Object k : f.union.t.keys) {
              if (f.union.t.cases.get(k) == t.msg) {
                top = f;
                whole = image(s, f, k, new Ref.Raw(img));
                break;
              }
            }
          }
        }
      }
      Spec.Msg tt = top;
      byte[] w = whole;
      c.show(() -> tt + " with unassigned code " + key + " of " + t.msg + " (body of " + bodyKey + "): " + R.hex(w, 200));
      BinaryCodec r = P1.anyObject(s, c, new Spec.Target(top, -1));
      ByteBuf from = P1.anyReader(s, c, w);
      c.label(tt == t.msg ? "code:unassigned" : "code:unassigned inside a frame");
      c.checks++;
      c.nontrivial(R.hash(w) * 31 + tt.num);
      reject(() -> r.decode(from), key, "decoding " + tt + " with unassigned code " + key);
      Reg reg = byOwner.get(t.msg);
      if (reg != null) {
        reject(() -> reg.create(key), key, "create(" + key + ") of " + t.msg);
      }
    }
  }

  static void reject(Runnable x, Object key, String what) {
    try {
      x.run();
    } catch (IllegalArgumentException e) {
      if (e.getMessage() == null || !e.getMessage().contains(String.valueOf(key))) {
        throw new Fail(what + ": the error does not name the code: " + e.getMessage());
      }
      return;
    } catch (RuntimeException e) {
      throw new Fail(what + ": rejected with " + e + " instead of an illegal-argument error");
    }
    throw new Fail(what + ": not rejected");
  }

  /** A user's own message type, told apart by id. */
  static final class UserMsg implements BinaryCodec {
    final int id;
    byte[] got;

    UserMsg(int id) {
      this.id = id;
    }

    @Override
    public void encode(ByteBuf b) {
      b.writeBytes(got == null ? new byte[2] : got);
    }

    @Override
    public void decode(ByteBuf b) {
      got = new byte[2];
      b.readBytes(got);
    }
  }

  /** Makes a user's messages or copies of a protocol type; with alike, equal to every other such supplier. */
  static final class Maker implements java.util.function.Supplier<BinaryCodec> {
    final Object what;
    final boolean alike;

    Maker(Object what, boolean alike) {
      this.what = what;
      this.alike = alike;
    }

    @Override
    public BinaryCodec get() {
      return what instanceof Spec.Msg ? Bridge.fresh((Spec.Msg) what) : new UserMsg((Integer) what);
    }

    @Override
    public boolean equals(Object o) {
      return o == this || alike && o instanceof Maker && ((Maker) o).alike;
    }

    @Override
    public int hashCode() {
      return alike ? 1 : System.identityHashCode(this);
    }
  }

  static final class C07 extends Prop {
    private final List<Reg> regs = registries();

    C07() {
      super("C07", 250000, 2000000, true, "a history of register, replace, remove, create and decode on one or two message "
          + "registries with assigned and new codes and user types, each step compared with a map; non-trivial: a removal "
          + "or replacement followed by a create or decode; distinct by registry and history");
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % regs.size()};
    }

    @Override
    void run(Src s, Ctx c) {
      int n = 1;
      Reg[] rs = {regs.get(s.upto(regs.size())), null};
      if (s.pct(30)) {
        rs[1] = regs.get(s.upto(regs.size()));
        n = rs[1] == rs[0] ? 1 : 2;
      }
      List<Set<Object>> touched = Arrays.asList(new LinkedHashSet<>(), new LinkedHashSet<>());
      List<Map<Object, Object>> model = Arrays.asList(new HashMap<>(), new HashMap<>());
      List<List<Object>> keys = Arrays.asList(new ArrayList<>(), new ArrayList<>());
      for (int i = 0; i < n; i++) {
        Spec.Type u = rs[i].owner.union.t;
        model.get(i).putAll(u.cases);
        for (int j = 0; j < 6; j++) {
          keys.get(i).add(j < 3 ? u.keys.get(s.upto(u.keys.size()))
              : unknownKey(s, u, rs[i].owner.fields.get(u.otherIdx).t));
        }
      }
      boolean edited = false, usedAfter = false;
      long h = rs[0].owner.num;
      try {
        if (s.pct(4)) {
          int many = s.of(new int[] {10, 16, 17, 33, 64, 65, 130, 260, 600});
          if (s.pct(4)) {
            many = s.of(new int[] {1000, 1025, 2050, 4100, 5000, 8200, 10100, 16500, 33000, 66000});
            c.label("has:thousands of registrations");
          }
          int all = many;
          Reg r = rs[0];
          Spec.Type u = r.owner.union.t;
          Set<Object> fresh = new LinkedHashSet<>();
          int from = many < 700 ? 0 : s.pct(50) ? s.upto(100000) : (int) s.raw();
          for (int i = 0; i < many; i++) {
            Object k = many < 700 ? unknownKey(s, u, r.owner.fields.get(u.otherIdx).t) : numbered(u, from + i);
            if (!u.cases.containsKey(k) && fresh.add(k)) {
              int id = 1000 + i;
              touched.get(0).add(k);
              r.register(UserMsg.class, k, () -> new UserMsg(id));
              model.get(0).put(k, id);
            }
          }
          keys.get(0).addAll(fresh);
          h = h * 131 + all;
          c.show(() -> r.owner.name + ": register " + fresh.size() + " user types");
          c.label("has:many registrations");
        }
        if (s.pct(8)) {
          // all that the protocol assigns withdrawn, in any order, perhaps but for one or two
          Reg r = rs[0];
          List<Object> all = new ArrayList<>(r.owner.union.t.keys);
          int left = s.upto(3);
          h = h * 31 + left;
          c.show(() -> r.owner.name + ": remove all assigned codes but " + left);
          while (all.size() > left) {
            Object k = all.remove(s.upto(all.size()));
            touched.get(0).add(k);
            model.get(0).remove(k);
            c.check(r.remove(k), () -> "removing the assigned code " + k + " reported false");
            for (Object x : s.pct(20) ? r.owner.union.t.keys : Arrays.asList(k)) {
              create(c, r, x, model.get(0).get(x));
            }
          }
          edited = true;
          c.label("has:nothing assigned left");
        }
        int ops = 2 + s.upto(14);
        BinaryCodec[] used = {null};
        List<Maker> makers = new ArrayList<>();
        for (int i = 0; i < ops; i++) {
          int w = s.upto(n);
          Reg r = rs[w];
          Map<Object, Object> m = model.get(w);
          Object key = keys.get(w).get(s.upto(keys.get(w).size()));
          Object k2 = key instanceof String ? (Object) new String((String) key) : key instanceof Short ? (Object) new Short((Short) key)
              : (Object) new Integer((Integer) key);
          int op = s.pick(30, 10, 22, 18, 20);
          h = h * 131 + op * 17 + key.hashCode();
          if (op == 0) {
            // one supplier may serve several keys
            boolean same = !makers.isEmpty() && s.pct(40);
            Maker mk = same ? makers.get(s.upto(makers.size())) : new Maker(i + 1, s.pct(20));
            makers.add(mk);
            if (same) {
              c.label("has:one supplier for several keys");
            }
            c.show(() -> r.owner.name + ": register " + (same ? "the supplier of " : "") + "user type " + mk.what + (mk.alike ? " (supplier equal to others)" : "")
                + " for " + key);
            touched.get(w).add(key);
            r.register(UserMsg.class, k2, mk);
            edited |= m.containsKey(key);
            m.put(key, mk.what);
          } else if (op == 1) {
            Spec.Type u = r.owner.union.t;
            Spec.Msg d = u.cases.get(u.keys.get(s.upto(u.keys.size())));
            c.show(() -> r.owner.name + ": register " + d + " for " + key);
            touched.get(w).add(key);
            r.register(d.acc.cls, k2, new Maker(d, s.pct(20)));
            edited |= m.containsKey(key);
            m.put(key, d);
          } else if (op == 2) {
            c.show(() -> r.owner.name + ": remove " + key);
            touched.get(w).add(key);
            boolean exp = m.remove(key) != null;
            boolean act = r.remove(k2);
            edited |= exp;
            c.check(act == exp, () -> "removing " + key + " reported " + act);
          } else if (op == 3) {
            c.show(() -> r.owner.name + ": create " + key);
            usedAfter |= edited;
            create(c, r, k2, m.get(key));
          } else {
            c.show(() -> r.owner.name + ": decode with " + key);
            usedAfter |= edited;
            decode(s, c, r, key, m.get(key), used);
          }
        }
        for (int w = 0; w < n; w++) {
          Set<Object> all = new LinkedHashSet<>(rs[w].owner.union.t.keys);
          all.addAll(keys.get(w));
          for (Object k : all) {
            int ww = w;
            create(c, rs[w], k, model.get(ww).get(k));
          }
        }
        if (s.pct(10)) {
          // all other registries are as they were
          for (Reg r : regs) {
            if (r != rs[0] && r != rs[1]) {
              Spec.Type u = r.owner.union.t;
              for (Object k : u.keys) {
                create(c, r, k, u.cases.get(k));
              }
              for (int w = 0; w < n; w++) {
                for (Object k : touched.get(w)) {
                  if (!u.cases.containsKey(k) && k.getClass() == u.keys.get(0).getClass()) {
                    create(c, r, k, null);
                  }
                }
              }
            }
          }
          c.label("has:all other registries looked at");
        }
      } finally {
        for (int w = 0; w < n; w++) {
          for (Object k : touched.get(w)) {
            try {
              rs[w].remove(k);
            } catch (RuntimeException e) {
              // reported by the steps
            }
            if (rs[w].owner.union.t.cases.containsKey(k)) {
              rs[w].setDefault(k);
            }
          }
          if (rs[w].register.getParameterCount() == 3) {
            // and the codes of types registered under other codes meanwhile
            for (Object k : rs[w].owner.union.t.keys) {
              rs[w].setDefault(k);
            }
          }
        }
      }
      c.label("registry:" + rs[0].owner.id());
      if (usedAfter) {
        c.label("has:use after replacement or removal");
        c.nontrivial(h);
      }
    }

    private static void create(Ctx c, Reg r, Object key, Object entry) {
      c.checks++;
      if (entry == null) {
        reject(() -> r.create(key), key, "create(" + key + ") of " + r.owner + ", which is not registered");
        return;
      }
      BinaryCodec a = r.create(key), b = r.create(key);
      is(c, "create(" + key + ") of " + r.owner, a, entry);
      is(c, "create(" + key + ") of " + r.owner, b, entry);
      c.check(a != b, () -> "create(" + key + ") of " + r.owner + " gives the same object twice");
    }

    private static void is(Ctx c, String what, Object o, Object entry) {
      if (entry instanceof Spec.Msg) {
        c.check(o != null && o.getClass() == ((Spec.Msg) entry).acc.cls, () -> what + " gives " + o + " instead of a " + entry);
      } else {
        c.check(o instanceof UserMsg && ((UserMsg) o).id == (Integer) entry, () -> what + " gives "
            + (o instanceof UserMsg ? "user type " + ((UserMsg) o).id : o) + " instead of user type " + entry);
      }
    }

    private static void decode(Src s, Ctx c, Reg r, Object key, Object entry, BinaryCodec[] used) {
      Object body;
      if (entry instanceof Spec.Msg) {
        Gen g = new Gen(s, Gen.Mode.FORMED);
        g.maxList = 4;
        body = g.msg((Spec.Msg) entry, -1);
        if (((Spec.Msg) entry).union != null) {
          // its own extension registry may be edited too: give it nothing to decode there
          entry = null;
          return;
        }
      } else {
        body = new Ref.Raw(new byte[] {7, 9});
      }
      byte[] img = image(s, r.owner, key, body);
      BinaryCodec x = used[0] != null && Bridge.spec.byClass.get(used[0].getClass()) == r.owner && s.pct(50) ? used[0] : Bridge.fresh(r.owner);
      used[0] = x;
      ByteBuf b = P1.anyReader(s, c, img);
      c.checks++;
      if (entry == null) {
        reject(() -> x.decode(b), key, "decoding " + r.owner + " with unregistered code " + key);
        return;
      }
      x.decode(b);
      Object got = Bridge.get(x, r.owner.union);
      is(c, "decoding " + r.owner + " with code " + key, got, entry);
      if (got instanceof UserMsg) {
        c.check(Arrays.equals(((UserMsg) got).got, new byte[] {7, 9}), () -> "the user type was not given its bytes");
      }
      c.check(b.readableBytes() == 0, () -> "decoding left " + b.readableBytes() + " bytes");
      c.label("decode through an edited registry");
    }
  }

  // ------------------------------------------------------------------ values

  /** A copy with no shared strings, boxes or lists. */
  static Object fresh(Object o) {
    if (o instanceof M) {
      M m = (M) o;
      M r = new M(m.t);
      for (int i = 0; i < m.v.length; i++) {
        r.v[i] = fresh(m.v[i]);
      }
      return r;
    }
    if (o instanceof List) {
      List<Object> l = new ArrayList<>();
      for (Object x : (List<?>) o) {
        l.add(fresh(x));
      }
      return l;
    }
    if (o instanceof String) return new String((String) o);
    if (o instanceof Byte) return new Byte((Byte) o);
    if (o instanceof Short) return new Short((Short) o);
    if (o instanceof Integer) return new Integer((Integer) o);
    if (o instanceof Long) return new Long((Long) o);
    if (o instanceof Float) return new Float((Float) o);
    if (o instanceof Double) return new Double((Double) o);
    return o;
  }

  /** Makes zeros that differ only in sign, and not-a-numbers, alike: they have more than one sensible equality. */
  static void plainFloats(Object o) {
    if (o instanceof M) {
      M m = (M) o;
      for (int i = 0; i < m.v.length; i++) {
        m.v[i] = plain(m.v[i]);
        plainFloats(m.v[i]);
      }
    } else if (o instanceof List) {
      @SuppressWarnings("unchecked")
      List<Object> l = (List<Object>) o;
      for (int i = 0; i < l.size(); i++) {
        l.set(i, plain(l.get(i)));
        plainFloats(l.get(i));
      }
    }
  }

  /** The same, or different only in the sign of a zero or the bits of a not-a-number. */
  static boolean samePlain(Object a, Object b) {
    if (a instanceof Float || a instanceof Double) {
      return M.same(plain(a), plain(b));
    }
    Object x = M.copyV(a), y = M.copyV(b);
    plainFloats(x);
    plainFloats(y);
    return M.same(x, y);
  }

  private static Object plain(Object x) {
    if (x instanceof Float) {
      return ((Float) x).isNaN() ? (Object) Float.NaN : (Object) ((Float) x + 0f);
    }
    if (x instanceof Double) {
      return ((Double) x).isNaN() ? (Object) Double.NaN : (Object) ((Double) x + 0d);
    }
    return x;
  }

  /** Changes one leaf to a different value; returns what was changed. */
  static String change(Src s, Object o, Gen g) {
    M m = (M) o;
    if (m.t.fields.isEmpty()) {
      return null;
    }
    Spec.Field f = m.t.fields.get(s.upto(m.t.fields.size()));
    Object v = m.v[f.idx];
    if (v instanceof M && (f.t.k == Spec.K.OBJ || s.pct(75))) {
      String in = change(s, v, g);
      if (in != null) {
        return f.name + "." + in;
      }
    }
    Object w = other(s, f.t, v, g);
    if (M.same(v, w) || (f.t.k == Spec.K.OBJ && w == null)) {
      return null;
    }
    if (samePlain(v, w)) {
      return null;
    }
    m.v[f.idx] = w;
    return f.name;
  }

  /** Changes the message so that its hash code, if calculated in the usual way, stays the same; returns what was changed. */
  static String collide(Src s, M m) {
    int n = m.t.fields.size();
    for (int i = n == 0 ? 0 : s.upto(n), k = 0; k < n; k++, i = (i + 1) % n) {
      Spec.Field f = m.t.fields.get(i);
      Object v = m.v[i];
      if (v instanceof M) {
        String in = collide(s, (M) v);
        if (in != null) {
          return f.name + "." + in;
        }
        continue;
      }
      if (v instanceof List) {
        @SuppressWarnings("unchecked")
        List<Object> l = (List<Object>) v;
        for (int j = 0; j < l.size() && j < 20; j++) {
          if (l.get(j) instanceof M) {
            String in = collide(s, (M) l.get(j));
            if (in != null) {
              return f.name + "[" + j + "]." + in;
            }
          } else if (pair(s, f.t.elem, l, j, f.t.elem, j + 1)) {
            return f.name + "[" + j + "]";
          }
        }
        continue;
      }
      List<Object> all = Arrays.asList(m.v);
      int j = i + 1;
      if (pair(s, f.t, all, i, j < n ? m.t.fields.get(j).t : null, j)) {
        return f.name + (j < n && small(f.t) ? " and " + m.t.fields.get(j).name : "");
      }
    }
    return null;
  }

  private static boolean small(Spec.Type t) {
    return t != null && (t.k == Spec.K.I8 || t.k == Spec.K.I16 || t.k == Spec.K.I32);
  }

  /** Changes element i, or elements i and j = i + 1, of the values. */
  private static boolean pair(Src s, Spec.Type t, List<Object> v, int i, Spec.Type u, int j) {
    Object x = v.get(i);
    long r = 1 + s.upto(1000);
    if (t.k == Spec.K.I64) {
      v.set(i, ((Long) x) ^ (r << 32 | r));
      return true;
    }
    if (t.k == Spec.K.F64) {
      double d = Double.longBitsToDouble(Double.doubleToRawLongBits((Double) x) ^ (r << 32 | r));
      if (Double.isNaN(d) || d == 0) {
        return false;
      }
      v.set(i, d);
      return true;
    }
    if (x instanceof String) {
      String w = (String) x;
      for (int k = 0; k + 1 < w.length(); k++) {
        int a = w.charAt(k), b = w.charAt(k + 1);
        if (a < 32 || b < 32 || a > 126 || b > 126) {
          continue;
        }
        String y = b - 31 >= 32 && a < 126 ? "" + (char) (a + 1) + (char) (b - 31) : b + 31 <= 126 && a > 32 ? "" + (char) (a - 1) + (char) (b + 31) : null;
        if (y != null) {
          v.set(i, w.substring(0, k) + y + w.substring(k + 2));
          return true;
        }
      }
      return false;
    }
    if (small(t) && small(u) && j < v.size()) {
      long a = ((Number) x).longValue(), b = ((Number) v.get(j)).longValue();
      for (int sign = 1; sign >= -1; sign -= 2) {
        Object na = M.num(t, a + sign), nb = M.num(u, b - 31 * sign);
        if (((Number) na).longValue() == a + sign && ((Number) nb).longValue() == b - 31 * sign) {
          v.set(i, na);
          v.set(j, nb);
          return true;
        }
      }
    }
    return false;
  }

  @SuppressWarnings("unchecked")
  private static Object other(Src s, Spec.Type t, Object v, Gen g) {
    switch (t.k) {
      case I8: case I16: case I32: case I64: case LEN: case CKSUM: {
        long x = ((Number) v).longValue();
        int bits = 8 * t.width;
        switch (s.upto(5)) {
          case 0: return M.num(t, x + 1);
          case 1: return M.num(t, x ^ (1L << s.upto(bits)));
          case 2: return M.num(t, -x);
          case 3: return M.num(t, x + (1L << (bits / 2)));
          default: return M.num(t, g.num(bits));
        }
      }
      case F32: {
        float x = (Float) v;
        switch (s.upto(6)) {
          case 0: return Math.nextUp(x);
          case 1: return Math.nextDown(x);
          case 2: return Float.intBitsToFloat(Float.floatToRawIntBits(x) ^ (1 << s.upto(32)));
          case 3: return -x;
          case 4: return Float.intBitsToFloat((int) g.num(32));
          default: return x + 1.5f;
        }
      }
      case F64: {
        double x = (Double) v;
        switch (s.upto(6)) {
          case 0: return Math.nextUp(x);
          case 1: return Math.nextDown(x);
          case 2: return Double.longBitsToDouble(Double.doubleToRawLongBits(x) ^ (1L << s.upto(64)));
          case 3: return -x;
          case 4: return Double.longBitsToDouble(g.num(64));
          default: return x + 1.5;
        }
      }
      case STR: case DSTR: {
        String x = (String) v;
        if (x == null) {
          return s.of(new String[] {"", "", "x", "null", " ", "0", "\0"});
        }
        switch (s.upto(12)) {
          case 0: return x + " ";
          case 1: return x + "0";
          case 2: return x.isEmpty() ? null : x.substring(1);
          case 3: return x.isEmpty() ? "A" : x.substring(0, x.length() - 1);
          case 4: return x.equals(x.toUpperCase()) ? x.toLowerCase() : x.toUpperCase();
          case 5: return null;
          case 6: return "0" + x;
          case 7: return " " + x;
          case 8: return x.equals("null") ? null : x.isEmpty() ? "\0" : x + x.charAt(x.length() - 1);
          case 9: return x.indexOf(' ') >= 0 ? x.replace(" ", "") : x + "\0";
          case 10: return s.pct(50) ? new StringBuilder(x).reverse().toString() : x.replace('0', 'O').replace('A', '\u0391').replace('e', '\u00e9');
          default: return x.isEmpty() ? " " : x.substring(0, x.length() - 1) + (char) (x.charAt(x.length() - 1) ^ 1);
        }
      }
      case LIST: {
        if (v == null) {
          return s.pct(50) ? new ArrayList<>() : g.elems(t, 1);
        }
        List<Object> l = (List<Object>) M.copyV(v);
        if (l.isEmpty()) {
          return s.pct(50) ? null : g.elems(t, 1);
        }
        int i = s.upto(l.size());
        if (l.size() > 1 && l.get(0) instanceof String && s.pct(15)) {
          // the same text when printed: two elements as one
          int k = s.upto(l.size() - 1);
          l.set(k, l.get(k) + ", " + l.remove(k + 1));
          return l;
        }
        switch (s.upto(7)) {
          case 6: java.util.Collections.rotate(l, 1); return l;
          case 0: l.remove(i); return l;
          case 1: l.addAll(g.elems(t, 1)); return l;
          case 2: l.add(l.get(i)); return l;
          case 3: {
            Object a = l.get(0), b = l.get(l.size() - 1);
            l.set(0, b);
            l.set(l.size() - 1, a);
            return l;
          }
          case 4: return null;
          default: {
            Object e = l.get(i);
            if (e instanceof M) {
              change(s, e, g);
            } else {
              l.set(i, other(s, t.elem, e, g));
            }
            return l;
          }
        }
      }
      case UNION: {
        if (v == null) {
          List<Spec.Msg> all = Bridge.spec.all;
          return g.msg(all.get(s.upto(all.size())), -1);
        }
        return s.pct(50) ? null : g.msg(Bridge.spec.all.get(s.upto(Bridge.spec.all.size())), -1);
      }
      default: return v;
    }
  }

  static final class C19 extends Prop {
    C19() {
      super("C19", 400000, 3200000, false, "a generated message, an equal copy sharing nothing with it, and a copy changed in one "
          + "place at any depth, or changed so that its hash code stays the same; equals, hashCode and toString of them, also after setters and calls; non-trivial: the "
          + "message has fields; distinct by the message's values");
    }

    @Override
    long[] prefix(long i) {
      return byT(i);
    }

    private static long[] byT(long i) {
      return new long[] {i % Bridge.spec.targets.size()};
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t = P1.target(s);
      Gen g = new Gen(s, Gen.Mode.ANY);
      g.maxList = s.pct(95) ? 8 : 300;
      g.bigLists = 0;
      M m = g.target(t);
      if (s.pct(1)) {
        grow(s, c, m, s.of(new int[] {500, 513, 1000, 1025, 2000, 4097, 10000}) + s.upto(40));
      }
      c.show(() -> m.toString());
      BinaryCodec a = Bridge.toReal(m, null);
      M m2 = (M) fresh(m);
      BinaryCodec b = Bridge.toReal(m2, s);
      BinaryCodec d = Bridge.toReal((M) fresh(m), null);
      c.check(a.equals(a), () -> "not equal to itself");
      c.check(a.equals(b) && b.equals(a), () -> "not equal to an equal copy");
      c.check(b.equals(d) && a.equals(d), () -> "not transitive");
      c.check(a.hashCode() == b.hashCode(), () -> "equal messages have hash codes " + a.hashCode() + " and " + b.hashCode());
      c.check(a.hashCode() == a.hashCode(), () -> "hash code changes");
      c.check(!a.equals(null), () -> "equal to null");
      c.check(!a.equals(new Object()) && !a.equals("x"), () -> "equal to an object of another type");
      Spec.Msg o = Bridge.spec.all.get(s.upto(Bridge.spec.all.size()));
      if (o != t.msg) {
        BinaryCodec x = Bridge.fresh(o);
        c.check(!a.equals(x) && !x.equals(a), () -> t.msg + " is equal to a " + o);
        if (s.pct(50)) {
          BinaryCodec e = Bridge.fresh(t.msg);
          c.check(!e.equals(x) && !x.equals(e), () -> "an unset " + t.msg + " is equal to an unset " + o);
        }
      }
      if (s.pct(10)) {
        // a user's subclass is a type of its own
        BinaryCodec x = Subs.fresh(t.msg), y = Subs.fresh(t.msg);
        if (x != null) {
          boolean unset = s.pct(30);
          BinaryCodec e = unset ? Bridge.fresh(t.msg) : a;
          if (!unset) {
            Bridge.fill(x, m, null);
            Bridge.fill(y, m, null);
          }
          c.check(x.equals(x) && x.equals(y) && y.equals(x) && x.hashCode() == y.hashCode(), () -> "two equal messages of a subclass of "
              + t.msg + " are not equal");
          c.check(!x.equals(e) && !e.equals(x), () -> "a " + t.msg + " and a message of a subclass: equal is " + e.equals(x) + " one way and "
              + x.equals(e) + " the other");
          c.label("subclass");
        }
      }
      text(c, a, m);
      // one change
      M z = (M) fresh(m);
      String at0 = s.pct(70) ? change(s, z, g) : null;
      String at = at0 == null ? collide(s, z) : at0;
      if (at != null && !samePlain(z, m)) {
        BinaryCodec y = Bridge.toReal(z, null);
        c.label(a.hashCode() == y.hashCode() ? "changed copy with the same hash code" : "changed copy");
        c.show(() -> "changed at " + at + " to " + R.val(z, 1000));
        c.check(!a.equals(y), () -> "equal although " + at + " differs");
        c.check(!y.equals(a), () -> "the changed one is equal although " + at + " differs");
        // the same objects, changed by setters after they were hashed and printed
        b.toString();
        Bridge.fill(b, z, null);
        c.check(b.equals(y) && y.equals(b), () -> "after setting the fields alike: not equal");
        c.check(b.hashCode() == y.hashCode(), () -> "after setting the fields alike: hash codes differ (changed at " + at + ")");
        c.check(!b.equals(a), () -> "after setting the fields: still equal to the old value, changed at " + at);
        c.check(b.toString().equals(y.toString()), () -> "after setting the fields alike: text differs");
      }
      // messages with unset fields
      BinaryCodec u1 = Bridge.fresh(t.msg), u2 = Bridge.fresh(t.msg);
      c.check(u1.equals(u2) && u1.hashCode() == u2.hashCode(), () -> "two unset messages are not equal or hash differently");
      c.check(u1.toString().contains(t.msg.simple()), () -> "text of an unset message: " + u1);
      if (!t.msg.fields.isEmpty()) {
        c.nontrivial(m.toString().hashCode() * 31L + t.msg.num);
      } else {
        c.label("type without fields");
      }
    }

    /** Repeats the elements of a list of the message, or of its body, until it has about n, with the values of numbers varied. */
    @SuppressWarnings("unchecked")
    private static boolean grow(Src s, Ctx c, M m, int n) {
      int k = m.t.fields.size();
      for (int i = k == 0 ? 0 : s.upto(k), j = 0; j < k; j++, i = (i + 1) % k) {
        if (m.v[i] instanceof M && grow(s, c, (M) m.v[i], n)) {
          return true;
        }
        if (m.v[i] instanceof List && !((List<?>) m.v[i]).isEmpty()) {
          List<Object> l = (List<Object>) m.v[i];
          Object first = l.get(0);
          int step = first instanceof M && s.pct(90) ? 10 : 1;
          for (int p = l.size(); p < n / step; p++) {
            l.add(fresh(l.get(p % 7 % l.size())));
          }
          c.label("long list");
          return true;
        }
      }
      return false;
    }

    private static void text(Ctx c, BinaryCodec a, M m) {
      String x = a.toString();
      c.check(x.contains(m.t.simple()), () -> "the text does not name the type: " + R.q(x));
      for (Spec.Field f : m.t.fields) {
        String v = String.valueOf(Bridge.get(a, f));
        c.check(shows(x, f.name, v), () -> "the text does not show " + f.name + "=" + R.q(v) + ": " + (x.length() > 800 ? x.substring(0, 800) : x));
      }
    }

    /** name, then at most a few separators, then the value. */
    static boolean shows(String x, String name, String v) {
      for (int i = x.indexOf(name); i >= 0; i = x.indexOf(name, i + 1)) {
        if (i > 0 && Character.isJavaIdentifierPart(x.charAt(i - 1))) {
          continue;
        }
        int p = i + name.length();
        for (int k = 0; k <= 4 && p + k <= x.length(); k++) {
          if (x.startsWith(v, p + k) && k > 0) {
            return true;
          }
          if (p + k < x.length() && " =:'\"(".indexOf(x.charAt(p + k)) < 0) {
            break;
          }
        }
      }
      return false;
    }
  }

  // ------------------------------------------------------------------ isolation

  static final class C20 extends Prop {
    C20() {
      super("C20", 160000, 1280000, false, "several messages used in turn (encode, decode, setters, list edits, encode from within "
          + "another message's encode), the same image decoded several times with one result edited, and threads working "
          + "on their own messages at once, freely or in a generated interleaving; every message is compared with its own model after each step; non-trivial: at "
          + "least two messages; distinct by contents and history");
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % 25 == 7 ? 3 : i % 5 == 4 ? 4 : i % 3, i % Bridge.spec.targets.size()};
    }

    @Override
    void run(Src s, Ctx c) {
      int what = s.upto(5);
      Spec.Target t = P1.target(s);
      if (what == 4) {
        scheduled(s, c, t);
      } else if (what == 0) {
        interleave(s, c, t);
      } else if (what == 1) {
        share(s, c, t);
      } else if (what == 2) {
        reenter(s, c, t);
      } else {
        threads(s, c, t);
      }
    }

    private void interleave(Src s, Ctx c, Spec.Target t) {
      int n = 2 + s.upto(3);
      BinaryCodec[] r = new BinaryCodec[n];
      M[] m = new M[n];
      Spec.Target[] ts = new Spec.Target[n];
      for (int i = 0; i < n; i++) {
        ts[i] = i == 0 || s.pct(60) ? t : P1.target(s);
        Gen g = new Gen(s, Gen.Mode.FORMED);
        g.maxList = 6;
        m[i] = g.target(ts[i]);
        int k = i;
        c.show(() -> k + ": " + R.val(m[k], 500));
        r[i] = Bridge.toReal(m[i], null);
      }
      long h = 0;
      int ops = 2 + s.upto(8);
      for (int o = 0; o < ops; o++) {
        int i = s.upto(n);
        int op = s.upto(4);
        if (op == 0) {
          c.show(() -> "encode " + i);
          byte[] exp = Ref.encode(m[i]);
          P1.bytesEqual(c, "message " + i, exp, P1.encAnyhow(s, c, r[i], exp.length));
          h = h * 31 + R.hash(exp);
        } else if (op == 1) {
          Gen g = new Gen(s, Gen.Mode.FORMED);
          g.maxList = 6;
          M x = g.target(ts[i]);
          c.show(() -> "decode into " + i + ": " + R.val(x, 500));
          byte[] img = Ref.encode(x);
          r[i].decode(P1.anyReader(s, c, img));
          m[i] = Ref.decode(ts[i].msg, new Ref.In(img, 0, img.length));
        } else if (op == 2 && !ts[i].msg.fields.isEmpty()) {
          Spec.Field f = ts[i].msg.fields.get(s.upto(ts[i].msg.fields.size()));
          if (f.t.k != Spec.K.UNION) {
            Gen g = new Gen(s, Gen.Mode.FORMED);
            g.maxList = 6;
            Object v = g.value(f.t);
            c.show(() -> "set " + i + "." + f.name + " to " + R.val(v, 200));
            m[i].v[f.idx] = v;
            Bridge.set(r[i], f, Bridge.toVal(f.t, v, null, 0));
          }
        } else {
          edit(s, c, m[i], r[i]);
        }
        for (int k = 0; k < n; k++) {
          int kk = k;
          c.checks++;
          String d = M.diff("message " + kk, m[kk], Bridge.fromReal(r[kk]));
          if (d != null) {
            throw new Fail("after a step on message " + i + ": " + d);
          }
        }
      }
      c.label("kind:interleaved");
      c.nontrivial(h * 31 + t.msg.num + m[0].toString().hashCode());
    }

    /** Edits the list (or nested object) of one message in place. */
    @SuppressWarnings("unchecked")
    private static void edit(Src s, Ctx c, M m, BinaryCodec r) {
      for (Spec.Field f : m.t.fields) {
        Object v = m.v[f.idx];
        Object x = Bridge.get(r, f);
        if (x instanceof List && v instanceof List && s.pct(60)) {
          List<Object> l = (List<Object>) x;
          List<Object> k = (List<Object>) v;
          if (k.isEmpty() || s.pct(50)) {
            Gen g = new Gen(s, Gen.Mode.FORMED);
            g.maxList = 2;
            Object e = g.elem(f.t.elem);
            c.show(() -> "add to the list " + f.name + " " + R.val(e, 100));
            try {
              l.add(Bridge.toVal(f.t.elem, e, null, 0));
            } catch (UnsupportedOperationException ex) {
              continue;
            }
            k.add(e);
          } else {
            c.show(() -> "remove from the list " + f.name);
            try {
              l.remove(0);
            } catch (UnsupportedOperationException ex) {
              continue;
            }
            k.remove(0);
          }
        } else if (x instanceof BinaryCodec && v instanceof M) {
          edit(s, c, (M) v, (BinaryCodec) x);
          for (Spec.Field q : ((M) v).t.fields) {
            if (q.t.num() && s.pct(50)) {
              Object w = M.num(q.t, s.raw() & 0x7FFF);
              if (!(w instanceof Float) && !(w instanceof Double)) {
                c.show(() -> "set " + f.name + "." + q.name + " to " + w);
                ((M) v).v[q.idx] = w;
                Bridge.set(x, q, w);
              }
            }
          }
        }
      }
    }

    private void share(Src s, Ctx c, Spec.Target t) {
      Gen g = new Gen(s, Gen.Mode.FORMED);
      g.maxList = 8;
      M m = g.target(t);
      byte[] img = Ref.encode(m);
      c.show(() -> "decode twice " + m);
      BinaryCodec a = Bridge.fresh(t.msg), b = Bridge.fresh(t.msg);
      boolean oneBuffer = s.pct(50);
      ByteBuf buf = Unpooled.wrappedBuffer(img, img);
      a.decode(buf);
      if (!oneBuffer) {
        buf = Unpooled.wrappedBuffer(img.clone());
      }
      b.decode(buf);
      M ma = Bridge.fromReal(a);
      M mb = Bridge.fromReal(b);
      c.check(M.same(ma, mb), () -> "two decodes of one image differ: " + M.diff("", ma, mb));
      apart(c, t.msg.simple(), a, b);
      // what was read from a message and handed on, to another message or only kept, stays as it was
      BinaryCodec heir = Bridge.fresh(t.msg);
      List<Object> kept = new ArrayList<>();
      M will = null;
      boolean hand = s.pct(50);
      if (hand) {
        collect(a, kept);
        for (Spec.Field f : t.msg.fields) {
          if (!(Bridge.get(a, f) instanceof BinaryCodec) || f.t.k == Spec.K.UNION) {
            Bridge.set(heir, f, Bridge.get(a, f)); // a nested message belongs to its owner, who decodes into it again
          }
        }
        will = Bridge.fromReal(heir);
        c.show(() -> "another message takes over the values of the first");
      }
      List<Object> keptModel = models(kept);
      M edited = ma.copy();
      if (!hand) {
        edit(s, c, edited, a);
      }
      Gen g2 = new Gen(s, Gen.Mode.FORMED);
      g2.maxList = 4;
      M other = g2.msg(t.msg, s.pct(50) ? t.caseIdx : -1);
      if (hand || s.pct(50)) {
        c.show(() -> "overwrite the first by decoding " + R.val(other, 300));
        a.decode(Unpooled.wrappedBuffer(Ref.encode(other)));
      }
      if (hand) {
        M w = will;
        c.check(M.same(w, Bridge.fromReal(heir)), () -> "decoding into the first message changed one that had taken over its former values: "
            + M.diff("", w, Bridge.fromReal(heir)));
        List<Object> now = models(kept);
        for (int i = 0; i < kept.size(); i++) {
          int ii = i;
          c.check(M.same(keptModel.get(i), now.get(i)), () -> "decoding into a message changed what had been read from it before: "
              + R.val(keptModel.get(ii), 200) + " to " + R.val(now.get(ii), 200));
        }
        c.label("has:values handed on");
      }
      c.check(M.same(mb, Bridge.fromReal(b)), () -> "editing one decoded message changed the other: " + M.diff("", mb, Bridge.fromReal(b)));
      BinaryCodec d = Bridge.fresh(t.msg);
      d.decode(Unpooled.wrappedBuffer(img.clone()));
      c.check(M.same(mb, Bridge.fromReal(d)), () -> "a later decode is affected by edits of an earlier message: " + M.diff("", mb, Bridge.fromReal(d)));
      c.label("kind:same image twice");
      c.nontrivial(R.hash(img) * 31 + t.msg.num);
    }

    /** The lists, their elements and the bodies in a message, at any depth, which no decoding may touch again. */
    private static void collect(Object o, List<Object> to) {
      if (o instanceof List) {
        List<?> l = (List<?>) o;
        for (int i = 0; i < l.size() && i < 3; i++) {
          if (l.get(i) instanceof BinaryCodec) {
            to.add(l.get(i));
            collect(l.get(i), to);
          }
        }
      } else if (o instanceof BinaryCodec && Bridge.spec.byClass.get(o.getClass()) != null) {
        for (Spec.Field f : Bridge.spec.byClass.get(o.getClass()).fields) {
          Object x = Bridge.get(o, f);
          if (x instanceof List || x instanceof BinaryCodec) {
            if (x instanceof List || f.t.k == Spec.K.UNION) {
              to.add(x);
            }
            collect(x, to);
          }
        }
      }
    }

    private static List<Object> models(List<Object> l) {
      List<Object> r = new ArrayList<>();
      for (Object o : l) {
        r.add(o instanceof List ? models((List<Object>) o) : o instanceof BinaryCodec ? Bridge.fromReal((BinaryCodec) o) : o);
      }
      return r;
    }

    private static void apart(Ctx c, String path, BinaryCodec a, BinaryCodec b) {
      Spec.Msg t = Bridge.spec.byClass.get(a.getClass());
      for (Spec.Field f : t.fields) {
        Object x = Bridge.get(a, f), y = Bridge.get(b, f);
        if (x instanceof BinaryCodec && y instanceof BinaryCodec) {
          c.check(x != y, () -> "two decoded messages share the object " + path + "." + f.name);
          apart(c, path + "." + f.name, (BinaryCodec) x, (BinaryCodec) y);
        } else if (x instanceof List && !((List<?>) x).isEmpty()) {
          c.check(x != y, () -> "two decoded messages share the list " + path + "." + f.name);
          Object p = ((List<?>) x).get(0), q = ((List<?>) y).get(0);
          if (p instanceof BinaryCodec) {
            c.check(p != q, () -> "two decoded messages share an element of " + path + "." + f.name);
          }
        }
      }
    }

    /** A list, or a body, that uses other messages while it is being encoded. */
    private void reenter(Src s, Ctx c, Spec.Target t) {
      Gen g = new Gen(s, Gen.Mode.FORMED);
      g.maxList = 6;
      M outer = g.target(t);
      Spec.Target t2 = s.pct(60) ? t : P1.target(s);
      Gen g2 = new Gen(s, Gen.Mode.FORMED);
      g2.maxList = 6;
      M inner = g2.target(t2);
      c.show(() -> "while encoding " + R.val(outer, 700) + " encode and decode " + R.val(inner, 700));
      byte[] eo = Ref.encode(outer), ei = Ref.encode(inner);
      BinaryCodec ri = Bridge.toReal(inner, null);
      int[] calls = {0};
      Runnable act = () -> {
        if (calls[0]++ < 20) {
          P1.bytesEqual(c, "the message encoded meanwhile", ei, P1.enc(ri));
          BinaryCodec f = Bridge.fresh(t2.msg);
          f.decode(Unpooled.wrappedBuffer(ei));
          c.check(M.diff("", inner, inner) == null, () -> "");
        }
      };
      BinaryCodec ro = Bridge.toReal(outer, null);
      wrap(outer, ro, act);
      P1.bytesEqual(c, "the message whose encoding was interrupted", eo, P1.enc(ro));
      c.label("kind:" + (calls[0] > 0 ? "re-entrant" : "re-entrant without a place to interrupt"));
      c.nontrivial(R.hash(eo) * 31 + R.hash(ei));
    }

    private static void wrap(M m, BinaryCodec r, Runnable act) {
      for (Spec.Field f : m.t.fields) {
        Object x = Bridge.get(r, f);
        if (x instanceof List) {
          List<?> l = (List<?>) x;
          Bridge.set(r, f, new AbstractList<Object>() {
            @Override
            public Object get(int i) {
              act.run();
              return l.get(i);
            }

            @Override
            public int size() {
              return l.size();
            }
          });
        } else if (f.t.k == Spec.K.UNION && x != null) {
          BinaryCodec in = (BinaryCodec) x;
          if (m.v[f.idx] instanceof M) {
            wrap((M) m.v[f.idx], in, act);
          }
          Bridge.set(r, f, new BinaryCodec() {
            @Override
            public void encode(ByteBuf b) {
              act.run();
              in.encode(b);
              act.run();
            }

            @Override
            public void decode(ByteBuf b) {
              throw new IllegalStateException();
            }
          });
        } else if (x instanceof BinaryCodec) {
          wrap((M) m.v[f.idx], (BinaryCodec) x, act);
        }
      }
    }

    static final String[] OPS = {"encode", "decode", "toString", "hashCode", "equals", "sum", "create", "encode into a used buffer"};

    /** Threads with their own messages, in a generated interleaving. */
    private void scheduled(Src s, Ctx c, Spec.Target t) {
      int n = s.pct(75) ? 2 : 3;
      M[][] m = new M[n][];
      M[][] dec = new M[n][];
      byte[][][] img = new byte[n][][];
      BinaryCodec[][] r = new BinaryCodec[n][];
      BinaryCodec[][] same = new BinaryCodec[n][];
      int[][] op = new int[n][];
      String[][] text = new String[n][];
      int[][] hash = new int[n][];
      StringBuilder plan = new StringBuilder();
      int fav = s.upto(OPS.length);
      for (int i = 0; i < n; i++) {
        int k = 1 + s.upto(3);
        m[i] = new M[k];
        dec[i] = new M[k];
        img[i] = new byte[k][];
        r[i] = new BinaryCodec[k];
        same[i] = new BinaryCodec[k];
        op[i] = new int[k];
        text[i] = new String[k];
        hash[i] = new int[k];
        plan.append(i == 0 ? "" : " | ");
        for (int j = 0; j < k; j++) {
          Gen g = new Gen(s, Gen.Mode.FORMED);
          g.maxList = s.pct(90) ? 3 : 40;
          g.bigLists = 0;
          m[i][j] = g.target(s.pct(75) ? t : P1.target(s));
          op[i][j] = s.pct(50) ? fav : s.upto(OPS.length);
          img[i][j] = Ref.encode(m[i][j]);
          dec[i][j] = Ref.decode(m[i][j].t, new Ref.In(img[i][j], 0, img[i][j].length));
          r[i][j] = Bridge.toReal(m[i][j], null);
          same[i][j] = Bridge.toReal((M) P3.fresh(m[i][j]), null);
          text[i][j] = r[i][j].toString();
          hash[i][j] = r[i][j].hashCode();
          plan.append(OPS[op[i][j]]).append(' ').append(R.val(m[i][j], 200)).append(' ');
        }
      }
      long seed = s.raw();
      int gap = s.of(new int[] {2, 5, 15, 50, 200});
      c.show(() -> n + " threads taking turns every " + gap + " steps or so (" + seed + "): " + plan);
      int sw = Sched.run(n, seed, gap, i -> {
        for (int j = 0; j < op[i].length; j++) {
          String what = "thread " + i + ", " + OPS[op[i][j]] + " of " + R.val(m[i][j], 300) + ": ";
          switch (op[i][j]) {
            case 0: case 7: {
              ByteBuf b = Unpooled.buffer();
              if (op[i][j] == 7) {
                b.writeZero(7).readerIndex(3);
              }
              int at = b.writerIndex();
              r[i][j].encode(b);
              byte[] x = Bufs.content(b, at, b.writerIndex() - at);
              if (!Arrays.equals(x, img[i][j])) {
                throw new Fail(what + R.cmp(img[i][j], x));
              }
              break;
            }
            case 1: {
              BinaryCodec x = Bridge.fresh(m[i][j].t);
              x.decode(Unpooled.wrappedBuffer(img[i][j]));
              String d = M.diff(m[i][j].t.simple(), dec[i][j], Bridge.fromReal(x));
              if (d != null) {
                throw new Fail(what + d);
              }
              break;
            }
            case 2: {
              String x = r[i][j].toString();
              if (!x.equals(text[i][j])) {
                throw new Fail(what + "gives " + R.q(x) + " instead of " + R.q(text[i][j]));
              }
              break;
            }
            case 3:
              if (r[i][j].hashCode() != hash[i][j]) {
                throw new Fail(what + "another value than alone");
              }
              break;
            case 4:
              if (!r[i][j].equals(same[i][j]) || r[i][j].equals(null)) {
                throw new Fail(what + "not equal to a copy");
              }
              break;
            case 5: {
              String a = P2.ALGOS[(i + j + (int) (seed & 3)) & 3];
              ChecksumService<ByteBuf, Integer> sv = ChecksumServiceFactory.getInstance().getChecksumService(a);
              byte[] x = img[i][j].length > 60 ? Arrays.copyOf(img[i][j], 60) : img[i][j];
              if (sv == null || !Ref.sum(a, x).equals(sv.calc(Unpooled.wrappedBuffer(x)))) {
                throw new Fail(what + a + " gives another value than alone");
              }
              break;
            }
            default: {
              Spec.Msg mt = m[i][j].t;
              Reg reg = mt.union == null ? null : BY_OWNER.get(mt);
              if (reg != null) {
                Object key = mt.union.t.keys.get((int) ((seed >>> 3) + i + j & 0xFFFF) % mt.union.t.keys.size());
                BinaryCodec x = reg.create(key);
                if (x.getClass() != mt.union.t.cases.get(key).acc.cls) {
                  throw new Fail(what + "create(" + key + ") makes a " + x.getClass());
                }
              }
            }
          }
        }
      });
      c.checks += n;
      c.label("kind:threads in a generated interleaving");
      c.label("switches:" + (sw == 0 ? "0" : sw < 4 ? "1-3" : sw < 20 ? "4-19" : "20-"));
      if (sw > 1) {
        c.nontrivial(plan.toString().hashCode() * 31L + seed);
      }
    }

    static final Map<Spec.Msg, Reg> BY_OWNER = new HashMap<>();

    static {
      for (Reg x : registries()) {
        BY_OWNER.put(x.owner, x);
      }
    }

    private void threads(Src s, Ctx c, Spec.Target t) {
      int n = 4;
      int per = 4;
      M[][] m = new M[n][per];
      byte[][][] img = new byte[n][per][];
      M[][] dec = new M[n][per];
      for (int i = 0; i < n; i++) {
        for (int j = 0; j < per; j++) {
          Gen g = new Gen(s, Gen.Mode.FORMED);
          g.maxList = 20;
          m[i][j] = (s.pct(70) ? g.target(t) : g.target(P1.target(s)));
          img[i][j] = Ref.encode(m[i][j]);
          dec[i][j] = Ref.decode(m[i][j].t, new Ref.In(img[i][j], 0, img[i][j].length));
        }
      }
      c.show(() -> "four threads with " + per + " messages each, first " + R.val(m[0][0], 400));
      parallel(n, i -> {
        for (int round = 0; round < 12; round++) {
          for (int j = 0; j < per; j++) {
            byte[] x = P1.enc(Bridge.toReal(m[i][j], null));
            if (!Arrays.equals(x, img[i][j])) {
              throw new Fail("thread " + i + ", encoding " + R.val(m[i][j], 400) + ": " + R.cmp(img[i][j], x));
            }
            BinaryCodec r = Bridge.fresh(m[i][j].t);
            r.decode(Unpooled.wrappedBuffer(img[i][j]));
            String d = M.diff(m[i][j].t.simple(), dec[i][j], Bridge.fromReal(r));
            if (d != null) {
              throw new Fail("thread " + i + ", decoding: " + d);
            }
            r.hashCode();
            r.toString();
          }
        }
      });
      c.checks += n * per * 24;
      c.label("kind:threads");
      c.nontrivial(R.hash(img[0][0]) * 31 + R.hash(img[1][0]));
    }
  }

  // ------------------------------------------------------------------ SSE codes

  static final class C21 extends Prop {
    C21() {
      super("C21", 300000, 2400000, true, "for each SSE code and type in turn: lookups in both directions, the named constants, and "
          + "a frame with a generated body sent under the code looked up for its type; unassigned numbers near the "
          + "assigned ones; registration of user types; non-trivial: all; distinct by code and image");
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % 5, i / 5 % 14};
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Msg frame = Bridge.spec.get("sse.SseBinary");
      Spec.Type u = frame.union.t;
      SseBinary.BodyMessageFactory f = SseBinary.BodyMessageFactory.getInstance();
      int what = s.upto(5);
      Object key = u.keys.get(s.upto(u.keys.size()));
      int code = (Integer) key;
      Spec.Msg t = u.cases.get(key);
      if (what == 0) {
        c.show(() -> "code " + code + ", type " + t);
        Integer got = f.getMsgType(t.acc.cls);
        c.check(got != null && got == code, () -> "the code of " + t + " is given as " + got + " instead of " + code);
        BinaryCodec x = f.create(new Integer(code));
        c.check(x.getClass() == t.acc.cls, () -> "code " + code + " creates a " + x.getClass().getSimpleName());
        c.check(f.getMsgType(x.getClass()).equals(code), () -> "code " + code + " creates a type of code " + f.getMsgType(x.getClass()));
        c.label("lookups");
        c.nontrivial(code);
      } else if (what == 1) {
        Gen g = new Gen(s, Gen.Mode.FORMED);
        g.maxList = 20;
        M body = g.msg(t, -1);
        c.show(() -> "send " + R.val(body, 600));
        SseBinary b = new SseBinary();
        b.setMsgType(f.getMsgType(t.acc.cls));
        b.setMsgSeqNum(s.raw());
        b.setBody(Bridge.toReal(body, s));
        byte[] img = P1.encAnyhow(s, c, b, -1);
        BinaryCodec r = P1.anyObject(s, c, new Spec.Target(frame, -1));
        SseBinary d = (SseBinary) r;
        d.decode(P1.anyReader(s, c, img));
        c.check(d.getBody().getClass() == t.acc.cls, () -> "received as " + d.getBody().getClass().getSimpleName());
        byte[] bi = Ref.encode(body);
        P1.noDiff(c, "received body", Ref.decode(t, new Ref.In(bi, 0, bi.length)), d.getBody());
        c.label("sent under the looked-up code");
        c.nontrivial(R.hash(img));
      } else if (what == 2) {
        Object ko = unknownKey(s, u, frame.fields.get(u.otherIdx).t);
        int k = (Integer) ko;
        SseBinary.BodyMessageFactory.MessageType[] all = SseBinary.BodyMessageFactory.MessageType.values();
        c.show(() -> "constants, and unassigned number " + k);
        Set<Integer> seen = new LinkedHashSet<>();
        for (SseBinary.BodyMessageFactory.MessageType mt : all) {
          c.check(SseBinary.BodyMessageFactory.MessageType.fromValue(mt.getValue()) == mt, () -> "constant " + mt
              + " has number " + mt.getValue() + " which resolves to " + SseBinary.BodyMessageFactory.MessageType.fromValue(mt.getValue()));
          seen.add(mt.getValue());
          Spec.Msg mm = u.cases.get(mt.getValue());
          c.check(mm != null && mm.name.equalsIgnoreCase(mt.name().replace("_", "")), () -> "constant " + mt + " has the number of " + mm);
        }
        c.check(seen.equals(new LinkedHashSet<Object>(u.keys)) || seen.containsAll(u.keys), () -> "the constants have the numbers " + seen);
        c.check(SseBinary.BodyMessageFactory.MessageType.fromValue(code).getValue() == code, () -> "number " + code + " resolves to another constant");
        c.checks++;
        try {
          Object r = SseBinary.BodyMessageFactory.MessageType.fromValue(k);
          throw new Fail("number " + k + " resolves to " + r);
        } catch (IllegalArgumentException e) {
          // as it should
        }
        c.label("constants");
        c.nontrivial(k);
      } else if (what == 4) {
        history(s, c, f, u, frame);
      } else {
        Object ko = s.pct(50) ? unknownKey(s, u, frame.fields.get(u.otherIdx).t) : key;
        int k = (Integer) ko;
        c.show(() -> "register a user type for " + k);
        try {
          f.register(UserMsg.class, k, () -> new UserMsg(5));
          Integer got = f.getMsgType(UserMsg.class);
          c.check(got != null && got == k, () -> "the code of a user type registered for " + k + " is " + got);
          SseBinary b = new SseBinary();
          b.setMsgType(got);
          b.setBody(new UserMsg(1));
          byte[] img = P1.enc(b);
          SseBinary d = new SseBinary();
          d.decode(Unpooled.wrappedBuffer(img));
          c.check(d.getBody() instanceof UserMsg, () -> "received as " + d.getBody());
          for (Object k2 : u.keys) {
            if (!k2.equals(ko)) {
              Spec.Msg m2 = u.cases.get(k2);
              c.check(k2.equals(f.getMsgType(m2.acc.cls)) && f.create((Integer) k2).getClass() == m2.acc.cls,
                  () -> "registering " + k + " changed code " + k2);
            }
          }
          c.label("user type");
          c.nontrivial(k);
        } finally {
          f.remove(k);
          if (u.cases.containsKey(ko)) {
            f.register(t.acc.cls, k, () -> Bridge.fresh(t));
          }
        }
      }
    }

    static class TypeA implements BinaryCodec {
      @Override
      public void encode(ByteBuf b) {
        b.writeByte(1);
      }

      @Override
      public void decode(ByteBuf b) {
        b.readByte();
      }
    }

    static class TypeB extends TypeA {
    }

    static final class TypeC extends TypeB {
    }

    static final class TypeD implements BinaryCodec {
      @Override
      public void encode(ByteBuf b) {
      }

      @Override
      public void decode(ByteBuf b) {
      }
    }

    /** Called like types of SSE. */
    static final class Namesakes {
      static final class Logon extends TypeA {
      }

      static final class Heartbeat extends TypeA {
      }

      static final class NewOrderSingle extends TypeA {
      }

      static final class Report extends TypeA {
      }
    }

    private static final List<Class<?>> TYPES = Arrays.asList(TypeA.class, TypeB.class, TypeC.class, TypeD.class, TypeA.class, TypeD.class,
        Namesakes.Logon.class, Namesakes.Heartbeat.class, Namesakes.NewOrderSingle.class, Namesakes.Report.class,
        com.finproto.szse.bin.messages.Logout.class, com.finproto.bjse.trade.messages.CancelReject.class);

    private static BinaryCodec make(Class<?> t) {
      try {
        java.lang.reflect.Constructor<?> k = t.getDeclaredConstructor();
        k.setAccessible(true);
        return (BinaryCodec) k.newInstance();
      } catch (ReflectiveOperationException e) {
        throw new IllegalStateException(e);
      }
    }

    /** User types, some related, registered and removed under codes of their own. */
    private static void history(Src s, Ctx c, SseBinary.BodyMessageFactory f, Spec.Type u, Spec.Msg frame) {
      Integer[] codes = new Integer[2 + s.upto(4)];
      for (int i = 0; i < codes.length; i++) {
        codes[i] = (Integer) unknownKey(s, u, frame.fields.get(u.otherIdx).t);
        if (s.pct(40)) {
          codes[i] = s.of(new int[] {127, 128, 129, 255, 256, 300, 1000, 5000, 5001, 32767, 65536, 1 << 20, -129, -1}) ;
        }
        if (s.pct(50) && i > 0) {
          codes[i] = codes[i - 1] + 1;
        }
        if (u.cases.containsKey(codes[i])) {
          codes[i] = 77000 + i;
        }
      }
      Map<Class<?>, Integer> last = new HashMap<>(); // the code a type was registered for last, while that is the type's
      Map<Integer, Class<?>> of = new HashMap<>();
      Map<Integer, Class<?>> makes = new HashMap<>();
      long h = 0;
      try {
        int ops = 1 + s.upto(10);
        for (int i = 0; i < ops; i++) {
          Integer k = codes[s.upto(codes.length)];
          if (s.pct(80)) {
            Class<?> t = TYPES.get(s.upto(TYPES.size()));
            Class<?> mk = s.pct(70) ? t : TYPES.get(s.upto(TYPES.size()));
            c.show(() -> "register " + t.getSimpleName() + " for " + k + ", made as " + mk.getSimpleName());
            f.register(t, new Integer(k), () -> make(mk));
            last.values().removeIf(k::equals);
            last.put(t, k);
            of.put(k, t);
            makes.put(k, mk);
            h = h * 31 + k * 7 + TYPES.indexOf(t) * 16 + TYPES.indexOf(mk);
          } else {
            c.show(() -> "remove " + k);
            c.check(f.remove(new Integer(k)) == makes.containsKey(k), () -> "removing " + k + " did not report whether it was there");
            last.values().removeIf(k::equals);
            of.remove(k);
            makes.remove(k);
            h = h * 31 + k;
          }
          for (Map.Entry<Class<?>, Integer> e : last.entrySet()) {
            Integer got = f.getMsgType(e.getKey());
            c.check(e.getValue().equals(got), () -> "the code of " + e.getKey().getSimpleName() + " is given as " + got + " instead of "
                + e.getValue());
          }
          for (Integer x : codes) {
            Class<?> mk = makes.get(x);
            if (mk == null) {
              reject(() -> f.create(x), x, "create(" + x + "), which is not registered");
            } else {
              BinaryCodec b = f.create(new Integer(x));
              c.check(b != null && b.getClass() == mk, () -> "code " + x + " creates " + b + " instead of a " + mk.getSimpleName());
              c.check(b != f.create(x), () -> "code " + x + " creates the same object twice");
            }
          }
        }
        for (Object k : u.keys) {
          Spec.Msg t = u.cases.get(k);
          c.check(k.equals(f.getMsgType(t.acc.cls)) && f.create((Integer) k).getClass() == t.acc.cls, () -> "registering user types changed code " + k);
        }
      } finally {
        for (Integer k : codes) {
          f.remove(k);
        }
      }
      c.label("user types registered and removed");
      c.nontrivial(h * 31 + 5);
    }
  }
}
