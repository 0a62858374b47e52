package vf;

import com.finproto.bitmap.BitMap;
import com.finproto.bitmap.ByteBitMap;
import com.finproto.bitmap.IntBitMap;
import com.finproto.bitmap.LongBitMap;
import com.finproto.bitmap.ShortBitMap;
import com.finproto.codec.BinaryCodec;
import com.finproto.codec.ChecksumService;
import com.finproto.codec.ChecksumServiceFactory;
import io.netty.buffer.ByteBuf;
import io.netty.buffer.PoolArenaMetric;
import io.netty.buffer.PooledByteBufAllocator;
import io.netty.buffer.Unpooled;
import io.netty.buffer.UnpooledByteBufAllocator;
import io.netty.buffer.UnpooledHeapByteBuf;
import java.lang.ref.WeakReference;
import java.util.AbstractList;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Retention, injected failures, independence of fields: C25, C26, C27. */
final class P4 {
  // ------------------------------------------------------------------ injected failures

  static final class Boom extends RuntimeException {
    Boom() {
      super("injected", null, false, true);
    }
  }

  static final class BoomError extends Error {
    BoomError() {
      super("injected", null, false, true);
    }
  }

  /** Something to throw: mostly types of the check's own, also those the platform and netty throw. */
  static Throwable bomb(Src s) {
    switch (s.pick(40, 15, 45)) {
      case 0: return new Boom();
      case 1: return new BoomError();
      default:
    }
    String m = s.pct(80) ? "injected" : null;
    switch (s.upto(17)) {
      case 0: return new IndexOutOfBoundsException(m);
      case 1: return new NullPointerException(m);
      case 2: return new IllegalArgumentException(m);
      case 3: return new IllegalStateException(m);
      case 4: return new UnsupportedOperationException(m);
      case 5: return new ClassCastException(m);
      case 6: return new java.util.ConcurrentModificationException(m);
      case 7: return new java.util.NoSuchElementException(m);
      case 8: return new ArithmeticException(m);
      case 9: return new NumberFormatException(m);
      case 10: return new io.netty.util.IllegalReferenceCountException(m);
      case 11: return new java.nio.ReadOnlyBufferException();
      case 12: return new java.io.IOException(m);
      case 13: return new StackOverflowError(m);
      case 14: return new OutOfMemoryError(m);
      case 15: return new AssertionError(m);
      default: return new NoClassDefFoundError(m);
    }
  }

  @SuppressWarnings("unchecked")
  static <T extends Throwable> RuntimeException sneak(Throwable t) throws T {
    throw (T) t;
  }

  static RuntimeException raise(Throwable t) {
    return P4.<RuntimeException>sneak(t);
  }

  /** A user's body that fails. */
  static final class BombBody implements BinaryCodec {
    final byte[] first;
    final Throwable t;

    BombBody(byte[] first, Throwable t) {
      this.first = first;
      this.t = t;
    }

    @Override
    public void encode(ByteBuf b) {
      b.writeBytes(first);
      throw raise(t);
    }

    @Override
    public void decode(ByteBuf b) {
      b.skipBytes(Math.min(first.length, b.readableBytes()));
      throw raise(t);
    }
  }

  static final class BombList extends AbstractList<Object> {
    final List<?> l;
    final int at;
    final Throwable t;

    BombList(List<?> l, int at, Throwable t) {
      this.l = l;
      this.at = at;
      this.t = t;
    }

    @Override
    public Object get(int i) {
      if (i == at) {
        throw raise(t);
      }
      return l.get(i);
    }

    @Override
    public int size() {
      if (at >= l.size()) {
        throw raise(t);
      }
      return l.size();
    }
  }

  /** A buffer that refuses to grow. */
  static final class Stingy extends UnpooledHeapByteBuf {
    Throwable t;

    Stingy(int cap) {
      super(UnpooledByteBufAllocator.DEFAULT, cap, Integer.MAX_VALUE);
    }

    @Override
    public ByteBuf capacity(int n) {
      if (t != null) {
        throw raise(t);
      }
      return super.capacity(n);
    }
  }

  static final class C26 extends Prop {
    private final Map<Spec.Msg, P3.Reg> regs = new HashMap<>();

    C26() {
      super("C26", 120000, 3000000, true, "a history on several messages in which some steps are made to fail: a list, body, "
          + "supplier or checksum service that throws, a buffer that refuses to grow, is read-only, released or too short, an "
          + "unassigned code, a missing mandatory part; each failure must reach the caller, and all later steps are compared with "
          + "the reference model; non-trivial: at least one injected failure; distinct by history and contents");
      for (P3.Reg r : P3.registries()) {
        regs.put(r.owner, r);
      }
    }

    @Override
    long[] prefix(long i) {
      return P1.byTarget(i);
    }

    static boolean carries(Throwable got, Throwable t) {
      for (int i = 0; got != null && i < 20; i++, got = got.getCause()) {
        if (got == t) {
          return true;
        }
        for (Throwable x : got.getSuppressed()) {
          if (x == t) {
            return true;
          }
        }
      }
      return false;
    }

    /** Runs what has to fail; with t, it has to fail with t. */
    /** The nested messages and the lists, at any depth, of which a part can be missing, with their owners. */
    private static void parts(BinaryCodec r, List<Object[]> out, int depth) {
      Spec.Msg m = Bridge.spec.byClass.get(r.getClass());
      if (m == null || out.size() > 40 || depth > 6) {
        return;
      }
      for (Spec.Field f : m.fields) {
        Object v = Bridge.get(r, f);
        if (f.t.k == Spec.K.OBJ && v != null) {
          out.add(new Object[] {r, f});
        }
        if (f.t.k == Spec.K.LIST && v instanceof List && !((List<?>) v).isEmpty() && f.t.elem.k != Spec.K.STR && f.t.elem.k != Spec.K.DSTR) {
          out.add(new Object[] {r, f});
          Object first = ((List<?>) v).get(0);
          if (first instanceof BinaryCodec) {
            parts((BinaryCodec) first, out, depth + 1);
          }
        }
        if (v instanceof BinaryCodec) {
          parts((BinaryCodec) v, out, depth + 1);
        }
      }
    }

    static void fails(Ctx c, String what, Throwable t, Runnable r) {
      c.checks++;
      try {
        r.run();
      } catch (Fail f) {
        throw f;
      } catch (Throwable got) {
        if (t != null && !carries(got, t)) {
          throw new Fail(what + ": the caller gets " + got + " instead of the injected " + t);
        }
        return;
      }
      throw new Fail(what + ": the failure did not reach the caller");
    }

    /** A place in a message: a list or union field of an object. */
    static final class Place {
      final BinaryCodec obj;
      final Spec.Field f;

      Place(BinaryCodec o, Spec.Field f) {
        obj = o;
        this.f = f;
      }
    }

    static void places(BinaryCodec r, List<Place> out) {
      Spec.Msg t = Bridge.spec.byClass.get(r.getClass());
      if (t == null) {
        return;
      }
      for (Spec.Field f : t.fields) {
        Object x = Bridge.get(r, f);
        if (f.t.k == Spec.K.LIST || f.t.k == Spec.K.UNION) {
          out.add(new Place(r, f));
        }
        if (x instanceof BinaryCodec) {
          places((BinaryCodec) x, out);
        } else if (x instanceof List && f.t.elem.k == Spec.K.OBJ) {
          for (int i = 0; i < Math.min(2, ((List<?>) x).size()); i++) {
            places((BinaryCodec) ((List<?>) x).get(i), out);
          }
        }
      }
    }

    /** All objects with a union inside the model value. */
    static void unions(Object v, List<M> out) {
      if (v instanceof M) {
        if (((M) v).t.union != null) {
          out.add((M) v);
        }
        for (Object x : ((M) v).v) {
          unions(x, out);
        }
      }
    }

    private static void unchanged(Ctx c, String what, M before, BinaryCodec r) {
      M a = before.copy(), b = Bridge.fromReal(r);
      P1.C22.blank(a);
      P1.C22.blank(b);
      c.checks++;
      if (!M.same(a, b)) {
        throw new Fail(what + " changed: " + (M.diff("", a, b) != null ? M.diff("", a, b) : R.val(a, 300) + " became " + R.val(b, 300)));
      }
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t0 = P1.target(s);
      int n = 1 + s.upto(3);
      Spec.Target[] ts = new Spec.Target[n];
      M[] m = new M[n];
      BinaryCodec[] r = new BinaryCodec[n];
      for (int i = 0; i < n; i++) {
        ts[i] = i == 0 ? t0 : s.pct(30) ? t0 : P1.target(s);
        m[i] = gen(s, ts[i]);
        r[i] = Bridge.toReal(m[i], null);
        int k = i;
        c.show(() -> k + ": " + R.val(m[k], 600));
      }
      Object[] services = new Object[P2.ALGOS.length];
      for (int i = 0; i < services.length; i++) {
        services[i] = ChecksumServiceFactory.getInstance().getChecksumService(P2.ALGOS[i]);
      }
      int steps = 1 + s.upto(6), faults = 0;
      long h = 0;
      for (int k = 0; k < steps; k++) {
        int i = s.upto(n);
        int op = s.pick(22, 14, 12, 12, 10, 6, 8, 6, 10);
        boolean fault = true;
        Throwable t = bomb(s);
        M before = Bridge.fromReal(r[i]);
        if (op == 0) {
          fault = part(s, c, i, r[i], t);
        } else if (op == 1) {
          fault = growth(s, c, i, m[i], r[i], t);
        } else if (op == 2) {
          fault = service(s, c, i, ts[i], r[i], t);
        } else if (op == 3) {
          fault = registry(s, c, i, ts[i], r[i], t);
          if (fault) {
            m[i] = good(s, c, i, ts[i], r[i]);
            before = null;
          }
        } else if (op == 4) {
          byte[] img = Ref.encode(gen(s, ts[i]));
          if (img.length > 0) {
            int cut = s.upto(img.length);
            c.show(() -> "decode only " + cut + " bytes into " + i);
            c.label("fault:input too short");
            BinaryCodec x = r[i];
            fails(c, "decoding too short an input", null, () -> x.decode(Unpooled.wrappedBuffer(Arrays.copyOf(img, cut))));
            m[i] = good(s, c, i, ts[i], r[i]);
            before = null;
          } else {
            fault = false;
          }
        } else if (op == 5) {
          ByteBuf b = Unpooled.buffer(64);
          b.writeBytes(Ref.encode(gen(s, ts[i])));
          BinaryCodec x = r[i];
          int how = s.upto(3);
          fault = how == 1 ? b.readableBytes() > 0 : Ref.encode(m[i].copy()).length > 0;
          if (fault) {
            c.label("fault:released or read-only buffer");
            if (how == 1) {
              c.show(() -> "decode a released buffer into " + x.getClass().getSimpleName() + " " + i);
              b.release();
              fails(c, "decoding a released buffer", null, () -> x.decode(b));
              m[i] = good(s, c, i, ts[i], r[i]);
              before = null;
            } else if (how == 0) {
              c.show(() -> "encode " + i + " to a read-only buffer");
              byte[] all = Bufs.content(b, 0, b.writerIndex());
              fails(c, "encoding to a read-only buffer", null, () -> x.encode(b.asReadOnly()));
              P1.bytesEqual(c, "the read-only buffer", all, Bufs.content(b, 0, all.length));
            } else {
              c.show(() -> "encode " + i + " to a released buffer");
              b.release();
              fails(c, "encoding to a released buffer", null, () -> x.encode(b));
            }
          }
        } else if (op == 6) {
          // a mandatory part missing
          fault = false;
          List<Object[]> parts = new ArrayList<>();
          parts(r[i], parts, 0);
          if (!parts.isEmpty()) {
            fault = true;
            Object[] at = parts.get(s.upto(parts.size()));
            BinaryCodec x = r[i], owner = (BinaryCodec) at[0];
            Spec.Field f = (Spec.Field) at[1];
            Object old = Bridge.get(owner, f);
            if (f.t.k == Spec.K.OBJ) {
              c.show(() -> "encode " + x.getClass().getSimpleName() + " without its " + f);
              c.label("fault:missing part");
              Bridge.set(owner, f, null);
            } else {
              List<Object> l = new ArrayList<>((List<?>) old);
              int gone = s.upto(l.size());
              l.set(gone, null);
              c.show(() -> "encode " + x.getClass().getSimpleName() + " without element " + gone + " of " + f);
              c.label("fault:missing element");
              Bridge.set(owner, f, l);
            }
            fails(c, "encoding with a part of " + f + " missing", null, () -> P1.enc(x));
            Bridge.set(owner, f, old);
          }
        } else if (op == 7) {
          fault = false;
          int ii = i;
          c.show(() -> "encode " + ii);
        } else {
          fault = false;
          m[i] = good(s, c, i, ts[i], r[i]);
          before = null;
        }
        h = h * 31 + op * 8 + i + (fault ? 4 : 0);
        if (fault) {
          faults++;
        }
        if (before != null) {
          unchanged(c, "message " + i, before, r[i]);
        }
        // everything works as if the failure had not been
        for (int j = 0; j < n; j++) {
          if (j == i || s.pct(50)) {
            byte[] exp = Ref.encode(m[j]);
            P1.bytesEqual(c, "after it, encoding message " + j, exp, P1.enc(r[j]));
            BinaryCodec f = Bridge.fresh(ts[j].msg);
            f.decode(Unpooled.wrappedBuffer(exp));
            P1.noDiff(c, "after it, decoding message " + j, Ref.decode(ts[j].msg, new Ref.In(exp, 0, exp.length)), f);
          } else {
            String d = M.diff("message " + j, blanked(m[j]), blanked(Bridge.fromReal(r[j])));
            c.checks++;
            if (d != null) {
              throw new Fail("another message changed: " + d);
            }
          }
        }
        for (int a = 0; a < services.length; a++) {
          int aa = a;
          c.check(ChecksumServiceFactory.getInstance().getChecksumService(P2.ALGOS[a]) == services[a]
              || op == 2, () -> "the service for " + P2.ALGOS[aa] + " changed");
        }
        if (op == 2) {
          for (int a = 0; a < services.length; a++) {
            services[a] = ChecksumServiceFactory.getInstance().getChecksumService(P2.ALGOS[a]);
          }
        }
      }
      if (faults > 0) {
        c.nontrivial(h * 31 + R.hash(Ref.encode(m[0])) + t0.msg.num);
      }
    }

    private static M blanked(M m) {
      M x = m.copy();
      P1.C22.blank(x);
      return x;
    }

    private static M gen(Src s, Spec.Target t) {
      Gen g = new Gen(s, Gen.Mode.FORMED);
      g.maxList = 6;
      return g.target(t);
    }

    private static M good(Src s, Ctx c, int i, Spec.Target t, BinaryCodec r) {
      M x = gen(s, t);
      c.show(() -> "decode into " + i + " " + R.val(x, 500));
      byte[] img = Ref.encode(x);
      ByteBuf b = Unpooled.wrappedBuffer(img);
      r.decode(b);
      M exp = Ref.decode(t.msg, new Ref.In(img, 0, img.length));
      P1.noDiff(c, "decoding into a message used before", exp, r);
      c.check(!b.isReadable(), () -> "decoding left " + b.readableBytes() + " bytes");
      return exp;
    }

    private static boolean part(Src s, Ctx c, int i, BinaryCodec r, Throwable t) {
      List<Place> ps = new ArrayList<>();
      places(r, ps);
      if (ps.isEmpty()) {
        return false;
      }
      Place p = ps.get(s.upto(ps.size()));
      Object old = Bridge.get(p.obj, p.f);
      if (p.f.t.k == Spec.K.LIST) {
        List<?> l = old == null ? new ArrayList<>() : (List<?>) old;
        int at = l.isEmpty() ? 0 : s.upto(l.size());
        if (t instanceof IndexOutOfBoundsException) { // the JDK's iterators turn it into another
          t = new Boom();
        }
        Throwable tt = t;
        c.show(() -> "encode " + i + " with " + p.f + " failing at " + at + " of " + l.size() + " with " + tt);
        c.label("fault:list");
        Bridge.set(p.obj, p.f, new BombList(l, at, t));
      } else {
        byte[] first = s.bytes(s.upto(40));
        Throwable tt = t;
        c.show(() -> "encode " + i + " with " + p.f + " failing after " + first.length + " bytes with " + tt);
        c.label("fault:body");
        Bridge.set(p.obj, p.f, new BombBody(first, t));
      }
      byte[] pre = s.bytes(s.upto(6));
      ByteBuf b = Bufs.writer(c, s, pre, 8, s.of(P1.GROWING));
      int rc = b.refCnt();
      fails(c, "encoding with a failing part", t, () -> r.encode(b));
      P1.bytesEqual(c, "the bytes before the message", pre, Bufs.content(b, 0, pre.length));
      c.check(b.refCnt() == rc, () -> "reference count " + rc + " became " + b.refCnt());
      Bridge.set(p.obj, p.f, old);
      if (s.pct(50)) {
        // the same buffer is used on
        b.setIndex(0, pre.length);
        M now = Bridge.fromReal(r);
        r.encode(b);
        P1.bytesEqual(c, "encoding to the same buffer afterwards", Ref.encode(now),
            Bufs.content(b, pre.length, b.writerIndex() - pre.length));
      }
      return true;
    }

    private static boolean growth(Src s, Ctx c, int i, M m, BinaryCodec r, Throwable t) {
      int len = Ref.encode(m.copy()).length;
      if (len == 0) {
        return false;
      }
      int cap = s.pct(50) ? s.upto(len) : len - 1 - s.upto(Math.min(8, len));
      if (s.pct(45)) {
        byte[] pre = s.bytes(s.upto(5));
        ByteBuf b = Bufs.bounded(c, s, pre, cap);
        c.show(() -> "encode " + i + " (" + len + " bytes) to a buffer with room for " + cap);
        c.label("fault:buffer too small");
        fails(c, "encoding to a buffer that is too small", null, () -> r.encode(b));
        P1.bytesEqual(c, "the bytes before the message", pre, Bufs.content(b, 0, pre.length));
        return true;
      }
      c.show(() -> "encode " + i + " (" + len + " bytes) to a buffer that refuses to grow beyond " + cap + " with " + t);
      c.label("fault:buffer refuses to grow");
      Stingy b = new Stingy(cap);
      b.t = t;
      fails(c, "encoding to a buffer that refuses to grow", t, () -> r.encode(b));
      b.t = null;
      if (s.pct(50)) {
        b.clear();
        r.encode(b);
        P1.bytesEqual(c, "encoding to that buffer afterwards", Ref.encode(m.copy()), Bufs.content(b, 0, b.writerIndex()));
      }
      return true;
    }

    private static boolean service(Src s, Ctx c, int i, Spec.Target ts, BinaryCodec r, Throwable t) {
      if (ts.msg.cksum == null) {
        return false;
      }
      String algo = ts.msg.cksum.t.algo;
      ChecksumServiceFactory f = ChecksumServiceFactory.getInstance();
      c.show(() -> "encode " + i + " with a " + algo + " service that fails with " + t);
      c.label("fault:checksum service");
      f.removeChecksumService(algo);
      try {
        f.registry(new ChecksumService<ByteBuf, Integer>() {
          @Override
          public Integer calc(ByteBuf b) {
            throw raise(t);
          }

          @Override
          public String algorithm() {
            return algo;
          }
        });
        fails(c, "encoding with a failing checksum service", t, () -> P1.enc(r));
      } finally {
        f.removeChecksumService(algo);
        f.registry(P2.builtin(algo));
      }
      return true;
    }

    private boolean registry(Src s, Ctx c, int i, Spec.Target ts, BinaryCodec r, Throwable t) {
      M x = gen(s, ts);
      List<M> us = new ArrayList<>();
      unions(x, us);
      us.removeIf(u -> !regs.containsKey(u.t) || !(u.v[u.t.union.idx] instanceof M));
      if (us.isEmpty()) {
        return false;
      }
      M u = us.get(s.upto(us.size()));
      P3.Reg reg = regs.get(u.t);
      Object key = u.v[u.t.union.t.otherIdx];
      int how = s.upto(3);
      c.show(() -> "decode into " + i + " with " + (how == 0 ? "a supplier that fails" : how == 1 ? "a body that fails"
          : "nothing registered") + " for " + key + " of " + u.t);
      c.label("fault:" + (how == 2 ? "unregistered code" : how == 0 ? "supplier" : "body's decode"));
      byte[] img = Ref.encode(x);
      byte[] first = new byte[s.upto(12)];
      try {
        if (how == 2) {
          reg.remove(key);
        } else {
          reg.register(P3.UserMsg.class, key, () -> {
            if (how == 0) {
              throw raise(t);
            }
            return new BombBody(first, t);
          });
        }
        ByteBuf b = Unpooled.wrappedBuffer(img);
        fails(c, "decoding with a failing part", how == 2 ? null : t, () -> r.decode(b));
        c.check(b.readerIndex() <= b.writerIndex() && b.refCnt() == 1, () -> "the buffer is left as " + b);
      } finally {
        reg.remove(key);
        reg.setDefault(key);
      }
      return true;
    }
  }

  // ------------------------------------------------------------------ fields

  static final class C27 extends Prop {
    C27() {
      super("C27", 700000, 8000000, false, "a history of assignments to the fields of one message, in any order and repeated, with "
          + "uses (encode, hashCode, toString, equals) in between; after each step every field is compared with a map of what "
          + "was last assigned; non-trivial: at least two assignments; distinct by type and history");
    }

    @Override
    long[] prefix(long i) {
      return P1.byTarget(i);
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Msg t = P1.target(s).msg;
      BinaryCodec r = Bridge.fresh(t);
      Object[] want = new M(t).v, objs = new Object[want.length];
      all(c, t, r, want, objs, "a new message");
      int n = t.fields.size();
      if (n == 0) {
        return;
      }
      int ops = 1 + s.upto(s.pct(40) ? 2 * n + 2 : 6);
      long h = t.num;
      int sets = 0;
      Gen g = new Gen(s, Gen.Mode.ANY);
      g.maxList = 4;
      g.raws = true;
      for (int i = 0; i < ops; i++) {
        if (s.pct(12)) {
          int use = s.upto(4);
          c.show(() -> new String[] {"encode", "hashCode", "toString", "equals"}[use]);
          if (use == 0) {
            P1.tryEnc(r);
            // encoding fills in the length and checksum of frames, also of one inside
            M was = new M(t), is = Bridge.fromReal(r);
            System.arraycopy(want, 0, was.v, 0, want.length);
            M x = was.copy(), y = is.copy();
            P1.C22.blank(x);
            P1.C22.blank(y);
            c.check(M.same(x, y), () -> "encoding changed the message: " + R.val(was, 400) + " became " + R.val(is, 400));
            want = is.v;
          } else if (use == 1) {
            r.hashCode();
          } else if (use == 2) {
            r.toString();
          } else {
            r.equals(Bridge.fresh(t));
          }
          all(c, t, r, want, objs, "a use of the message");
          continue;
        }
        Spec.Field f = t.fields.get(s.upto(n));
        Object v;
        if (f.t.k == Spec.K.UNION) {
          int k = s.pick(60, 20, 20);
          List<Spec.Msg> any = Bridge.spec.all;
          v = k == 0 ? g.msg(f.t.cases.get(f.t.keys.get(s.upto(f.t.keys.size()))), -1) : k == 1 ? null
              : g.msg(any.get(s.upto(any.size())), -1);
        } else if (f.t.k == Spec.K.OBJ && s.pct(20)) {
          v = null;
        } else {
          v = g.value(f.t);
        }
        if (v instanceof List && !((List<?>) v).isEmpty() && s.upto(150) == 0) {
          // a long list, of few objects
          @SuppressWarnings("unchecked")
          List<Object> l = (List<Object>) v;
          for (int z = s.of(new int[] {16, 64, 100, 128, 256, 300, 512, 1000, 1024, 4096}) + s.upto(10), k = l.size(); k < z; k++) {
            l.add(l.get(k - 1));
          }
          c.label("long list");
        }
        Object real = Bridge.toVal(f.t, v, s, f.t.k == Spec.K.LIST ? s.upto(8) : 0);
        c.show(() -> f.name + " = " + R.val(v, 200));
        Bridge.set(r, f, real);
        want[f.idx] = v;
        objs[f.idx] = real instanceof List || real instanceof BinaryCodec ? real : null;
        sets++;
        h = h * 31 + f.idx * 7 + (v == null ? 0 : R.val(v, 300).hashCode());
        all(c, t, r, want, objs, "assigning " + f.name);
      }
      // another object is not affected, and a new one is still empty
      all(c, t, Bridge.fresh(t), new M(t).v, new Object[want.length], "using another message of its type, a new message");
      if (sets > 1) {
        c.nontrivial(h);
      }
    }

    private static void all(Ctx c, Spec.Msg t, BinaryCodec r, Object[] want, Object[] objs, String after) {
      c.checks++;
      for (Spec.Field f : t.fields) {
        Object o = Bridge.get(r, f);
        if (objs[f.idx] != null && o != objs[f.idx]) {
          throw new Fail("after " + after + ", " + f + " is another object than the one assigned");
        }
        Object x = Bridge.fromVal(o);
        if (!M.same(want[f.idx], x)) {
          throw new Fail("after " + after + ", " + f + " is " + R.val(x, 200) + " instead of " + R.val(want[f.idx], 200));
        }
      }
    }
  }

  // ------------------------------------------------------------------ retention

  static final class C25 extends Prop {
    static final String[] KINDS = {"encode", "decode", "decode too short an input", "encode without room", "hashCode, equals, toString",
      "checksums", "registries", "text and bitmaps", "decode an unassigned code", "encode, change, encode"};
    private final List<P3.Reg> regs = P3.registries();
    private final Map<Spec.Msg, P3.Reg> byOwner = new HashMap<>();

    C25() {
      super("C25", 400, 6000, true, "twelve lots of 100 operations each (kinds and types in turn) on generated messages and buffers, all then "
          + "dropped: buffers allocated and not released are counted, objects that survive garbage collection are counted through "
          + "weak references, and objects that the code's static fields and thread-locals hold by a walk through them; a lot with many survivors, or growth, is looked at again with 4,000 operations; non-trivial: all; distinct by kinds, types and contents");
      for (P3.Reg r : regs) {
        byOwner.put(r.owner, r);
      }
    }

    // 10 kinds; most weight on encode and decode, and on failures
    private static final int[] TURN = {0, 1, 2, 3, 1, 0, 4, 9, 2, 0, 3, 8, 0, 1, 2, 5, 9, 1, 6, 7};

    @Override
    long[] prefix(long i) {
      return new long[] {i};
    }

    static final class Tally {
      final Map<String, List<WeakReference<Object>>> refs = new HashMap<>();

      void add(String kind, Object o) {
        refs.computeIfAbsent(kind, k -> new ArrayList<>()).add(new WeakReference<>(o));
      }

      void tree(Object o) {
        if (o instanceof BinaryCodec && Bridge.spec.byClass.containsKey(o.getClass())) {
          add("messages", o);
          for (Spec.Field f : Bridge.spec.byClass.get(o.getClass()).fields) {
            tree(Bridge.get(o, f));
          }
        } else if (o instanceof List) {
          List<?> l = (List<?>) o;
          add("lists", o);
          for (int i = 0; i < Math.min(3, l.size()); i++) {
            tree(l.get(i));
          }
        } else if (o instanceof String && !((String) o).isEmpty()) {
          add("texts", o);
        }
      }
    }

    static long[] outside() {
      long n = 0;
      for (PoolArenaMetric a : PooledByteBufAllocator.DEFAULT.metric().heapArenas()) {
        n += a.numActiveAllocations();
      }
      for (PoolArenaMetric a : PooledByteBufAllocator.DEFAULT.metric().directArenas()) {
        n += a.numActiveAllocations();
      }
      return new long[] {n, UnpooledByteBufAllocator.DEFAULT.metric().usedDirectMemory()};
    }

    private static final class Lot {
      int kind;
      Spec.Target t;
      long seed;
      boolean large;
      /** The same contents again and again. */
      boolean same;
      /** Each operation on a new thread. */
      boolean threads;

      @Override
      public String toString() {
        return KINDS[kind] + " " + t.msg;
      }
    }

    @Override
    void run(Src s, Ctx c) {
      long turn = s.raw();
      int lots = s.upto(8) == 0 ? 1 + s.upto(12) : 12;
      long[] out0 = outside();
      int held = Reach.count();
      Map<Lot, UnpooledByteBufAllocator> allocs = new LinkedHashMap<>();
      Map<Lot, Tally> tallies = new LinkedHashMap<>();
      long h = 0;
      for (int j = 0; j < lots; j++) {
        Lot l = new Lot();
        long idx = turn * 12 + j;
        int slot = (int) Math.floorMod(idx, TURN.length);
        l.kind = TURN[slot];
        l.t = Bridge.spec.targets.get((int) Math.floorMod(idx / TURN.length + slot * 37, Bridge.spec.targets.size()));
        if ((l.kind == 6 || l.kind == 8) && l.t.msg.union == null) {
          for (int i = s.upto(Bridge.spec.targets.size()); ; i++) {
            Spec.Target x = Bridge.spec.targets.get(i % Bridge.spec.targets.size());
            if (x.caseIdx >= 0) {
              l.t = x;
              break;
            }
          }
        }
        l.seed = s.raw();
        l.large = Math.floorMod(l.seed, 3) == 0;
        l.same = s.pct(Focus.changed.isEmpty() ? 20 : 50);
        l.threads = s.pct(10);
        c.show(() -> "100 times: " + KINDS[l.kind] + ", " + l.t.msg + (l.same ? ", the same," : "") + (l.threads ? ", each on a thread of its own," : "") + (l.large ? ", large contents from seed " : ", contents from seed ") + l.seed);
        c.label("kind:" + KINDS[l.kind]);
        UnpooledByteBufAllocator alloc = new UnpooledByteBufAllocator(false, true);
        allocs.put(l, alloc);
        tallies.put(l, round(c, l, l.seed, 100, alloc));
        h = h * 31 + l.seed + l.kind * 1000 + l.t.msg.num;
      }
      int growth = Reach.count() - held;
      c.checks++;
      if (growth > 10) {
        grows(c, tallies.keySet(), growth, allocs);
      }
      Map<Lot, String> bad = survivors(tallies);
      for (Lot l : bad.keySet()) {
        Map<Lot, Tally> again = new LinkedHashMap<>();
        again.put(l, round(c, l, l.seed + 1, 4000, allocs.get(l)));
        c.label("looked at again");
        String b = survivors(again).get(l);
        if (b != null) {
          throw new Fail(l + ": after 4,000 operations and garbage collection there are still " + b);
        }
      }
      for (Map.Entry<Lot, UnpooledByteBufAllocator> e : allocs.entrySet()) {
        long left = e.getValue().metric().usedHeapMemory() + e.getValue().metric().usedDirectMemory();
        c.check(left == 0, () -> e.getKey() + ": " + left + " bytes of buffers from the buffer's allocator were not released");
      }
      long[] out1 = outside();
      c.check(out1[0] <= out0[0], () -> tallies.keySet() + ": " + (out1[0] - out0[0]) + " pooled buffers were not released");
      c.check(out1[1] <= out0[1], () -> tallies.keySet() + ": " + (out1[1] - out0[1]) + " bytes of direct buffers were not released");
      c.nontrivial(h);
    }

    /** What the code under test holds has grown: does it with every lot of 4,000 operations? */
    private void grows(Ctx c, java.util.Set<Lot> lots, int growth, Map<Lot, UnpooledByteBufAllocator> allocs) {
      c.label("looked at again");
      for (Lot l : lots) {
        int least = Integer.MAX_VALUE;
        int before = Reach.count();
        for (int k = 0; k < 3 && least >= 400; k++) {
          round(c, l, l.seed + 77 + k, 4000, allocs.get(l));
          int after = Reach.count();
          least = Math.min(least, after - before);
          before = after;
        }
        if (least >= 400) {
          throw new Fail(l + ": with every 4,000 operations the code's static state holds at least " + least + " objects more");
        }
      }
    }

    /** What of each lot is still there after garbage collection, if much. */
    private static Map<Lot, String> survivors(Map<Lot, Tally> ys) {
      Map<Lot, String> bad = new LinkedHashMap<>();
      for (int k = 0; k < 4; k++) {
        System.gc();
        bad.clear();
        for (Map.Entry<Lot, Tally> y : ys.entrySet()) {
          for (Map.Entry<String, List<WeakReference<Object>>> e : y.getValue().refs.entrySet()) {
            java.util.Set<Object> kept = java.util.Collections.newSetFromMap(new java.util.IdentityHashMap<>());
            for (WeakReference<Object> w : e.getValue()) {
              Object o = w.get();
              if (o != null) {
                kept.add(o); // one object, given out many times, counts once
              }
            }
            int alive = kept.size();
            kept = null;
            int n = e.getValue().size();
            if (alive > 25 && alive * 4 > Math.min(n, 4000)) {
              bad.put(y.getKey(), alive + " of " + n + " " + e.getKey());
            }
          }
        }
        if (bad.isEmpty()) {
          break;
        }
        try {
          Thread.sleep(5L << k);
        } catch (InterruptedException e) {
          throw new IllegalStateException(e);
        }
      }
      return bad;
    }

    private Tally round(Ctx c, Lot l, long seed, int n, UnpooledByteBufAllocator alloc) {
      Tally y = new Tally();
      for (int i = 0; i < n; i++) {
        Src s = new Src(l.same ? l.seed : Main.mix(seed + i * 0x9E3779B97F4A7C15L), null);
        ByteBuf b = i % 2 == 0 ? alloc.heapBuffer(256) : alloc.directBuffer(256);
        if (!l.threads) {
          one(s, c, l.kind, l.t, l.large, y, b);
          continue;
        }
        Throwable[] bad = {null};
        Thread t = new Thread(() -> one(s, c, l.kind, l.t, l.large, y, b));
        t.setUncaughtExceptionHandler((z, e) -> bad[0] = e);
        t.start();
        try {
          t.join();
        } catch (InterruptedException e) {
          throw new IllegalStateException(e);
        }
        if (bad[0] instanceof RuntimeException) {
          throw (RuntimeException) bad[0];
        }
        if (bad[0] instanceof Error) {
          throw (Error) bad[0];
        }
      }
      return y;
    }

    /** Longer texts, and lists of more elements. */
    private static void enlarge(Gen g, M m) {
      for (Spec.Field f : m.t.fields) {
        Object o = m.v[f.idx];
        if (f.t.k == Spec.K.DSTR) {
          StringBuilder b = new StringBuilder();
          for (int n = g.s.of(new int[] {30, 70, 100, 130, 140, 150}); b.length() < n;) {
            b.append(Long.toString(g.s.raw() >>> 1, 36));
          }
          m.v[f.idx] = b.toString();
        } else if (f.t.k == Spec.K.LIST) {
          List<Object> l = new ArrayList<>();
          for (int n = g.s.of(new int[] {7, 12, 20, 40}); l.size() < n;) {
            l.add(g.elem(f.t.elem));
          }
          m.v[f.idx] = l;
        } else if (o instanceof M) {
          enlarge(g, (M) o);
        }
      }
    }

    /** Texts of this message only, not the generator's constants. */
    private static void own(Object o) {
      Object[] a = ((M) o).v;
      for (int i = 0; i < a.length; i++) {
        if (a[i] instanceof String) {
          a[i] = new String((String) a[i]);
        } else if (a[i] instanceof M) {
          own(a[i]);
        } else if (a[i] instanceof List) {
          @SuppressWarnings("unchecked")
          List<Object> l = (List<Object>) a[i];
          for (int k = 0; k < l.size(); k++) {
            if (l.get(k) instanceof String) {
              l.set(k, new String((String) l.get(k)));
            } else if (l.get(k) instanceof M) {
              own(l.get(k));
            }
          }
        }
      }
    }

    private void one(Src s, Ctx c, int kind, Spec.Target t, boolean large, Tally y, ByteBuf b) {
      Gen g = new Gen(s, Gen.Mode.FORMED);
      g.maxList = 6;
      M m = g.target(t);
      if (large) {
        g.maxList = 3;
        enlarge(g, m);
      }
      own(m);
      BinaryCodec r = null;
      switch (kind) {
        case 0: case 9: {
          r = Bridge.toReal(m, null);
          r.encode(b);
          y.tree(r);
          if (kind == 9) {
            Bridge.poke(r, g);
            try {
              r.encode(b);
            } catch (RuntimeException e) {
              c.checks++;
            }
          }
          break;
        }
        case 1: {
          b.writeBytes(Ref.encode(m));
          r = Bridge.fresh(t.msg);
          r.decode(b);
          y.tree(r);
          break;
        }
        case 2: {
          byte[] img = Ref.encode(m);
          b.writeBytes(img, 0, img.length == 0 ? 0 : s.upto(img.length));
          r = Bridge.fresh(t.msg);
          try {
            r.decode(b);
          } catch (RuntimeException e) {
            c.checks++;
          }
          y.add("messages", r);
          break;
        }
        case 3: {
          r = Bridge.toReal(m, null);
          byte[] img = Ref.encode(m);
          int cap = img.length == 0 ? 0 : s.upto(img.length);
          ByteBuf small = b.alloc().heapBuffer(cap, cap);
          try {
            r.encode(small);
          } catch (RuntimeException e) {
            c.checks++;
          }
          small.release();
          y.tree(r);
          break;
        }
        case 4: {
          r = Bridge.toReal(m, null);
          BinaryCodec q = Bridge.toReal(m.copy(), null);
          r.hashCode();
          r.equals(q);
          String text = r.toString();
          if (!t.msg.fields.isEmpty()) { // else it may well be a constant
            y.add("texts", text);
          }
          y.tree(r);
          y.tree(q);
          break;
        }
        case 5: {
          b.writeBytes(s.bytes(1 + s.upto(3000)));
          for (String a : P2.ALGOS) {
            ChecksumService<ByteBuf, Integer> x = ChecksumServiceFactory.getInstance().getChecksumService(a);
            x.calc(b);
          }
          P2.Custom u = new P2.Custom("of the check's own", 7);
          ChecksumServiceFactory.getInstance().registry(u);
          ChecksumServiceFactory.getInstance().removeChecksumService(u.name);
          y.add("services", u);
          break;
        }
        case 6: {
          P3.Reg reg = byOwner.get(t.msg);
          if (reg == null) {
            reg = regs.get(s.upto(regs.size()));
          }
          Spec.Type u = reg.owner.union.t;
          Object key = P3.unknownKey(s, u, reg.owner.fields.get(u.otherIdx).t);
          P3.UserMsg x = new P3.UserMsg(1);
          reg.register(P3.UserMsg.class, key, () -> x);
          reg.create(key);
          reg.remove(key);
          y.add("registered types", x);
          y.add("messages", reg.create(u.keys.get(s.upto(u.keys.size()))));
          break;
        }
        case 7: {
          int w = 1 + s.upto(60);
          String v = g.fixed(w, ' ', false);
          boolean left = s.pct(50);
          P2.PRIM.writeFixedString(b, v, w, s.pct(50) ? ' ' : '0', left);
          String got = P2.PRIM.readFixedString(b, w, ' ', left);
          if (!got.isEmpty()) {
            y.add("texts", got);
          }
          BitMap[] bm = {new ByteBitMap(), new ShortBitMap(), new IntBitMap(), new LongBitMap()};
          for (BitMap x : bm) {
            x.set(s.upto(x.bitCount()));
            x.write(b);
            x.read(b);
            y.add("bitmaps", x);
          }
          break;
        }
        case 8: {
          Spec.Type u = t.msg.union.t;
          m.v[u.otherIdx] = P3.unknownKey(s, u, t.msg.fields.get(u.otherIdx).t);
          b.writeBytes(Ref.encode(m));
          r = Bridge.fresh(t.msg);
          try {
            r.decode(b);
          } catch (RuntimeException e) {
            c.checks++;
            y.add("errors", e);
          }
          y.add("messages", r);
          break;
        }
        default: throw new AssertionError();
      }
      c.checks++;
      c.check(b.refCnt() == 1, () -> KINDS[kind] + " " + t.msg + " left the buffer with reference count " + b.refCnt());
      y.add("buffers", b);
      b.release();
    }
  }
}
