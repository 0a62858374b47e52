package vf;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.ByteBuf;
import io.netty.buffer.Unpooled;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;

/** C29: parts are written, read, compared and printed by their own methods. */
final class P7 {
  static final class C29 extends Prop {
    private static final ThreadLocal<Map<Ref.Part, Act>> MADE = ThreadLocal.withInitial(IdentityHashMap::new);

    /** Within what a part does meanwhile, where the registered suppliers make the protocol's own types. */
    private static boolean busy;

    private final List<Spec.Target> holders = new ArrayList<>();
    private final List<P3.Reg> regs = P3.registries();

    C29() {
      super("C29", 250000, 3000000, true, "a message whose parts (body, extension, nested messages, list elements) are partly of users' subclasses with "
          + "methods of their own (bytes around or instead of the protocol type's, peeking with marks, using the library meanwhile), encoded, decoded "
          + "through registered suppliers, compared, hashed and printed; non-trivial: at least one such part; distinct by image and kinds");
      for (Spec.Target t : Bridge.spec.targets) {
        if (holds(t.msg)) {
          holders.add(t);
        }
      }
    }

    private static boolean holds(Spec.Msg m) {
      for (Spec.Field f : m.fields) {
        if (f.t.k == Spec.K.UNION || f.t.k == Spec.K.OBJ || f.t.k == Spec.K.LIST && f.t.elem.k == Spec.K.OBJ) {
          return true;
        }
      }
      return false;
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % holders.size(), i / holders.size() % 5};
    }

    /** What one object of a user's subclass does, and how often it was asked. */
    private static final class Act implements Hooked.Acts {
      final Ref.Part p;
      final Ctx c;
      int style;
      M other;
      byte[] otherImage;
      int encoded, decoded;
      String text;
      int tag, hash;
      byte[] gotPre, gotPost;
      /** What it throws, at its beginning or its end. */
      RuntimeException boom;
      boolean late;

      Act(Ref.Part p, Ctx c) {
        this.p = p;
        this.c = c;
      }

      /** A user's code may use the library for something else meanwhile. */
      private void meanwhile(String when) {
        if (other == null || busy) {
          return;
        }
        busy = true;
        try {
          use(when);
        } finally {
          busy = false;
        }
      }

      private void use(String when) {
        ByteBuf b = Unpooled.buffer();
        Bridge.toReal(other, null).encode(b);
        byte[] got = Bufs.content(b, 0, b.writerIndex());
        c.check(Arrays.equals(got, otherImage), () -> "another message encoded by a part " + when + " gives " + R.hex(got, 200) + " instead of "
            + R.hex(otherImage, 200));
        BinaryCodec d = Bridge.fresh(other.t);
        d.decode(b);
        String diff = M.diff("", other, Bridge.fromReal(d));
        c.check(diff == null, () -> "another message decoded by a part " + when + " differs: " + diff);
      }

      @Override
      public void encode(Hooked.Own o, ByteBuf b) {
        encoded++;
        if (boom != null && !late) {
          throw boom;
        }
        if (style == 1) {
          b.markWriterIndex();
          b.writeBytes(new byte[Math.min(3, b.maxWritableBytes())]);
          b.resetWriterIndex();
        }
        b.writeBytes(p.pre);
        meanwhile("while it is encoded");
        if (!p.only) {
          o.superEncode(b);
          b.writeBytes(p.post);
        }
        if (style == 1) {
          b.markWriterIndex();
        }
        if (boom != null) {
          throw boom;
        }
      }

      @Override
      public void decode(Hooked.Own o, ByteBuf b) {
        decoded++;
        if (boom != null && !late) {
          throw boom;
        }
        if (style == 1) {
          b.markReaderIndex();
          b.readBytes(new byte[p.pre.length]);
          b.resetReaderIndex();
        }
        gotPre = new byte[p.pre.length];
        b.readBytes(gotPre);
        meanwhile("while it is decoded");
        if (!p.only) {
          o.superDecode(b);
          gotPost = new byte[p.post.length];
          b.readBytes(gotPost);
        }
        if (style == 1) {
          b.markReaderIndex();
        }
        if (boom != null) {
          throw boom;
        }
      }

      @Override
      public boolean equal(Hooked.Own o, Object x) {
        if (text == null) {
          return o.superEquals(x);
        }
        Hooked.Acts a = Hooked.acts(x);
        return a instanceof Act && ((Act) a).tag == tag;
      }

      @Override
      public int hash(Hooked.Own o) {
        return text == null ? o.superHash() : hash;
      }

      @Override
      public String text(Hooked.Own o) {
        return text == null ? o.superText() : text;
      }
    }

    private static RuntimeException failure(Src s) {
      switch (s.upto(7)) {
        case 0: return new IndexOutOfBoundsException("part");
        case 1: return new IllegalArgumentException("part");
        case 2: return new NullPointerException("part");
        case 3: return new IllegalStateException("part");
        case 4: return new UnsupportedOperationException("part");
        case 5: return new java.nio.BufferOverflowException();
        default: return new RuntimeException("part");
      }
    }

    /** One of the parts fails: that one and those around it have been asked once, no other more often than that. */
    private static void failing(Src s, Ctx c, List<Act> acts, Map<Ref.Part, Integer> n, boolean write, Runnable r) {
      Act f = acts.get(s.upto(acts.size()));
      if (n != null && !n.containsKey(f.p)) {
        return;
      }
      RuntimeException x = failure(s);
      f.boom = x;
      f.late = s.pct(40);
      c.show(() -> "first the part " + f.p + " fails " + (f.late ? "at its end" : "at its beginning") + " with " + x);
      c.checks++;
      try {
        r.run();
        throw new Fail("the failure of the part " + f.p + " with " + x + " does not reach the caller");
      } catch (RuntimeException e) {
        if (e instanceof Fail) {
          throw e;
        }
      }
      for (Act a : acts) {
        int most = a == f ? 1 : n == null ? 1 : n.getOrDefault(a.p, 0);
        int did = write ? a.encoded : a.decoded, least = a == f ? 1 : 0;
        c.check(did <= most && did >= least, () -> "the part " + f.p + " failed; the part " + a.p + " was asked " + did + " times");
        a.encoded = a.decoded = 0;
        a.gotPre = a.gotPost = null;
      }
      f.boom = null;
      c.label("has:a part that fails");
    }

    static BinaryCodec toReal(Ref.Part p, Src s) {
      Act a = MADE.get().get(p);
      BinaryCodec o = Hooked.fresh(p.m.t, a);
      Bridge.fill(o, p.m, s);
      return o;
    }

    private Act part(Src s, Ctx c, M m) {
      Ref.Part p = new Ref.Part(m);
      int how = s.pick(10, 60, 20, 10);
      p.pre = s.bytes(how == 0 ? 0 : how == 1 ? 1 + s.upto(4) : how == 2 ? s.upto(40) : 256 + s.upto(6000));
      p.post = s.bytes(s.pct(50) ? s.upto(4) : 0);
      p.only = s.pct(15);
      Act a = new Act(p, c);
      a.style = s.upto(2);
      if (s.pct(15)) {
        Gen g = new Gen(s, Gen.Mode.CANON);
        g.maxList = 3;
        g.bigLists = 0;
        Spec.Target t = s.pct(60) ? holders.get(s.upto(holders.size())) : P1.target(s);
        a.other = g.target(t);
        a.otherImage = Ref.encode(a.other);
      }
      MADE.get().put(p, a);
      return a;
    }

    /** Puts users' parts into m; the list gets one entry for every place where one is to be written. */
    private Object swap(Src s, Ctx c, Object v, int pct, List<Act> out) {
      if (v instanceof M) {
        M m = (M) v;
        inner(s, c, m, pct, out);
        if (!Hooked.possible(m.t) || !s.pct(pct)) {
          return m;
        }
        Act a = part(s, c, m);
        out.add(a);
        return a.p;
      }
      return v;
    }

    private void inner(Src s, Ctx c, M m, int pct, List<Act> out) {
      for (Spec.Field f : m.t.fields) {
        Object v = m.v[f.idx];
        if (v instanceof M) {
          m.v[f.idx] = swap(s, c, v, pct, out);
        } else if (v instanceof List && f.t.elem.k == Spec.K.OBJ) {
          @SuppressWarnings("unchecked")
          List<Object> l = (List<Object>) v;
          for (int i = 0; i < l.size() && i < 40; i++) {
            if (l.get(i) instanceof M) {
              l.set(i, i > 0 && l.get(i - 1) instanceof Ref.Part && s.pct(20) ? l.get(i - 1) : swap(s, c, l.get(i), pct, out));
            }
          }
        }
      }
    }

    /** How often each user's part has to be written. */
    private static void count(Object v, Map<Ref.Part, Integer> n) {
      if (v instanceof Ref.Part) {
        Ref.Part p = (Ref.Part) v;
        n.merge(p, 1, Integer::sum);
        if (!p.only) {
          count(p.m, n);
        }
      } else if (v instanceof M) {
        for (Object x : ((M) v).v) {
          count(x, n);
        }
      } else if (v instanceof List) {
        for (Object x : (List<?>) v) {
          count(x, n);
        }
      }
    }

    @Override
    void run(Src s, Ctx c) {
      try {
        Spec.Target t = holders.get(s.upto(holders.size()));
        int kind = s.upto(5);
        if (kind <= 1 || kind <= 3 && t.msg.union == null) {
          write(s, c, t);
        } else if (kind <= 3) {
          read(s, c, t);
        } else {
          compare(s, c, t);
        }
      } finally {
        MADE.get().clear();
        Hooked.forget();
      }
    }

    private void write(Src s, Ctx c, Spec.Target t) {
      Gen g = new Gen(s, s.pct(70) ? Gen.Mode.FORMED : Gen.Mode.ANY);
      g.maxList = s.pct(95) ? 6 : 60;
      g.bigLists = 0;
      g.raws = true;
      M m = g.target(t);
      List<Act> acts = new ArrayList<>();
      inner(s, c, m, s.of(new int[] {100, 60, 30}), acts);
      c.label("kind:written");
      c.show(() -> "encode " + R.val(m, 1500));
      byte[] exp = Ref.encode(m);
      Map<Ref.Part, Integer> n = new IdentityHashMap<>();
      count(m, n);
      BinaryCodec r = Bridge.toReal(m, s.pct(50) ? s : null);
      if (!acts.isEmpty() && s.pct(12)) {
        failing(s, c, acts, n, true, () -> r.encode(Unpooled.buffer()));
      }
      int times = s.pct(80) ? 1 : 2;
      for (int i = 0; i < times; i++) {
        byte[] got = P1.encAnyhow(s, c, r, exp.length);
        P1.bytesEqual(c, "encoded", exp, got);
      }
      for (Act a : acts) {
        int want = times * n.getOrDefault(a.p, 0);
        c.check(a.encoded == want && a.decoded == 0, () -> "the part " + a.p + " was asked to encode itself " + a.encoded + " times instead of "
            + want + ", and " + a.decoded + " times to decode");
      }
      if (!acts.isEmpty()) {
        c.label(acts.size() == 1 ? "parts:one" : "parts:several");
        c.nontrivial(R.hash(exp));
      }
    }

    private P3.Reg reg(Spec.Msg m) {
      for (P3.Reg r : regs) {
        if (r.owner == m) {
          return r;
        }
      }
      return null;
    }

    private void read(Src s, Ctx c, Spec.Target t) {
      Gen g = new Gen(s, Gen.Mode.CANON);
      g.maxList = s.pct(95) ? 6 : 60;
      g.bigLists = 0;
      M m = g.target(t);
      M plain = m.copy();
      List<Act> acts = new ArrayList<>();
      List<Object[]> registered = new ArrayList<>();
      List<M> chain = new ArrayList<>();
      int pct = s.of(new int[] {100, 60});
      // the parts that a registry creates, down to the innermost
      M at = m;
      while (at.t.union != null && at.v[at.t.union.idx] instanceof M && reg(at.t) != null) {
        M in = (M) at.v[at.t.union.idx];
        Object key = at.v[at.t.union.t.otherIdx];
        boolean twice = false;
        for (M x : chain) {
          twice |= x.t == at.t;
        }
        chain.add(at);
        if (!twice && Hooked.possible(in.t) && s.pct(pct)) {
          Act a = part(s, c, in);
          at.v[at.t.union.idx] = a.p;
          registered.add(new Object[] {reg(at.t), key, a});
          acts.add(a);
          if (a.p.only) {
            break;
          }
        }
        at = in;
      }
      c.label("kind:read");
      c.show(() -> "decode " + R.val(m, 1500));
      byte[] img = Ref.encode(m);
      Ref.encode(plain);
      try {
        for (Object[] x : registered) {
          Act a = (Act) x[2];
          ((P3.Reg) x[0]).register(Hooked.type(a.p.m.t), x[1], () -> busy ? Bridge.fresh(a.p.m.t) : Hooked.fresh(a.p.m.t, a));
        }
        BinaryCodec d = Bridge.fresh(t.msg);
        if (!acts.isEmpty() && s.pct(12)) {
          failing(s, c, acts, null, false, () -> d.decode(Unpooled.wrappedBuffer(img)));
        }
        ByteBuf b = Bufs.reader(c, s, img);
        int from = b.readerIndex();
        d.decode(b);
        c.check(b.readerIndex() - from == img.length, () -> "consumed " + (b.readerIndex() - from) + " bytes of " + img.length);
        same(c, t.msg.name, m, d);
        for (Act a : acts) {
          c.check(a.decoded == 1 && a.encoded == 0, () -> "the part " + a.p + " was asked to decode itself " + a.decoded + " times, and "
              + a.encoded + " times to encode");
          c.check(Arrays.equals(a.gotPre, a.p.pre) && (a.p.only || Arrays.equals(a.gotPost, a.p.post)), () -> "the part " + a.p + " read "
              + R.hex(a.gotPre, 100) + (a.gotPost == null ? "" : " and " + R.hex(a.gotPost, 100)) + " as its own bytes");
        }
        // and what was read is written again
        byte[] again = P1.enc(d);
        P1.bytesEqual(c, "encoded again", img, again);
      } finally {
        for (Object[] x : registered) {
          P3.Reg r = (P3.Reg) x[0];
          try {
            r.remove(x[1]);
            r.setDefault(x[1]);
          } catch (RuntimeException e) {
            // reported by C07
          }
        }
      }
      if (!acts.isEmpty()) {
        c.label(acts.size() == 1 ? "parts:one" : "parts:several");
        c.nontrivial(R.hash(img));
      }
    }

    /** The object is what m says, with users' types where it says so. */
    private void same(Ctx c, String path, M m, Object o) {
      for (Spec.Field f : m.t.fields) {
        Object want = m.v[f.idx], got = Bridge.get(o, f);
        if (want instanceof Ref.Part) {
          Ref.Part p = (Ref.Part) want;
          c.check(got != null && got.getClass() == Hooked.type(p.m.t), () -> path + "." + f.name + " is "
              + (got == null ? null : got.getClass()) + " instead of what the registered supplier makes");
          if (!p.only) {
            same(c, path + "." + f.name, p.m, got);
          }
        } else if (want instanceof M && f.t.k == Spec.K.UNION) {
          c.check(got != null && got.getClass() == ((M) want).t.acc.cls, () -> path + "." + f.name + " is " + got);
          same(c, path + "." + f.name, (M) want, got);
        } else {
          String d = M.diff(path + "." + f.name, want, Bridge.fromVal(got));
          c.check(d == null, () -> "decoded " + d);
        }
      }
    }

    private void compare(Src s, Ctx c, Spec.Target t) {
      Gen g = new Gen(s, Gen.Mode.FORMED);
      g.maxList = s.pct(95) ? 6 : 60;
      g.bigLists = 0;
      M m = g.target(t).copy();
      List<Act> acts = new ArrayList<>();
      inner(s, c, m, s.of(new int[] {100, 60, 30}), acts);
      c.label("kind:compared");
      c.show(() -> "compare, hash and print " + R.val(m, 1500));
      if (acts.isEmpty()) {
        return;
      }
      int k = s.upto(acts.size());
      int tags = s.upto(1000);
      int changed = s.upto(3);
      // what does not tell parts apart for equals may be the same or not in their texts; different parts may have the same hash code
      boolean sameText = s.pct(50), sameHash = changed != 1 || s.pct(50);
      BinaryCodec[] r = new BinaryCodec[2];
      List<List<Act>> both = new ArrayList<>();
      for (int i = 0; i < 2; i++) {
        // a second set of acts for the same parts
        List<Act> mine = new ArrayList<>();
        for (int j = 0; j < acts.size(); j++) {
          Act a = new Act(acts.get(j).p, c);
          a.tag = tags + j + (i == 1 && j == k && changed == 1 ? 5000 : 0);
          a.hash = tags * 31 + j + (i == 1 && j == k && !sameHash ? 7000 : 0);
          a.text = "<part " + j + " of " + tags + (i == 1 && !sameText ? " in the other" : "") + ">";
          MADE.get().put(a.p, a);
          mine.add(a);
        }
        both.add(mine);
        if (i == 1 && changed == 2) {
          // the parts' own methods do not look at the fields
          for (Act a : mine) {
            scramble(g, a.p.m);
          }
        }
        r[i] = Bridge.toReal(m, s.pct(50) ? s : null);
      }
      Map<Ref.Part, Integer> seen = new IdentityHashMap<>();
      visible(m, seen);
      boolean equal = changed != 1 || !seen.containsKey(acts.get(k).p);
      boolean e1 = r[0].equals(r[1]), e2 = r[1].equals(r[0]);
      c.check(e1 == equal && e2 == equal, () -> "messages whose parts are " + (equal ? "equal" : "different") + " by their own equals compare as "
          + e1 + " and " + e2);
      int h0 = r[0].hashCode(), h1 = r[1].hashCode();
      if (equal) {
        c.check(h0 == h1, () -> "equal messages have hash codes " + h0 + " and " + h1);
      }
      String[] texts = {r[0].toString(), r[1].toString()};
      String text = texts[0];
      for (int i = 0; i < 2; i++) {
        for (Act a : both.get(i)) {
          String x = texts[i];
          c.check(!seen.containsKey(a.p) || x.contains(a.text), () -> "the textual form of the part (" + a.text + ") does not appear in " + R.q(x.substring(0, Math.min(1500, x.length()))));
        }
      }
      c.label(changed == 1 ? "compared:different part" : changed == 2 ? "compared:equal parts with different fields" : "compared:equal");
      c.nontrivial(R.hash(text.getBytes(java.nio.charset.StandardCharsets.UTF_8)) * 31 + changed);
    }

    /** The users' parts that the message's own methods reach: not what is within another such part. */
    private static void visible(Object v, Map<Ref.Part, Integer> n) {
      if (v instanceof Ref.Part) {
        n.put((Ref.Part) v, 1);
      } else if (v instanceof M) {
        for (Object x : ((M) v).v) {
          visible(x, n);
        }
      } else if (v instanceof List) {
        for (Object x : (List<?>) v) {
          visible(x, n);
        }
      }
    }

    private static void scramble(Gen g, M m) {
      for (Spec.Field f : m.t.fields) {
        if (f.t.num() || f.t.k == Spec.K.STR) {
          m.v[f.idx] = g.value(f.t);
        }
      }
    }
  }

  private P7() {}
}
