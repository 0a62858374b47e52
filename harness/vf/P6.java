package vf;

import com.finproto.codec.BinaryCodec;
import com.finproto.codec.ChecksumService;
import com.finproto.codec.ChecksumServiceFactory;
import io.netty.buffer.ByteBuf;
import io.netty.buffer.Unpooled;
import io.netty.buffer.UnpooledByteBufAllocator;
import io.netty.buffer.UnpooledHeapByteBuf;
import java.nio.ByteBuffer;
import java.util.AbstractList;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.List;
import java.util.RandomAccess;
import java.util.Set;

/** Effort in proportion to the message: C28. */
final class P6 {
  /** A buffer that counts the bytes read from and written to it. */
  static final class Meter extends UnpooledHeapByteBuf {
    long touched;

    Meter(int cap) {
      super(UnpooledByteBufAllocator.DEFAULT, cap, Integer.MAX_VALUE);
    }

    @Override public boolean hasArray() { return false; }
    @Override protected byte _getByte(int i) { touched++; return super._getByte(i); }
    @Override protected short _getShort(int i) { touched += 2; return super._getShort(i); }
    @Override protected short _getShortLE(int i) { touched += 2; return super._getShortLE(i); }
    @Override protected int _getUnsignedMedium(int i) { touched += 3; return super._getUnsignedMedium(i); }
    @Override protected int _getUnsignedMediumLE(int i) { touched += 3; return super._getUnsignedMediumLE(i); }
    @Override protected int _getInt(int i) { touched += 4; return super._getInt(i); }
    @Override protected int _getIntLE(int i) { touched += 4; return super._getIntLE(i); }
    @Override protected long _getLong(int i) { touched += 8; return super._getLong(i); }
    @Override protected long _getLongLE(int i) { touched += 8; return super._getLongLE(i); }
    @Override protected void _setByte(int i, int v) { touched++; super._setByte(i, v); }
    @Override protected void _setShort(int i, int v) { touched += 2; super._setShort(i, v); }
    @Override protected void _setShortLE(int i, int v) { touched += 2; super._setShortLE(i, v); }
    @Override protected void _setMedium(int i, int v) { touched += 3; super._setMedium(i, v); }
    @Override protected void _setMediumLE(int i, int v) { touched += 3; super._setMediumLE(i, v); }
    @Override protected void _setInt(int i, int v) { touched += 4; super._setInt(i, v); }
    @Override protected void _setIntLE(int i, int v) { touched += 4; super._setIntLE(i, v); }
    @Override protected void _setLong(int i, long v) { touched += 8; super._setLong(i, v); }
    @Override protected void _setLongLE(int i, long v) { touched += 8; super._setLongLE(i, v); }

    @Override
    public ByteBuf getBytes(int i, ByteBuf dst, int d, int n) {
      touched += n;
      return super.getBytes(i, dst, d, n);
    }

    @Override
    public ByteBuf getBytes(int i, byte[] dst, int d, int n) {
      touched += n;
      return super.getBytes(i, dst, d, n);
    }

    @Override
    public ByteBuf getBytes(int i, ByteBuffer dst) {
      touched += dst.remaining();
      return super.getBytes(i, dst);
    }

    @Override
    public ByteBuf setBytes(int i, ByteBuf src, int s, int n) {
      touched += n;
      return super.setBytes(i, src, s, n);
    }

    @Override
    public ByteBuf setBytes(int i, byte[] src, int s, int n) {
      touched += n;
      return super.setBytes(i, src, s, n);
    }

    @Override
    public ByteBuf setBytes(int i, ByteBuffer src) {
      touched += src.remaining();
      return super.setBytes(i, src);
    }

    @Override
    public ByteBuf copy(int i, int n) {
      touched += n;
      return super.copy(i, n);
    }

    @Override
    public ByteBuffer nioBuffer(int i, int n) {
      touched += n;
      return super.nioBuffer(i, n);
    }

    @Override
    public ByteBuffer internalNioBuffer(int i, int n) {
      touched += n;
      return super.internalNioBuffer(i, n);
    }

    @Override
    public ByteBuf discardReadBytes() {
      touched += writerIndex();
      return super.discardReadBytes();
    }

    @Override
    public ByteBuf capacity(int n) {
      touched += writerIndex();
      return super.capacity(n);
    }
  }

  /** A list that counts how often its elements are asked for. */
  static final class CountingList extends AbstractList<Object> implements RandomAccess {
    final List<?> l;
    long gets;

    CountingList(List<?> l) {
      this.l = l;
    }

    @Override
    public Object get(int i) {
      gets++;
      return l.get(i);
    }

    @Override
    public int size() {
      return l.size();
    }
  }

  static final class C28 extends Prop {
    static final int CONTEXT = 1 << 18;
    private final List<Spec.Field> fields = new ArrayList<>();
    private final Meter big = new Meter(2 * CONTEXT + (1 << 21));
    private final List<P3.Reg> regs = P3.registries();

    C28() {
      super("C28", 100000, 1500000, true, "a generated message of every type encoded and decoded at generated places of a large buffer; "
          + "lists and texts of 2,000 to 64,000 elements in every field that can have them, encoded, decoded, compared, hashed and "
          + "printed; checksums of windows of a large buffer; registries with 20,000 further entries: bytes touched, list accesses, "
          + "allocation and, for the large sizes, CPU time against bounds linear in the message; non-trivial: at least one byte or "
          + "element; distinct by kind and content");
      for (Spec.Msg m : Bridge.spec.all) {
        for (Spec.Field f : m.fields) {
          if (f.t.k == Spec.K.LIST || f.t.k == Spec.K.DSTR) {
            fields.add(f);
          }
        }
      }
    }

    @Override
    long[] prefix(long i) {
      // first every field at two scales and every registry, then messages in a context
      int f = fields.size();
      if (i < f) {
        return new long[] {1, i};
      }
      if (i < 2 * f) {
        return new long[] {2, i - f};
      }
      if (i < 2 * f + regs.size() + 1) {
        return new long[] {3, i - 2 * f};
      }
      if (i % 500 == 0) {
        return new long[] {1 + i / 500 % 2, i / 1000 % f};
      }
      return i % 20 == 3 ? new long[] {4} : i % 50 == 7 ? new long[] {5} : i % 200 == 11 ? new long[] {6} : new long[] {0, i % Bridge.spec.targets.size()};
    }

    static long allocated() {
      return Main.TMX.getThreadAllocatedBytes(Thread.currentThread().getId());
    }

    static long cpu() {
      return Main.TMX.getCurrentThreadCpuTime();
    }

    @Override
    void run(Src s, Ctx c) {
      switch (s.upto(7)) {
        case 0: context(s, c); break;
        case 1: counted(s, c); break;
        case 2: timed(s, c); break;
        case 3: registries(s, c); break;
        case 4: checksums(s, c); break;
        case 5: fixed(s, c); break;
        default: nested(s, c);
      }
    }

    /** A user's body that counts how often it is used. */
    static final class Leaf implements BinaryCodec {
      static final int[] USES = new int[5];

      @Override
      public void encode(ByteBuf b) {
        USES[0]++;
        b.writeShort(77);
      }

      @Override
      public void decode(ByteBuf b) {
        USES[1]++;
        b.readShort();
      }

      @Override
      public int hashCode() {
        USES[2]++;
        return 77;
      }

      @Override
      public boolean equals(Object o) {
        USES[3]++;
        return o instanceof Leaf;
      }

      @Override
      public String toString() {
        USES[4]++;
        return "leaf";
      }
    }

    /** Frames in frames: what lies within must not be visited again and again by every frame around it. */
    private void nested(Src s, Ctx c) {
      int depth = 8 + s.upto(6);
      List<Spec.Msg> fs = Bridge.spec.frames;
      Spec.Msg[] ts = new Spec.Msg[depth];
      boolean one = s.pct(50);
      for (int i = 0; i < depth; i++) {
        ts[i] = one && i > 0 ? ts[0] : fs.get(s.upto(fs.size()));
      }
      c.label("kind:frames in frames");
      c.show(() -> "frames in frames: " + java.util.Arrays.toString(ts));
      BinaryCodec a = new Leaf(), b = new Leaf();
      Object[] key = new Object[2];
      for (int i = 0; one && i < 2; i++) {
        Spec.Type keyField = ts[0].fields.get(ts[0].union.t.otherIdx).t;
        key[i] = P3.unknownKey(s, ts[0].union.t, keyField);
      }
      if (one && key[0].equals(key[1])) {
        return;
      }
      for (int i = depth - 1; i >= 0; i--) {
        for (int k = 0; k < 2; k++) {
          BinaryCodec f = Bridge.fresh(ts[i]);
          Bridge.set(f, ts[i].union, k == 0 ? a : b);
          if (one) {
            Bridge.set(f, ts[i].fields.get(ts[i].union.t.otherIdx), key[i == depth - 1 ? 1 : 0]);
          }
          if (k == 0) {
            a = f;
          } else {
            b = f;
          }
        }
      }
      int bound = 4 * depth + 16;
      Meter buf = new Meter(4096);
      P3.Reg reg = null;
      for (P3.Reg r : regs) {
        if (r.owner == ts[0]) {
          reg = r;
        }
      }
      for (int op = 0; op < 5; op++) {
        String what = op(op);
        java.util.Arrays.fill(Leaf.USES, 0);
        buf.touched = 0;
        if (op == 1) {
          if (!one) {
            continue;
          }
          Spec.Msg t = ts[0];
          try {
            reg.register(P3.UserMsg.class, key[0], () -> Bridge.fresh(t));
            reg.register(P3.UserMsg.class, key[1], Leaf::new);
            Bridge.fresh(t).decode(buf);
          } finally {
            reg.remove(key[0]);
            reg.remove(key[1]);
          }
          c.check(Leaf.USES[1] > 0, () -> "the innermost body was not decoded");
        } else if (op == 0) {
          a.encode(buf);
          b.encode(new Meter(4096));
        } else {
          perform(op, a, b, buf, a);
        }
        for (int u = 0; u < 5; u++) {
          int n = Leaf.USES[u], uu = u;
          c.check(n <= bound, () -> what + " " + depth + " frames in each other used the innermost body " + n + " times (" + op(uu) + ")");
        }
        int len = buf.writerIndex();
        long touched = buf.touched;
        c.check(touched <= 16L * (depth + 2) * len + 2048, () -> what + " " + depth + " frames in each other (" + len + " bytes) read or wrote " + touched + " bytes");
      }
      long h = depth;
      for (Spec.Msg t : ts) {
        h = h * 31 + t.num;
      }
      c.nontrivial(h);
    }

    /** Fixed-width texts in wide fields, with much padding or little. */
    private void fixed(Src s, Ctx c) {
      int n = 500 + s.upto(3500);
      int k = s.pct(25) ? 0 : s.pct(30) ? n : s.pct(50) ? s.upto(n) : s.upto(Math.min(n, 12));
      char pad = s.of(new Character[] {' ', '0', 0, '\t', '*'});
      boolean left = s.pct(50), plain = pad == ' ' && s.pct(30);
      boolean padded = s.pct(20);
      StringBuilder v = new StringBuilder();
      for (int i = 0; i < k; i++) {
        v.append(padded && i > 0 && i < k - 1 ? pad : (char) ('a' + (i * 7 + k) % 26));
      }
      String text = v.toString();
      c.label("kind:wide fixed text");
      c.show(() -> "a text of " + text.length() + " in a field of " + n + " with pad " + (int) pad + (left ? " left" : " right") + (plain ? ", plain" : ""));
      long[][] a = new long[2][2];
      for (int r = 0; r < 2; r++) {
        // the field, and one of a quarter of its width
        int w = r == 0 ? n / 4 : n;
        String x = r == 0 ? text.substring(0, k / 4) : text;
        Meter b = new Meter(n + 64);
        long a0 = allocated();
        if (plain) {
          P2.PRIM.writeFixedString(b, x, w);
        } else {
          P2.PRIM.writeFixedString(b, x, w, pad, left);
        }
        a[r][0] = allocated() - a0;
        a0 = allocated();
        String y = plain ? P2.PRIM.readFixedString(b, w) : P2.PRIM.readFixedString(b, w, pad, left);
        a[r][1] = allocated() - a0;
        if (y.length() > w) {
          throw new Fail("longer than the field");
        }
        long t = b.touched;
        c.check(t <= 16L * w + 2048, () -> "writing and reading a field of " + w + " bytes touched " + t + " bytes of the buffer");
      }
      for (int op = 0; op < 2; op++) {
        long x = a[0][op], y = a[1][op];
        String what = op == 0 ? "writing" : "reading";
        c.check(y <= 9 * x + 65536 && y <= 200L * n + 65536, () -> what + " fields of " + n / 4 + " and " + n + " bytes allocated " + x + " and "
            + y + " bytes");
      }
      c.nontrivial(R.hash(text.getBytes(java.nio.charset.StandardCharsets.ISO_8859_1)) * 31 + n + pad);
    }

    /** A message at some place of a large buffer. */
    private void context(Src s, Ctx c) {
      Spec.Target t = P1.target(s);
      Gen g = new Gen(s, Gen.Mode.FORMED);
      g.maxList = s.pct(95) ? 6 : 200;
      M m = g.target(t);
      byte[] img = Ref.encode(m);
      int len = img.length;
      int before = s.pct(50) ? CONTEXT : s.upto(CONTEXT);
      int read = s.pct(50) ? 0 : s.upto(before + 1);
      int after = s.pct(50) ? CONTEXT : s.upto(CONTEXT);
      c.label("kind:message in a large buffer");
      c.show(() -> R.val(m, 800) + " at " + before + " of a buffer read up to " + read + ", " + after + " bytes after it");
      BinaryCodec r = Bridge.toReal(m, null);
      // alone
      Meter own = new Meter(len + 64);
      long a0 = allocated();
      r.encode(own);
      long encAlone = allocated() - a0;
      BinaryCodec d = Bridge.fresh(t.msg);
      a0 = allocated();
      d.decode(own);
      long decAlone = allocated() - a0;
      // in the large buffer
      big.setIndex(read, before);
      big.touched = 0;
      a0 = allocated();
      r.encode(big);
      long encBig = allocated() - a0;
      long touched = big.touched;
      c.check(touched <= 16L * len + 2048, () -> "encoding " + len + " bytes at position " + before + " of a buffer read or wrote "
          + touched + " bytes of it");
      for (int k = 0; k < 3 && encBig > 3 * encAlone + 32768; k++) {
        big.setIndex(read, before);
        a0 = allocated();
        r.encode(big);
        encBig = Math.min(encBig, allocated() - a0);
      }
      long eb = encBig;
      c.check(encBig <= 3 * encAlone + 32768, () -> "encoding " + len + " bytes allocated " + eb + " bytes at position " + before
          + " of a buffer, " + encAlone + " in one of its own");
      int end = big.writerIndex();
      big.setIndex(before, end + after);
      BinaryCodec e = Bridge.fresh(t.msg);
      big.touched = 0;
      a0 = allocated();
      e.decode(big);
      long decBig = allocated() - a0;
      long touched2 = big.touched;
      c.check(touched2 <= 16L * len + 2048, () -> "decoding " + len + " bytes, with " + after + " more in the buffer, read or wrote "
          + touched2 + " bytes of it");
      for (int k = 0; k < 3 && decBig > 3 * decAlone + 32768; k++) {
        big.setIndex(before, end + after);
        BinaryCodec e2 = Bridge.fresh(t.msg);
        a0 = allocated();
        e2.decode(big);
        decBig = Math.min(decBig, allocated() - a0);
      }
      long db = decBig;
      c.check(decBig <= 3 * decAlone + 32768, () -> "decoding " + len + " bytes allocated " + db + " bytes with " + after
          + " more bytes in the buffer, " + decAlone + " without");
      if (len > 0) {
        c.nontrivial(R.hash(img) * 31 + before);
      }
    }

    /** A message of f's type with n elements or bytes in f. */
    private static M sized(Src s, Spec.Field f, int n, int shape) {
      Gen g = new Gen(s, Gen.Mode.CANON);
      g.maxList = 0;
      M m = g.msg(f.owner, -1);
      if (f.t.k == Spec.K.DSTR) {
        StringBuilder b = new StringBuilder();
        for (int i = 0; b.length() < n; i++) {
          b.append(shape == 0 ? 'x' : (char) ('a' + i * 7 % 26));
        }
        m.v[f.idx] = b.toString();
        return m;
      }
      List<Object> l = new ArrayList<>();
      Object one = element(g, f.t.elem, 0);
      for (int i = 0; i < n; i++) {
        l.add(shape == 0 ? one : element(g, f.t.elem, i));
      }
      m.v[f.idx] = l;
      return m;
    }

    private static Object element(Gen g, Spec.Type t, int i) {
      if (t.num()) {
        return M.num(t, i * 31L + 1);
      }
      if (t.k == Spec.K.F32) {
        return (float) i + 1;
      }
      if (t.k == Spec.K.F64) {
        return (double) i + 1;
      }
      if (t.k == Spec.K.STR || t.k == Spec.K.DSTR) {
        String x = Integer.toString(i * 7 + 1, 36);
        return t.k == Spec.K.STR && x.length() > t.width ? x.substring(0, t.width) : x;
      }
      g.maxList = 0;
      return g.elem(t);
    }

    /** What is counted, on lists and texts of 2,000 and 8,000. */
    private void counted(Src s, Ctx c) {
      Spec.Field f = fields.get(s.upto(fields.size()));
      int shape = s.upto(2);
      long seed = s.raw();
      c.label("kind:counted, " + (f.t.k == Spec.K.LIST ? "list" : "text"));
      c.show(() -> f + " with 2,000 and 8,000 elements, " + (shape == 0 ? "all alike" : "different"));
      long[][] alloc = new long[2][5];
      int[] ns = {2000, 8000};
      for (int k = 0; k < 2; k++) {
        int n = ns[k];
        M m = sized(new Src(seed, null), f, n, shape);
        BinaryCodec r = Bridge.toReal(m, null);
        BinaryCodec q = Bridge.toReal(m, null);
        CountingList l = null;
        if (f.t.k == Spec.K.LIST) {
          l = new CountingList((List<?>) Bridge.get(r, f));
          Bridge.set(r, f, l);
        }
        int len = Ref.encode(m).length;
        Meter b = new Meter(len + 64);
        for (int op = 0; op < 5; op++) {
          BinaryCodec d = Bridge.fresh(f.owner);
          b.touched = 0;
          if (l != null) {
            l.gets = 0;
          }
          String what = op(op);
          long a0 = allocated();
          perform(op, r, q, b, d);
          alloc[k][op] = allocated() - a0;
          long touched = b.touched;
          c.check(touched <= 16L * len + 2048, () -> what + " " + len + " bytes read or wrote " + touched + " bytes of the buffer");
          if (l != null) {
            long gets = l.gets;
            c.check(gets <= 16L * n + 64, () -> what + " a message with a list of " + n + " elements asked for elements " + gets + " times");
          }
        }
      }
      for (int op = 0; op < 5; op++) {
        long x = alloc[0][op], y = alloc[1][op];
        String what = op(op);
        c.check(y <= 9 * x + 262144, () -> what + " allocated " + x + " bytes for 2,000 elements and " + y + " for 8,000");
      }
      c.nontrivial(seed * 31 + f.idx);
    }

    private static String op(int op) {
      return new String[] {"encoding", "decoding", "hashing", "comparing", "printing"}[op];
    }

    private static int perform(int op, BinaryCodec r, BinaryCodec q, ByteBuf b, BinaryCodec d) {
      switch (op) {
        case 0:
          b.clear();
          r.encode(b);
          return 0;
        case 1:
          b.readerIndex(0);
          d.decode(b);
          return 0;
        case 2: return r.hashCode();
        case 3: return r.equals(q) ? 1 : 0;
        default: return r.toString().length();
      }
    }

    /** CPU time of lists and texts of 4,000 and 64,000. */
    private void timed(Src s, Ctx c) {
      Spec.Field f = fields.get(s.upto(fields.size()));
      int shape = s.upto(2);
      long seed = s.raw();
      c.label("kind:timed");
      c.show(() -> f + " with 4,000 and 64,000 elements, " + (shape == 0 ? "all alike" : "different"));
      BinaryCodec[] r = new BinaryCodec[2], q = new BinaryCodec[2];
      ByteBuf[] b = new ByteBuf[2];
      for (int k = 0; k < 2; k++) {
        M m = sized(new Src(seed, null), f, k == 0 ? 4000 : 64000, shape);
        r[k] = Bridge.toReal(m, null);
        q[k] = Bridge.toReal(m, null);
        b[k] = Unpooled.buffer(1 << 20);
      }
      for (int op = 0; op < 5; op++) {
        long[] t = {Long.MAX_VALUE, Long.MAX_VALUE};
        // linear: 16; every doubt is resolved by measuring again
        for (int tries = 0; tries < 8; tries++) {
          for (int k = 0; k < 2; k++) {
            BinaryCodec d = Bridge.fresh(f.owner);
            long c0 = cpu();
            perform(op, r[k], q[k], b[k], d);
            t[k] = Math.min(t[k], cpu() - c0);
          }
          if (t[1] < 40_000_000L || t[1] < 80 * Math.max(1, t[0])) {
            break;
          }
          if (tries == 7) {
            throw new Fail(op(op) + " takes " + t[0] / 1000 + " us of CPU time for 4,000 elements of " + f + " and " + t[1] / 1000 + " us for 64,000");
          }
        }
        c.checks++;
      }
      c.nontrivial(seed * 31 + f.idx);
    }

    private void registries(Src s, Ctx c) {
      int w = s.upto(regs.size() + 1);
      c.label("kind:registry");
      int n = 20000;
      if (w == regs.size()) {
        ChecksumServiceFactory x = ChecksumServiceFactory.getInstance();
        c.show(() -> "20,000 further checksum services");
        List<ChecksumService<?, ?>> added = new ArrayList<>();
        try {
          slow(c, "looking up a checksum service", () -> x.getChecksumService("CRC32"), () -> {
            for (int i = 0; i < n; i++) {
              P2.Custom u = new P2.Custom("further " + i, i);
              added.add(u);
              x.registry(u);
            }
          });
        } finally {
          for (ChecksumService<?, ?> u : added) {
            x.removeChecksumService(u.algorithm());
          }
        }
        c.nontrivial(w);
        return;
      }
      P3.Reg reg = regs.get(w);
      Spec.Type u = reg.owner.union.t;
      Object key = u.keys.get(s.upto(u.keys.size()));
      Class<?> kc = key.getClass();
      c.show(() -> "20,000 further entries in the registry of " + reg.owner);
      Set<Object> known = new HashSet<>(u.keys);
      List<Object> added = new ArrayList<>();
      try {
        slow(c, "creating a part of " + reg.owner, () -> reg.create(key), () -> {
          for (int i = 0; added.size() < n && i < 2 * n; i++) {
            Object k = kc == String.class ? Integer.toString(i, 36) : kc == Short.class ? (Object) (short) i : kc == Byte.class ? (Object) (byte) i
                : kc == Long.class ? (Object) (long) i : (Object) i;
            if (!known.contains(k) && (kc != Short.class && kc != Byte.class || i < 65536)) {
              reg.register(P3.UserMsg.class, k, () -> new P3.UserMsg(1));
              added.add(k);
            }
          }
        });
      } finally {
        for (Object k : added) {
          reg.remove(k);
        }
      }
      c.nontrivial(w);
    }

    private static void slow(Ctx c, String what, Runnable use, Runnable grow) {
      int uses = 5000;
      long before = Long.MAX_VALUE;
      for (int k = 0; k < 4; k++) {
        before = Math.min(before, time(use, uses));
      }
      grow.run();
      long after = Long.MAX_VALUE;
      for (int k = 0; k < 8; k++) {
        after = Math.min(after, time(use, uses));
        if (after < 50_000_000L || after < 40 * before) {
          break;
        }
      }
      long b = before, a = after;
      c.check(a < 50_000_000L || a < 40 * b, () -> what + " " + uses + " times takes " + b / 1000 + " us of CPU time, and " + a / 1000
          + " us with 20,000 further entries");
    }

    private static long time(Runnable r, int n) {
      long c0 = cpu();
      for (int i = 0; i < n; i++) {
        r.run();
      }
      return cpu() - c0;
    }

    private void checksums(Src s, Ctx c) {
      String a = s.of(P2.ALGOS);
      int len = s.pct(80) ? s.upto(300) : s.upto(20000);
      int at = s.upto(CONTEXT);
      c.label("kind:checksum");
      c.show(() -> a + " of " + len + " bytes at " + at + " of a large buffer");
      ChecksumService<ByteBuf, Integer> x = ChecksumServiceFactory.getInstance().getChecksumService(a);
      big.setIndex(at, at + len);
      big.touched = 0;
      long a0 = allocated();
      x.calc(big);
      long al = allocated() - a0;
      long touched = big.touched;
      c.check(touched <= 16L * len + 2048, () -> "the " + a + " of " + len + " bytes read or wrote " + touched + " bytes of the buffer");
      c.check(al <= 16L * len + 65536, () -> "the " + a + " of " + len + " bytes allocated " + al + " bytes");
      if (len > 0) {
        c.nontrivial(at * 31L + len + a.hashCode());
      }
    }
  }

  private P6() {}
}
