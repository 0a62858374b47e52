package vf;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.ByteBuf;
import io.netty.buffer.Unpooled;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/** Properties of encode and decode of messages: C01-C04, C08-C12, C22. */
final class P1 {
  static Spec.Target target(Src s) {
    return Bridge.spec.targets.get(s.upto(Bridge.spec.targets.size()));
  }

  static long[] byTarget(long i) {
    return new long[] {i % Bridge.spec.targets.size()};
  }

  static byte[] enc(BinaryCodec r) {
    ByteBuf b = Unpooled.buffer();
    r.encode(b);
    return Bufs.content(b, 0, b.writerIndex());
  }

  /** Rarely, a position millions of bytes into a buffer; else 0. */
  static int far(Src s) {
    int n = Focus.changed.isEmpty() ? 4000 : 1600;
    int k = n - s.upto(n);
    if (k > 10) {
      return 0;
    }
    if (k > 2 || Runtime.getRuntime().maxMemory() < 1000L << 20) {
      return s.of(new int[] {1 << 17, 1 << 18, 1 << 20, 1 << 21, 1 << 22}) - 8 + s.upto(24);
    }
    return s.of(new int[] {1 << 23, 1 << 24}) - 8 + s.upto(24);
  }

  private static final int[] UNITS = {64, 128, 256, 512, 1024, 4096, 8192, 16384, 65536};

  /** Bytes to put at a position so that len bytes after them begin or end at, or beside, a round position. */
  static int gap(Src s, int at, int len) {
    int u = s.of(UNITS) * (1 + s.upto(2));
    int to = at + (s.pct(50) ? len : 0) + s.of(new int[] {0, 0, 1, -1});
    return (u - to % u) % u;
  }

  /** Encodes into a plain buffer or, in three cases of ten, somewhere in one of any kind. */
  static byte[] encAnyhow(Src s, Ctx c, BinaryCodec r, int len) {
    int far = far(s);
    if (far > 0) {
      boolean direct = s.pct(30), read = s.pct(50);
      c.show(() -> "into a buffer after " + far + (read ? " read" : "") + " bytes");
      c.label("buffer:far");
      ByteBuf b = direct ? c.own(Unpooled.directBuffer(far + 64)) : Unpooled.buffer(far + 64);
      b.writeZero(far);
      if (read) {
        b.readerIndex(far);
      }
      r.encode(b);
      return Bufs.content(b, far, b.writerIndex() - far);
    }
    if (!s.pct(30)) {
      return enc(r);
    }
    int n = s.pick(20, 40, 25, 12, 3);
    byte[] pre = s.bytes(n == 0 ? 0 : n == 1 ? s.upto(16) : n == 2 ? s.upto(300) : n == 3 ? 256 * s.upto(8) : s.pct(40) ? s.upto(70000) : 65500 + s.upto(400));
    // where the room needed is not known, only the kinds that grow
    int kind = len < 0 ? s.of(GROWING) : s.upto(Bufs.WRITE_KINDS.length);
    ByteBuf b = Bufs.writer(c, s, pre, len < 0 ? 10 : len, kind);
    if (s.pct(40)) {
      b.readerIndex(b.writerIndex());
    }
    c.show(() -> "into a " + Bufs.WRITE_KINDS[kind] + " buffer read up to " + b.readerIndex() + ", after " + pre.length + " bytes");
    r.encode(b);
    return Bufs.content(b, pre.length, b.writerIndex() - pre.length);
  }

  /** A buffer with the image, plain or, in three cases of ten, of any kind. */
  static ByteBuf anyReader(Src s, Ctx c, byte[] data) {
    int far = far(s);
    if (far > 0) {
      boolean before = s.pct(60);
      c.show(() -> "from a buffer with " + far + " bytes " + (before ? "before" : "after") + " it");
      c.label("buffer:far");
      ByteBuf b = Unpooled.buffer(far + data.length + 1);
      return before ? b.writeZero(far).writeBytes(data).readerIndex(far)
          : b.writeBytes(data).writeZero(far).writerIndex(data.length);
    }
    if (!s.pct(30)) {
      int off = s.pct(98) ? s.upto(6) : 65500 + s.upto(200);
      return Unpooled.buffer(off + data.length + 1).writeZero(off).writeBytes(data).readerIndex(off);
    }
    int kind = s.upto(Bufs.READ_KINDS.length);
    c.show(() -> "from a " + Bufs.READ_KINDS[kind] + " buffer");
    return Bufs.reader(c, s, data, kind, data);
  }

  /** A message to decode into or to set: new or, in one case of six, used before. */
  static BinaryCodec anyObject(Src s, Ctx c, Spec.Target t) {
    if (!s.pct(16)) {
      return Bridge.fresh(t.msg);
    }
    Gen g = new Gen(s, Gen.Mode.FORMED);
    g.maxList = 6;
    g.bigLists = 0;
    M old = g.target(s.pct(50) ? t : new Spec.Target(t.msg, -1));
    c.show(() -> "on an object that was " + R.val(old, 600));
    c.label("object:used before");
    BinaryCodec r;
    if (s.pct(50)) {
      r = Bridge.fresh(t.msg);
      r.decode(Unpooled.wrappedBuffer(Ref.encode(old)));
    } else {
      r = Bridge.toReal(old, null);
      if (s.pct(70)) {
        enc(r);
      }
    }
    if (s.pct(30)) {
      r.hashCode();
      r.toString();
    }
    return r;
  }

  static final byte[] CANNOT = "cannot be encoded".getBytes();

  static byte[] tryEnc(BinaryCodec r) {
    try {
      return enc(r);
    } catch (RuntimeException e) {
      return CANNOT;
    }
  }

  static boolean trivial(M m) {
    return M.same(m, new M(m.t));
  }

  static void labels(Ctx c, M m, byte[] image) {
    c.label("module:" + m.t.mod.name);
    if (m.t.frame()) {
      c.label("type:frame");
    }
    if (m.t.union != null) {
      Object u = m.get(m.t.union);
      c.label("body-or-extension:" + (u == null ? "absent" : u instanceof M
          ? (((M) u).t == m.t.union.t.cases.get(m.v[m.t.union.t.otherIdx]) ? "as-selected" : "other-type") : "user-codec"));
    }
    int n = image.length;
    c.label("image:" + (n == 0 ? "empty" : n < 32 ? "<32" : n < 256 ? "32-255" : n < 4096 ? "256-4095"
        : n < 65536 ? "4096-65535" : ">=65536"));
    boolean neg = false, bigList = false, emptyList = false, wide = false, over = false, unset = false;
    for (Spec.Field f : m.t.fields) {
      Object v = m.v[f.idx];
      if (v instanceof Number && !(v instanceof Float) && !(v instanceof Double) && ((Number) v).longValue() < 0) {
        neg = true;
      }
      if (f.t.k == Spec.K.LIST) {
        int z = v == null ? 0 : ((List<?>) v).size();
        bigList |= z > 255;
        emptyList |= z == 0;
      }
      if (v instanceof String) {
        String x = (String) v;
        if (f.t.k == Spec.K.STR && x.length() > f.t.width) {
          over = true;
        }
        for (int i = 0; i < x.length() && i < 64; i++) {
          wide |= x.charAt(i) > 127;
        }
      }
      unset |= v == null;
    }
    if (neg) c.label("has:negative-number");
    if (bigList) c.label("has:list>255");
    if (emptyList) c.label("has:empty-list");
    if (wide) c.label("has:multibyte-text");
    if (over) c.label("has:overlong-text");
    if (unset) c.label("has:unset-field");
  }

  static void bytesEqual(Ctx c, String what, byte[] exp, byte[] act) {
    c.checks++;
    if (!Arrays.equals(exp, act)) {
      throw new Fail(what + ": " + R.cmp(exp, act));
    }
  }

  static void noDiff(Ctx c, String what, M exp, BinaryCodec real) {
    c.checks++;
    String d = M.diff(exp.t.simple(), exp, Bridge.fromReal(real));
    if (d != null) {
      throw new Fail(what + ": " + d);
    }
  }

  static final class C01 extends Prop {
    C01() {
      super("C01", 1200000, 9600000, false, "one message of a type (types and union cases in turn) with generated "
          + "field values, encoded and compared byte by byte with the reference encoder; non-trivial: some field is "
          + "not at its default; distinct by type and image");
    }

    @Override
    long[] prefix(long i) {
      return byTarget(i);
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t = target(s);
      Gen g = new Gen(s, Gen.Mode.ANY);
      g.raws = true;
      M m = g.target(t);
      c.show(() -> m.toString());
      BinaryCodec real = anyObject(s, c, t);
      Bridge.fill(real, m, s);
      byte[] exp = Ref.encode(m);
      byte[] act = encAnyhow(s, c, real, exp.length);
      labels(c, m, exp);
      bytesEqual(c, "encoding of " + t.msg, exp, act);
      if (s.pct(20)) {
        bytesEqual(c, "encoding of " + t.msg + " again", exp, encAnyhow(s, c, real, exp.length));
      }
      if (!trivial(m)) {
        c.nontrivial(R.hash(exp) * 31 + t.msg.num);
      }
    }
  }

  static final class C02 extends Prop {
    C02() {
      super("C02", 1000000, 8000000, false, "a well-formed byte image of a message type, produced by the reference "
          + "encoder from generated values (any number bits, any text content), followed by other bytes, decoded by "
          + "the code under test and compared with the reference decoder; non-trivial: image not all zero or blank; "
          + "distinct by type and image");
    }

    @Override
    long[] prefix(long i) {
      return byTarget(i);
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t = target(s);
      M m = new Gen(s, Gen.Mode.FORMED).target(t);
      byte[] img = Ref.encode(m);
      Ref.In in = new Ref.In(img, 0, img.length);
      M exp = Ref.decode(t.msg, in);
      if (in.pos != img.length || in.malformed || in.lenBad || in.sumBad) {
        throw new IllegalStateException("reference codec disagrees with itself on " + m);
      }
      c.show(() -> t.msg + " image " + R.hex(img, 400) + " denotes " + exp);
      labels(c, exp, img);
      byte[] tail = s.bytes(s.pct(95) ? s.upto(9) : s.upto(3000));
      byte[] data = Arrays.copyOf(img, img.length + tail.length);
      System.arraycopy(tail, 0, data, img.length, tail.length);
      BinaryCodec r = anyObject(s, c, t);
      ByteBuf b = anyReader(s, c, data);
      int off = b.readerIndex();
      r.decode(b);
      noDiff(c, "decoding", exp, r);
      c.check(b.readerIndex() == off + img.length, () -> "decoding consumed " + (b.readerIndex() - off)
          + " bytes of an image of " + img.length);
      if (!trivial(exp)) {
        c.nontrivial(R.hash(img) * 31 + t.msg.num);
      }
    }
  }

  static final class C03 extends Prop {
    C03() {
      super("C03", 900000, 7200000, false, "a message whose texts fit and carry no pad characters on the padded side, "
          + "encoded, decoded into a new object, compared with equals/hashCode both ways, and encoded again; "
          + "non-trivial: some field is not at its default; distinct by type and image");
    }

    @Override
    long[] prefix(long i) {
      return byTarget(i);
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t = target(s);
      M m = new Gen(s, Gen.Mode.CANON).target(t);
      c.show(() -> m.toString());
      BinaryCodec a = anyObject(s, c, t);
      Bridge.fill(a, m, s);
      byte[] x = encAnyhow(s, c, a, -1);
      labels(c, m, x);
      BinaryCodec b = anyObject(s, c, t);
      ByteBuf buf = anyReader(s, c, x);
      b.decode(buf);
      c.check(buf.readableBytes() == 0, () -> "decoding left " + buf.readableBytes() + " of " + x.length + " bytes");
      c.check(a.equals(b), () -> "decoded message differs from the original: " + why(a, b));
      c.check(b.equals(a), () -> "original differs from the decoded message: " + why(a, b));
      String d = M.same(Bridge.fromReal(a), Bridge.fromReal(b)) ? null : why(a, b);
      c.check(d == null, () -> "fields differ although equals holds: " + d);
      c.check(a.hashCode() == b.hashCode(), () -> "hash codes differ");
      bytesEqual(c, "encoding the decoded message again", x, enc(b));
      bytesEqual(c, "encoding the original again", x, enc(a));
      if (!trivial(m)) {
        c.nontrivial(R.hash(x) * 31 + t.msg.num);
      }
    }

    static String why(BinaryCodec a, BinaryCodec b) {
      M x = Bridge.fromReal(a);
      M y = Bridge.fromReal(b);
      String d = M.diff(x.t.simple(), x, y);
      return d != null ? d : R.val(x, 800) + " against " + R.val(y, 800);
    }
  }

  static final class C04 extends Prop {
    C04() {
      super("C04", 250000, 2000000, false, "a frame of one of the five kinds with a generated body (protocol message, "
          + "message of another type, user codec of any size, none), arbitrary preset length, written at any offset, "
          + "then again after the body is replaced; header compared with the bytes that follow; non-trivial: non-empty "
          + "body; distinct by frame bytes");
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % Bridge.spec.frames.size()};
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Msg t = Bridge.spec.frames.get(s.upto(Bridge.spec.frames.size()));
      boolean huge = s.below(5000) == 4999;
      int off = huge ? s.of(HUGE) : s.pct(90) ? s.upto(40) : s.upto(70000);
      ByteBuf buf = s.pct(60) ? Unpooled.buffer(1 + s.upto(64)).writeBytes(s.bytes(off)).readerIndex(s.upto(off + 1))
          : Bufs.writer(c, s, s.bytes(off), 10, s.of(GROWING));
      BinaryCodec frame = null;
      int rounds = 1 + s.upto(3);
      for (int i = 0; i < rounds; i++) {
        Gen g = new Gen(s, Gen.Mode.ANY);
        g.raws = true;
        M m = g.msg(t, -1);
        if (s.pct(20)) {
          int[] big = {255, 256, 32767, 32768, 65535, 65536, 65537, 100000, 1 << 20, 0, 1};
          m.v[t.union.idx] = new Ref.Raw(s.bytes(s.of(big)));
        } else if (huge && i == 0) {
          m.v[t.union.idx] = new Ref.Raw(s.bytes(s.of(HUGE)));
        }
        M shown = m.copy();
        c.show(() -> "at " + buf.writerIndex() + ": " + R.val(shown, 1500));
        if (frame == null) {
          frame = Bridge.toReal(m, s);
        } else {
          Bridge.fill(frame, m, s); // same object, new fields and body
        }
        int start = buf.writerIndex();
        frame.encode(buf);
        int total = buf.writerIndex() - start;
        byte[] got = Bufs.content(buf, start, total);
        byte[] exp = Ref.encode(m);
        int head = 0;
        for (Spec.Field f : t.fields) {
          if (f == t.union) {
            break;
          }
          head += f.t.width;
        }
        int trailer = 0;
        for (int k = t.union.idx + 1; k < t.fields.size(); k++) {
          trailer += t.fields.get(k).t.width;
        }
        int body = total - head - trailer;
        Object b = m.v[t.union.idx];
        c.label("frame:" + t.name);
        c.label("body:" + (b == null ? "none" : body == 0 ? "zero bytes" : body < 256 ? "<256" : body < 65536 ? "256-65535" : ">=65536"));
        bytesEqual(c, "header of " + t, Arrays.copyOf(exp, head), Arrays.copyOf(got, Math.min(head, got.length)));
        if (t.len != null) {
          int stated = (int) new Ref.In(got, headPos(t), got.length).num(4, t.mod.le);
          c.check(stated == body, () -> "header states " + stated + " but " + body + " body bytes follow");
          Object back = Bridge.get(frame, t.len);
          c.check(back.equals(body), () -> "frame object says length " + back + " but the body has " + body + " bytes");
        }
        if (t.name.equals("BjseBinary")) {
          bytesEqual(c, "checksum of the caller", Arrays.copyOfRange(exp, exp.length - 4, exp.length),
              Arrays.copyOfRange(got, total - 4, total));
        }
        c.check(exp.length == total, () -> "frame has " + total + " bytes, layout gives " + exp.length);
        if (body > 0) {
          c.nontrivial(R.hash(got));
        }
      }
    }

    static int headPos(Spec.Msg t) {
      int p = 0;
      for (Spec.Field f : t.fields) {
        if (f == t.len) {
          return p;
        }
        p += f.t.width;
      }
      throw new AssertionError();
    }
  }

  static final int[] HUGE = {(1 << 24) - 1, 1 << 24, (1 << 24) + 1, 20000000, 1, 300};
  static final int[] GROWING = {0, 1, 2, 3, 4, 5, 6, 9, 10, 12, 13, 14};

  static final class C08 extends Prop {
    C08() {
      super("C08", 200000, 1600000, false, "a history of writing messages and frames to one growing buffer, reading "
          + "them back, and discarding read bytes, against a queue of expected messages; after every step the earlier "
          + "bytes and the read position are checked; non-trivial: at least two messages and one read between writes "
          + "or a frame after unread bytes; distinct by all bytes");
    }

    @Override
    long[] prefix(long i) {
      return null;
    }

    @Override
    void run(Src s, Ctx c) {
      ByteBuf b = Bufs.writer(c, s, s.bytes(s.upto(4)), s.upto(30), s.of(GROWING));
      int far = far(s);
      if (far > 0) {
        b.writeZero(far);
        c.show(() -> "after " + far + " read bytes");
        c.label("buffer:far");
      }
      b.readerIndex(b.writerIndex());
      List<M> queue = new ArrayList<>();
      List<Integer> sizes = new ArrayList<>();
      int ops = 2 + s.upto(12);
      int writes = 0, reads = 0;
      boolean mixed = false, frameAfter = false;
      long h = 0;
      for (int i = 0; i < ops; i++) {
        int op = s.pick(55, 35, 6, 4);
        if (op == 0) {
          Spec.Target t = s.pct(35) ? new Spec.Target(Bridge.spec.frames.get(s.upto(Bridge.spec.frames.size())), -1) : target(s);
          Gen g = new Gen(s, Gen.Mode.FORMED);
          g.maxList = 40;
          g.bigLists = 0;
          M m = g.target(t);
          BinaryCodec r = Bridge.toReal(m, s);
          byte[] exp = Ref.encode(m);
          if (s.pct(4)) {
            int fill = gap(s, b.writerIndex(), exp.length);
            c.show(() -> "write " + fill + " zeros");
            b.writeZero(fill);
            queue.add(null);
            sizes.add(fill);
          }
          int ri = b.readerIndex(), wi = b.writerIndex();
          byte[] before = Bufs.content(b, ri, wi - ri);
          c.show(() -> "write " + R.val(m, 600));
          r.encode(b);
          c.check(b.readerIndex() == ri, () -> "encoding moved the read position");
          bytesEqual(c, "bytes already in the buffer", before, Bufs.content(b, ri, wi - ri));
          bytesEqual(c, "message number " + writes, exp, Bufs.content(b, wi, b.writerIndex() - wi));
          frameAfter |= t.msg.frame() && before.length > 0;
          mixed |= reads > 0;
          h = h * 31 + R.hash(exp);
          writes++;
          queue.add(Ref.decode(t.msg, new Ref.In(exp, 0, exp.length)));
          sizes.add(exp.length);
        } else if (op == 1 && !queue.isEmpty()) {
          reads++;
          c.show(() -> "read");
          read(c, b, queue.remove(0), sizes.remove(0));
        } else if (op == 2) {
          c.show(() -> "discardReadBytes");
          b.discardReadBytes();
        } else if (op == 3) {
          c.show(() -> "discardSomeReadBytes");
          b.discardSomeReadBytes();
        }
      }
      while (!queue.isEmpty()) {
        c.show(() -> "read");
        read(c, b, queue.remove(0), sizes.remove(0));
      }
      c.check(b.readableBytes() == 0, () -> b.readableBytes() + " bytes left over");
      if (frameAfter) {
        c.label("has:frame-after-unread-bytes");
      }
      if (mixed) {
        c.label("has:write-after-read");
      }
      if (writes >= 2 && (mixed || frameAfter)) {
        c.nontrivial(h);
      }
    }

    private static void read(Ctx c, ByteBuf b, M exp, int size) {
      int ri = b.readerIndex(), wi = b.writerIndex();
      if (exp == null) {
        b.skipBytes(size);
        return;
      }
      BinaryCodec r = Bridge.fresh(exp.t);
      r.decode(b);
      noDiff(c, "reading back", exp, r);
      c.check(b.readerIndex() == ri + size, () -> "reading a message of " + size + " bytes moved the read position by "
          + (b.readerIndex() - ri));
      c.check(b.writerIndex() == wi, () -> "reading moved the write position");
    }
  }

  static final class C09 extends Prop {
    C09() {
      super("C09", 350000, 2800000, false, "a message encoded into, or decoded from, buffers of different kinds, offsets "
          + "and stale contents, against the result on a plain heap buffer; and encoded into a bounded buffer that is "
          + "too small by at least one byte; non-trivial: image not empty; distinct by image and direction");
    }

    @Override
    long[] prefix(long i) {
      return byTarget(i);
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t = target(s);
      int dir = s.upto(3);
      Gen g = new Gen(s, dir == 1 ? Gen.Mode.FORMED : Gen.Mode.ANY);
      g.raws = dir != 1;
      M m = g.target(t);
      c.show(() -> (dir == 0 ? "encode " : dir == 1 ? "decode " : "encode bounded ") + m);
      if (dir == 1) {
        byte[] img = Ref.encode(m);
        BinaryCodec plain = Bridge.fresh(t.msg);
        plain.decode(Unpooled.wrappedBuffer(img.clone()));
        M exp = Bridge.fromReal(plain);
        for (int i = 0; i < 3; i++) {
          int kind = s.upto(Bufs.READ_KINDS.length);
          c.show(() -> Bufs.READ_KINDS[kind]);
          byte[] tail = s.pct(30) ? s.bytes(1 + s.upto(6)) : new byte[0];
          byte[] data = Arrays.copyOf(img, img.length + tail.length);
          System.arraycopy(tail, 0, data, img.length, tail.length);
          int far = i == 2 ? far(s) : 0;
          ByteBuf b;
          if (far == 0) {
            b = Bufs.reader(c, s, data, kind, data);
          } else {
            boolean before = s.pct(40);
            b = s.pct(40) ? c.own(Unpooled.directBuffer(far + data.length)) : Unpooled.buffer(far + data.length);
            if (before) {
              b.writeZero(far).writeBytes(data).readerIndex(far);
            } else {
              b.writeBytes(data).writeZero(far);
            }
            c.show(() -> "instead, a buffer with " + far + (before ? " bytes before" : " more bytes to read"));
          }
          int ri = b.readerIndex(), wi = b.writerIndex();
          BinaryCodec r = Bridge.fresh(t.msg);
          r.decode(b);
          c.checks++;
          String d = M.same(exp, Bridge.fromReal(r)) ? null : M.diff(t.msg.simple(), exp, Bridge.fromReal(r));
          if (d != null || !M.same(exp, Bridge.fromReal(r))) {
            throw new Fail("decoded differently from a " + Bufs.READ_KINDS[kind] + " buffer: " + d);
          }
          c.check(b.readerIndex() - ri == img.length, () -> Bufs.READ_KINDS[kind] + ": consumed "
              + (b.readerIndex() - ri) + " of " + img.length);
          c.check(b.writerIndex() == wi, () -> "write position moved");
        }
        if (img.length > 0) {
          c.nontrivial(R.hash(img) * 31 + t.msg.num);
        }
        return;
      }
      byte[] exp = enc(Bridge.toReal(m, null));
      if (dir == 0) {
        for (int i = 0; i < 3; i++) {
          int kind = s.upto(Bufs.WRITE_KINDS.length);
          int off = s.pick(84, 12, 3, 1);
          int far = i == 2 ? far(s) : 0;
          byte[] pre = far > 0 ? new byte[far] : s.bytes(off == 0 ? s.upto(10) : off == 1 ? gap(s, 0, exp.length) : off == 2 ? s.upto(5000) : 60000 + s.upto(90000));
          ByteBuf b = Bufs.writer(c, s, pre, exp.length, kind);
          c.show(() -> Bufs.WRITE_KINDS[kind] + " with " + pre.length + " bytes before");
          int ri = b.readerIndex();
          BinaryCodec r = Bridge.toReal(m, null);
          r.encode(b);
          bytesEqual(c, "bytes before the message in a " + Bufs.WRITE_KINDS[kind] + " buffer", pre, Bufs.content(b, 0, pre.length));
          bytesEqual(c, "encoded into a " + Bufs.WRITE_KINDS[kind] + " buffer after " + pre.length + " bytes", exp,
              Bufs.content(b, pre.length, b.writerIndex() - pre.length));
          c.check(b.readerIndex() == ri, () -> "read position moved");
        }
        if (exp.length > 0) {
          c.nontrivial(R.hash(exp) * 31 + t.msg.num);
        }
        return;
      }
      if (exp.length == 0) {
        return;
      }
      for (int i = 0; i < 3; i++) {
        int miss = s.pct(50) ? 1 + s.upto(Math.min(8, exp.length)) : 1 + s.upto(exp.length);
        int room = Math.max(0, exp.length - miss);
        byte[] pre = s.bytes(s.upto(5));
        ByteBuf b = Bufs.bounded(c, s, pre, room);
        c.show(() -> "room for " + room + " of " + exp.length);
        BinaryCodec r = Bridge.toReal(m, null);
        c.checks++;
        try {
          r.encode(b);
        } catch (RuntimeException e) {
          c.label("bounded:rejected");
          bytesEqual(c, "bytes before the message after the failed encode", pre, Bufs.content(b, 0, pre.length));
          continue;
        }
        throw new Fail("a message of " + exp.length + " bytes was encoded without error into a buffer with room for "
            + room + "; it now holds " + (b.writerIndex() - pre.length) + " bytes of it");
      }
      c.nontrivial(R.hash(exp) * 31 + t.msg.num + 7);
    }
  }

  static final class C10 extends Prop {
    C10() {
      super("C10", 500000, 4000000, false, "strict prefixes of a well-formed image (cut at 0, at field boundaries and "
          + "beside them, one byte short, anywhere), on every kind of buffer, with the missing bytes or other bytes "
          + "lying beyond the readable part; decode must throw; non-trivial: image not empty; distinct by image");
    }

    @Override
    long[] prefix(long i) {
      return byTarget(i);
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t = target(s);
      Gen g = new Gen(s, Gen.Mode.FORMED);
      M m = g.target(t);
      Ref.Out o = Ref.encodeOut(m);
      byte[] img = o.toByteArray();
      c.show(() -> t.msg + " image " + R.hex(img, 300));
      if (img.length == 0) {
        c.label("empty image");
        return;
      }
      int n = 4;
      for (int i = 0; i < n; i++) {
        int cut0;
        switch (s.pick(35, 15, 5, 45)) {
          case 0: cut0 = o.marks.get(s.upto(o.marks.size())) + (s.pct(50) ? 0 : s.upto(5) - 2); break;
          case 1: cut0 = img.length - 1 - s.upto(Math.min(4, img.length)); break;
          case 2: cut0 = 0; break;
          default: cut0 = s.upto(img.length); break;
        }
        int cut = Math.max(0, Math.min(img.length - 1, cut0));
        int kind = s.upto(Bufs.READ_KINDS.length);
        byte[] data = Arrays.copyOf(img, cut);
        byte[] rest = s.pct(60) ? Arrays.copyOfRange(img, cut, img.length) : s.bytes(1 + s.upto(50));
        ByteBuf b = Bufs.reader(c, s, data, kind, rest);
        int ri = b.readerIndex(), wi = b.writerIndex();
        BinaryCodec r = Bridge.fresh(t.msg);
        c.checks++;
        boolean threw = false;
        try {
          r.decode(b);
        } catch (RuntimeException e) {
          threw = true;
        }
        String where = "first " + cut + " of " + img.length + " bytes of " + t.msg + " on a " + Bufs.READ_KINDS[kind] + " buffer";
        if (!threw) {
          throw new Fail("the " + where + " were decoded as " + R.val(Bridge.fromReal(r), 400)
              + " (read position " + (b.readerIndex() - ri) + ")");
        }
        c.check(b.readerIndex() <= b.writerIndex() && b.readerIndex() >= ri, () -> where + ": read position "
            + (b.readerIndex() - ri) + " beyond the readable part");
        c.check(b.writerIndex() == wi, () -> where + ": write position moved");
        c.label("cut:" + (cut == 0 ? "at 0" : cut == img.length - 1 ? "last byte" : "inside"));
      }
      c.nontrivial(R.hash(img) * 31 + t.msg.num);
    }
  }

  static final class C11 extends Prop {
    C11() {
      super("C11", 900000, 7200000, false, "arbitrary or mutated byte strings decoded as a message type on any kind of "
          + "buffer: outcome, indices, allocation and (when accepted) the message are compared with the reference "
          + "decoder; non-trivial: the input is not an unchanged valid image; distinct by type and input");
    }

    @Override
    long[] prefix(long i) {
      return byTarget(i);
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t = target(s);
      byte[] in = input(s, c, t);
      c.show(() -> t.msg + " from " + R.hex(in, 400));
      int kind = s.upto(Bufs.READ_KINDS.length);
      ByteBuf b = Bufs.reader(c, s, in, kind, in);
      int ri = b.readerIndex(), wi = b.writerIndex();
      BinaryCodec r = Bridge.fresh(t.msg);
      RuntimeException thrown = null;
      long a0 = Main.TMX.getThreadAllocatedBytes(Thread.currentThread().getId());
      try {
        r.decode(b);
      } catch (RuntimeException e) {
        thrown = e;
      }
      long used = Main.TMX.getThreadAllocatedBytes(Thread.currentThread().getId()) - a0;
      long limit = 2000000L + 400L * in.length;
      c.check(used <= limit, () -> "decoding " + in.length + " bytes allocated " + used + " bytes");
      c.check(b.writerIndex() == wi && b.readerIndex() >= ri && b.readerIndex() <= wi,
          () -> "indices " + ri + ".." + wi + " became " + b.readerIndex() + ".." + b.writerIndex());
      Ref.In x = new Ref.In(in, 0, in.length);
      M exp = null;
      Ref.Reject rej = null;
      try {
        exp = Ref.decode(t.msg, x);
      } catch (Ref.Reject e) {
        rej = e;
      }
      c.label(thrown == null ? "outcome:accepted" : "outcome:rejected");
      if (thrown == null && !x.negative) {
        final Ref.Reject rj = rej;
        c.check(rj == null, () -> "accepted as " + R.val(Bridge.fromReal(r), 600) + " although the input is no image: " + rj.getMessage());
        if (!x.lenBad && !x.malformed) {
          noDiff(c, "accepted input", exp, r);
          c.check(b.readerIndex() - ri == x.pos, () -> "consumed " + (b.readerIndex() - ri) + " bytes, the image has " + x.pos);
        }
      }
      c.nontrivial(R.hash(in) * 31 + t.msg.num);
    }

    static byte[] input(Src s, Ctx c, Spec.Target t) {
      if (s.pct(15)) {
        c.label("input:random");
        int n = s.pct(90) ? s.upto(200) : s.upto(3000);
        byte[] x = s.bytes(n);
        if (s.pct(40)) {
          byte v = (byte) s.of(new int[] {0, 255, 127, 128, 32, 48, 1});
          for (int i = 0; i < n; i++) {
            if (s.pct(80)) {
              x[i] = v;
            }
          }
        }
        return x;
      }
      Gen g = new Gen(s, Gen.Mode.FORMED);
      g.maxList = s.pct(97) ? 30 : 2000;
      g.bigLists = 0;
      Ref.Out o = Ref.encodeOut(g.target(t));
      byte[] img = o.toByteArray();
      int k = s.upto(4);
      for (int i = 0; i < k; i++) {
        img = mutate(s, c, img, o.marks);
      }
      if (k == 0) {
        c.label("input:valid");
      }
      return img;
    }

    static byte[] mutate(Src s, Ctx c, byte[] a, List<Integer> marks) {
      if (a.length == 0) {
        return s.bytes(s.upto(20));
      }
      int at = Math.min(a.length - 1, !marks.isEmpty() && s.pct(60) ? marks.get(s.upto(marks.size())) : s.upto(a.length));
      switch (s.pick(20, 20, 30, 10, 10, 10)) {
        case 0:
          c.label("mutation:flip bit");
          a[at] ^= 1 << s.upto(8);
          return a;
        case 1:
          c.label("mutation:set byte");
          a[at] = (byte) s.of(new int[] {0, 255, 127, 128, 32, 48, 1, 2, 200, 254});
          return a;
        case 2: {
          c.label("mutation:overwrite count");
          int w = s.pct(50) ? 2 : 4;
          long v = s.of(new int[] {0, 1, 2, 127, 128, 255, 256, 32767, 32768, 40000, 65535, 65536, 1 << 20, 1 << 24,
            Integer.MAX_VALUE, Integer.MAX_VALUE - 8, -1, Integer.MIN_VALUE, 100000000});
          boolean le = s.pct(50);
          for (int i = 0; i < w && at + i < a.length; i++) {
            a[at + i] = (byte) (v >>> (8 * (le ? i : w - 1 - i)));
          }
          return a;
        }
        case 3: {
          c.label("mutation:delete");
          int n = Math.min(a.length - at, 1 + s.upto(8));
          byte[] b = new byte[a.length - n];
          System.arraycopy(a, 0, b, 0, at);
          System.arraycopy(a, at + n, b, at, b.length - at);
          return b;
        }
        case 4: {
          c.label("mutation:insert");
          byte[] x = s.bytes(1 + s.upto(8));
          byte[] b = new byte[a.length + x.length];
          System.arraycopy(a, 0, b, 0, at);
          System.arraycopy(x, 0, b, at, x.length);
          System.arraycopy(a, at, b, at + x.length, a.length - at);
          return b;
        }
        default:
          c.label("mutation:truncate");
          return Arrays.copyOf(a, at);
      }
    }
  }

  static final class C12 extends Prop {
    C12() {
      super("C12", 300000, 3000000, false, "a history on one message object (decodes of other images, failed decodes, "
          + "encodes, assignments, hashCode/toString/equals), then a decode compared with a decode into a new object, and "
          + "encodes compared with those of a new object with the same fields; non-trivial: at least one decode or "
          + "assignment before; distinct by the final image and history");
    }

    @Override
    long[] prefix(long i) {
      return byTarget(i);
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t = target(s);
      BinaryCodec r = Bridge.fresh(t.msg);
      int n = 1 + s.upto(4);
      boolean changed = false;
      boolean hop = s.upto(100) == 99;
      long h = 0;
      if (hop) {
        c.label("history:on other threads");
        c.show(() -> "each step on a thread of its own");
      }
      if (s.pct(1)) {
        h = often(s, c, r, t);
        changed = true;
      }
      for (int i = 0; i < n; i++) {
        int op = s.pick(38, 12, 15, 10, 7, 8, 10);
        changed |= op != 4 && op != 2;
        long[] of = {0};
        on(hop, () -> of[0] = step(s, c, r, t, op));
        h = h * 31 + of[0];
      }
      long[] of = {0};
      on(hop, () -> of[0] = last(s, c, r, t));
      if (changed) {
        c.nontrivial(h * 31 + of[0] * 31 + t.msg.num);
      }
    }

    /** Runs it here or on a new thread. */
    private static void on(boolean hop, Runnable x) {
      if (!hop) {
        x.run();
        return;
      }
      Throwable[] e = {null};
      Thread t = new Thread(null, () -> {
        try {
          x.run();
        } catch (Throwable y) {
          e[0] = y;
        }
      }, "other", 4 << 20);
      t.setDaemon(true);
      t.start();
      while (t.isAlive()) {
        try {
          t.join();
        } catch (InterruptedException y) {
          throw new IllegalStateException(y);
        }
      }
      if (e[0] instanceof RuntimeException) {
        throw (RuntimeException) e[0];
      }
      if (e[0] instanceof Error) {
        throw (Error) e[0];
      }
    }

    private static long step(Src s, Ctx c, BinaryCodec r, Spec.Target t, int op) {
      if (op == 4) {
        c.show(() -> "hashCode, toString, equals");
        r.hashCode();
        r.toString();
        r.equals(Bridge.fresh(t.msg));
        return 0;
      }
      if (op == 2) {
        c.show(() -> "encode");
        sameAsNew(c, r);
        c.label("history:encode");
        return 0;
      }
      if (op == 6) {
        poke(s, c, r);
        c.label("history:change one part");
        if (s.pct(60)) {
          sameAsNew(c, r);
        }
        return 0;
      }
      Gen g = new Gen(s, op == 3 || op == 5 ? Gen.Mode.ANY : Gen.Mode.FORMED);
      g.raws = true;
      g.maxList = 300;
      g.bigLists = 0;
      M m = g.msg(t.msg, op == 3 ? -1 : t.caseIdx >= 0 && s.pct(50) ? t.caseIdx : -1);
      if (op == 3) {
        c.show(() -> "assign " + R.val(m, 500));
        Bridge.fill(r, m, s);
        c.label("history:assign");
        return 0;
      }
      if (op == 5) {
        c.show(() -> "assign in place " + R.val(m, 500));
        Bridge.update(r, m);
        c.label("history:assign in place");
        if (s.pct(60)) {
          sameAsNew(c, r);
        }
        return 0;
      }
      byte[] img = Ref.encode(m);
      if (op == 0) {
        c.show(() -> "decode " + R.val(m, 500));
        c.label("history:decode");
        int rest = rest(s);
        ByteBuf b = anyReader(s, c, Arrays.copyOf(img, img.length + rest));
        r.decode(b);
        c.check(b.readableBytes() == rest, () -> "decode into a used object left " + b.readableBytes() + " bytes, not " + rest);
        same(c, t, r, img);
      } else {
        int cut = img.length == 0 ? 0 : s.upto(img.length);
        c.show(() -> "decode first " + cut + " bytes of " + R.val(m, 500));
        c.label("history:failed decode");
        try {
          r.decode(Unpooled.wrappedBuffer(Arrays.copyOf(img, cut)));
        } catch (RuntimeException e) {
          c.checks++;
        }
      }
      return R.hash(img);
    }

    private static long last(Src s, Ctx c, BinaryCodec r, Spec.Target t) {
      Gen g = new Gen(s, Gen.Mode.FORMED);
      g.maxList = 300;
      M m = g.target(t);
      c.show(() -> "decode " + R.val(m, 1000));
      byte[] img = Ref.encode(m);
      int rest = rest(s);
      ByteBuf b = anyReader(s, c, Arrays.copyOf(img, img.length + rest));
      r.decode(b);
      c.check(b.readableBytes() == rest, () -> "decode into a used object left " + b.readableBytes() + " bytes, not " + rest);
      same(c, t, r, img);
      byte[] e1 = enc(r);
      bytesEqual(c, "encoding twice", e1, encAnyhow(s, c, r, e1.length));
      bytesEqual(c, "encoding a new object with the same fields", e1, enc(Bridge.toReal(Bridge.fromReal(r), null)));
      for (int i = s.pick(60, 20, 10, 10); i > 0; i--) {
        poke(s, c, r);
        sameAsNew(c, r);
      }
      int how = s.pick(65, 20, 15);
      if (how > 0) {
        Gen g2 = new Gen(s, Gen.Mode.ANY);
        g2.maxList = 50;
        M z = g2.msg(t.msg, how == 2 && t.caseIdx >= 0 ? t.caseIdx : -1);
        c.show(() -> "assign " + (how == 2 ? "in place " : "") + R.val(z, 600) + " and encode");
        if (how == 2) {
          Bridge.update(r, z);
        } else {
          Bridge.fill(r, z, s);
        }
        bytesEqual(c, "encoding after new values were assigned", enc(Bridge.toReal(z, null)), enc(r));
      }
      return R.hash(img);
    }

    /** The same steps again and again. */
    private static long often(Src s, Ctx c, BinaryCodec r, Spec.Target t) {
      Gen g = new Gen(s, Gen.Mode.FORMED);
      g.maxList = 3;
      g.bigLists = 0;
      byte[] img = Ref.encode(g.target(t));
      int times = s.of(new int[] {17, 20, 33, 65, 130, 257, 300, 520, 1030}), how = s.upto(4);
      c.show(() -> times + " times " + (how == 0 ? "encode" : how == 1 ? "decode" : how == 2 ? "decode and encode" : "encode, hash and print")
          + " with " + R.hex(img, 200));
      c.label("history:many times");
      r.decode(Unpooled.wrappedBuffer(img.clone()));
      byte[] first = enc(r);
      int rest = rest(s);
      ByteBuf in = Unpooled.wrappedBuffer(Arrays.copyOf(img, img.length + rest));
      ByteBuf out = Unpooled.buffer(first.length);
      boolean others = s.pct(50);
      for (int i = 0; i < times; i++) {
        if (how == 1 || how == 2) {
          in.setIndex(0, img.length + rest);
          r.decode(in);
          c.check(in.readableBytes() == rest, () -> "decode into a used object left " + in.readableBytes() + " bytes");
        }
        if (how != 1) {
          if (others) {
            out = Unpooled.buffer(first.length);
          }
          out.clear();
          r.encode(out);
          byte[] x = Bufs.content(out, 0, out.writerIndex());
          if (!Arrays.equals(x, first)) {
            throw new Fail("encoding number " + (i + 2) + ": " + R.cmp(first, x));
          }
        }
        if (how == 3) {
          r.hashCode();
          r.toString();
        }
      }
      same(c, t, r, img);
      return R.hash(img) + times;
    }

    /** How many bytes of something else follow. */
    private static int rest(Src s) {
      return s.pct(50) ? 0 : s.pct(80) ? 1 + s.upto(6) : 1 + s.upto(300);
    }

    private static void poke(Src s, Ctx c, BinaryCodec r) {
      Gen g = new Gen(s, Gen.Mode.ANY);
      g.maxList = 50;
      String what = Bridge.poke(r, g);
      c.show(() -> "change " + what);
    }

    /** Encodes twice, and a new object with the same fields; a message without a mandatory part never encodes. */
    private static void sameAsNew(Ctx c, BinaryCodec r) {
      M now = Bridge.fromReal(r);
      byte[] x = tryEnc(r);
      M sent = Bridge.fromReal(r);
      bytesEqual(c, "encoding twice", x, tryEnc(r));
      bytesEqual(c, "encoding a new object with the same fields", tryEnc(Bridge.toReal(sent, null)), x);
      if (now.t.len == null) { // lengths and checksums are filled in by encoding
        bytesEqual(c, "encoding a new object with the fields set", tryEnc(Bridge.toReal(now, null)), x);
      }
    }

    private static void same(Ctx c, Spec.Target t, BinaryCodec used, byte[] img) {
      BinaryCodec f = Bridge.fresh(t.msg);
      f.decode(Unpooled.wrappedBuffer(img.clone()));
      M x = Bridge.fromReal(f);
      M y = Bridge.fromReal(used);
      c.checks++;
      if (!M.same(x, y)) {
        String d = M.diff(t.msg.simple(), x, y);
        throw new Fail("decoding into a used object differs from a new one: "
            + (d != null ? d : R.val(x, 500) + " against " + R.val(y, 500)));
      }
      c.check(f.equals(used) && used.equals(f), () -> "decoded into a used and a new object, not equal");
    }
  }

  static final class C22 extends Prop {
    C22() {
      super("C22", 450000, 3600000, false, "encode with snapshots of the message (fields, list objects, nested objects) "
          + "before and after, lists of many kinds including unmodifiable; decode with snapshots of the buffer, which is "
          + "then overwritten or released; non-trivial: image not empty; distinct by image and direction");
    }

    @Override
    long[] prefix(long i) {
      return byTarget(i);
    }

    static void blank(Object o) {
      if (o instanceof M) {
        M m = (M) o;
        if (m.t.len != null) {
          m.v[m.t.len.idx] = 0;
        }
        if (m.t.cksum != null) {
          m.v[m.t.cksum.idx] = 0;
        }
        for (Object x : m.v) {
          blank(x);
        }
      } else if (o instanceof List) {
        for (Object x : (List<?>) o) {
          blank(x);
        }
      }
    }

    /** The lists and messages in a message, at any depth. */
    private static void objects(Object o, List<Object> to, int[] left) {
      if (--left[0] < 0) {
        return;
      }
      if (o instanceof List) {
        to.add(o);
        for (Object x : (List<?>) o) {
          objects(x, to, left);
        }
      } else if (o instanceof BinaryCodec) {
        to.add(o);
        Spec.Msg m = Bridge.spec.byClass.get(o.getClass());
        if (m != null) {
          for (Spec.Field f : m.fields) {
            objects(Bridge.get(o, f), to, left);
          }
        }
      }
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Target t = target(s);
      boolean encode = s.upto(2) == 0;
      Gen g = new Gen(s, encode ? Gen.Mode.ANY : Gen.Mode.FORMED);
      g.maxList = 400;
      M m = g.target(t);
      c.show(() -> (encode ? "encode " : "decode ") + m);
      if (encode) {
        BinaryCodec r = Bridge.toReal(m, s);
        M before = Bridge.fromReal(r);
        List<Object> ids = new ArrayList<>();
        objects(r, ids, new int[] {3000});
        ByteBuf b = Bufs.writer(c, s, s.bytes(s.upto(4)), 10, s.of(GROWING));
        int rc = b.refCnt();
        int ri = b.readerIndex();
        int w0 = b.writerIndex();
        Bufs.Marks marks = new Bufs.Marks(s, b);
        r.encode(b);
        marks.check(c);
        c.check(b.refCnt() == rc, () -> "reference count " + rc + " became " + b.refCnt());
        c.check(b.readerIndex() == ri, () -> "read position moved");
        M after = Bridge.fromReal(r);
        blank(before);
        blank(after);
        c.checks++;
        if (!M.same(before, after)) {
          String d = M.diff(t.msg.simple(), before, after);
          throw new Fail("encoding changed the message: " + (d != null ? d : before + " became " + after));
        }
        List<Object> now = new ArrayList<>();
        objects(r, now, new int[] {3000});
        c.check(ids.size() == now.size(), () -> "the message holds " + now.size() + " objects instead of " + ids.size());
        for (int i = 0; i < ids.size(); i++) {
          int k = i;
          c.check(ids.get(i) == now.get(i), () -> "encoding replaced an object in the message: " + R.val(Bridge.fromVal(ids.get(k)), 200));
        }
        if (b.writerIndex() > w0) {
          c.nontrivial(R.hash(Bufs.content(b, w0, b.writerIndex() - w0)) * 31 + t.msg.num);
        }
        return;
      }
      byte[] img = Ref.encode(m);
      int kind = s.upto(Bufs.READ_KINDS.length);
      c.show(() -> Bufs.READ_KINDS[kind]);
      ByteBuf b = Bufs.reader(c, s, img, kind, img);
      int ri = b.readerIndex();
      int rc = b.refCnt();
      byte[] all = Bufs.content(b, 0, b.capacity());
      BinaryCodec r = Bridge.fresh(t.msg);
      Bufs.Marks marks = new Bufs.Marks(s, b);
      if (s.pct(30)) {
        // what netty's users do with input that is not there yet
        int n = s.upto(img.length + 1);
        b.writerIndex(ri + n);
        try {
          Bridge.fresh(t.msg).decode(b);
        } catch (RuntimeException e) {
          c.label("decode:cut short first");
        }
        b.setIndex(ri, ri + img.length);
        marks.check(c);
      }
      r.decode(b);
      marks.check(c);
      c.check(b.refCnt() == rc, () -> "reference count " + rc + " became " + b.refCnt());
      bytesEqual(c, "the buffer decoded from", all, Bufs.content(b, 0, b.capacity()));
      M before = Bridge.fromReal(r);
      String text = r.toString();
      boolean over = false;
      if (Bufs.writable(b)) {
        for (int i = 0; i < img.length; i++) {
          b.setByte(ri + i, img[i] ^ 0x5A);
        }
        over = true;
      }
      if (s.pct(50)) {
        c.end();
        over = true;
      }
      M after = Bridge.fromReal(r);
      c.check(M.same(before, after), () -> "the decoded message changed when the buffer was overwritten or released: "
          + M.diff(t.msg.simple(), before, after));
      c.check(text.equals(r.toString()), () -> "the decoded message's text changed when the buffer was overwritten");
      if (over && img.length > 0) {
        c.nontrivial(R.hash(img) * 31 + t.msg.num + 5);
      }
    }
  }
}
