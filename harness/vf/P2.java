package vf;

import com.finproto.bitmap.BitMap;
import com.finproto.bitmap.ByteBitMap;
import com.finproto.bitmap.IntBitMap;
import com.finproto.bitmap.LongBitMap;
import com.finproto.bitmap.ShortBitMap;
import com.finproto.codec.BinaryCodec;
import com.finproto.codec.ChecksumService;
import com.finproto.codec.ChecksumServiceFactory;
import com.finproto.codec.Crc16ChecksumService;
import com.finproto.codec.Crc32ChecksumService;
import com.finproto.codec.SseBinChecksumService;
import com.finproto.codec.SzseBinChecksumService;
import io.netty.buffer.ByteBuf;
import io.netty.buffer.Unpooled;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.BitSet;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Objects;

/** Properties of the codec package: checksums, registries of checksums, text primitives, bitmaps; C05, C13-C18. */
final class P2 {
  static final String[] ALGOS = {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN"};

  /** What was registered when the process started, before anything touched the registry. */
  static final Map<String, ChecksumService<?, ?>> INITIAL = new LinkedHashMap<>();

  static {
    for (String a : ALGOS) {
      INITIAL.put(a, ChecksumServiceFactory.getInstance().getChecksumService(a));
    }
  }

  static ChecksumService<ByteBuf, Integer> builtin(String a) {
    switch (a) {
      case "CRC16": return new Crc16ChecksumService();
      case "CRC32": return new Crc32ChecksumService();
      case "SSE_BIN": return new SseBinChecksumService();
      case "SZSE_BIN": return new SzseBinChecksumService();
      default: throw new IllegalArgumentException(a);
    }
  }

  static byte[] readable(ByteBuf b) {
    return Bufs.content(b, b.readerIndex(), b.readableBytes());
  }

  /** A user's own checksum service. */
  static class Custom implements ChecksumService<ByteBuf, Integer> {
    final String name;
    final int salt;
    int calls;

    Custom(String name, int salt) {
      this.name = name;
      this.salt = salt;
    }

    int of(byte[] b) {
      return salt + Arrays.hashCode(b);
    }

    @Override
    public Integer calc(ByteBuf b) {
      calls++;
      return of(readable(b));
    }

    @Override
    public String algorithm() {
      return name;
    }
  }

  static final class C05 extends Prop {
    C05() {
      super("C05", 250000, 2000000, true, "a sample, SSE or SZSE frame encoded at any place of a buffer, after unread or "
          + "read bytes and other frames, with any preset checksum, and with the built-in, a user's, or no service "
          + "registered; the trailing bytes and the frame object are compared with the algorithm over header and body; "
          + "non-trivial: bytes before the frame or a service other than the built-in; distinct by frame bytes");
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % 3};
    }

    @Override
    void run(Src s, Ctx c) {
      String[] ids = {"sample.RootPacket", "sse.SseBinary", "szse.SzseBinary"};
      Spec.Msg t = Bridge.spec.get(s.of(ids));
      String algo = t.cksum.t.algo;
      c.check(INITIAL.get(algo) != null, () -> "no service is registered for " + algo + " by default");
      ChecksumServiceFactory f = ChecksumServiceFactory.getInstance();
      int how = s.pick(60, 25, 15);
      boolean huge = s.below(10000) == 9999;
      int manner = how == 1 ? s.pick(55, 25, 20) : 0;
      Custom custom = new Custom(algo, (int) s.raw()) {
        boolean inside;

        @Override
        public Integer calc(ByteBuf b) {
          if (manner == 1) {
            // reads the bytes, as one may
            byte[] x = new byte[b.readableBytes()];
            b.readBytes(x);
            return of(x);
          }
          if (manner == 2 && !inside) {
            // sends a frame of its own before
            inside = true;
            M other = new M(t);
            Bridge.toReal(other, null).encode(Unpooled.buffer());
            inside = false;
          }
          return super.calc(b);
        }
      };
      c.label("user's service:" + (how != 1 ? "none" : manner == 0 ? "plain" : manner == 1 ? "consumes its buffer" : "encodes another frame"));
      try {
        if (how == 1) {
          f.removeChecksumService(algo);
          f.registry(custom);
        } else if (how == 2) {
          f.removeChecksumService(algo);
        }
        c.label("service:" + (how == 0 ? "built-in" : how == 1 ? "user's" : "none"));
        c.label("frame:" + t.name);
        int[] now = {how};
        ByteBuf buf = Bufs.writer(c, s, s.bytes(s.upto(30)), 10, s.of(P1.GROWING));
        int far = P1.far(s);
        if (far > 0) {
          buf.writeZero(far);
          c.label("buffer:far");
        }
        int frames = 1 + s.upto(3);
        boolean before = buf.writerIndex() > 0;
        BinaryCodec r = null;
        for (int i = 0; i < frames; i++) {
          if (s.pct(40)) {
            buf.readerIndex(buf.writerIndex());
            c.show(() -> "all read");
          }
          Gen g = new Gen(s, Gen.Mode.ANY);
          g.raws = true;
          g.maxList = 500;
          M m = g.msg(t, -1);
          if (i == 0 && huge) {
            byte[] body = s.bytes(s.of(new int[] {9000000, (1 << 24) + 5}));
            Arrays.fill(body, 100, body.length, (byte) 0xFF);
            m.v[t.union.idx] = new Ref.Raw(body);
          }
          M shown = m.copy();
          c.show(() -> "service " + how + "." + manner + ", frame at " + buf.writerIndex() + " (read " + buf.readerIndex() + "): " + R.val(shown, 1200));
          if (r == null || s.pct(70)) {
            r = Bridge.toReal(m, s);
          } else {
            Bridge.fill(r, m, s);
          }
          byte[] got = frame(c, r, t, buf, now[0], custom);
          before |= i > 0;
          if (!huge && s.pct(25)) {
            // the same object again, with little or nothing changed, or another service in the meantime
            for (int k = 1 + s.upto(3); k > 0; k--) {
              int step = s.pick(40, 20, 20, 20);
              if (step == 0 || step == 3) {
                String x = Bridge.poke(r, g);
                c.show(() -> "changed: " + x);
              }
              if (step == 1 || step == 3) {
                now[0] = s.upto(3);
                f.removeChecksumService(algo);
                if (now[0] < 2) {
                  f.registry(now[0] == 0 ? builtin(algo) : custom);
                }
                c.show(() -> "service now " + now[0]);
              }
              c.label("again:" + (step == 0 ? "changed" : step == 1 ? "other service" : step == 2 ? "as it was" : "both"));
              frame(c, r, t, buf, now[0], custom);
            }
          }
          if (before || how != 0) {
            c.nontrivial(R.hash(got));
          }
        }
      } finally {
        f.removeChecksumService(algo);
        f.registry(builtin(algo));
      }
    }

    /** Encodes the frame with the service that is registered and judges the checksum; returns the frame's bytes. */
    private static byte[] frame(Ctx c, BinaryCodec r, Spec.Msg t, ByteBuf buf, int how, Custom custom) {
      String algo = t.cksum.t.algo;
      Object preset = Bridge.get(r, t.cksum);
      int start = buf.writerIndex();
      r.encode(buf);
      int total = buf.writerIndex() - start;
      byte[] got = Bufs.content(buf, start, total);
      byte[] summed = Arrays.copyOf(got, total - 4);
      int want = how == 2 ? (Integer) preset : how == 0 ? Ref.sum(algo, summed) : (Integer) custom.of(summed);
      int sent = (int) new Ref.In(got, total - 4, total).num(4, t.mod.le);
      c.check(sent == want, () -> "trailing checksum is " + sent + ", " + algo + " over the frame's "
          + (total - 4) + " header and body bytes is " + want);
      Object back = Bridge.get(r, t.cksum);
      c.check(back.equals(want), () -> "frame object says checksum " + back + ", sent " + want);
      return got;
    }
  }

  static final BinaryCodec PRIM = new BinaryCodec() {
    @Override
    public void encode(ByteBuf b) {}

    @Override
    public void decode(ByteBuf b) {}
  };

  static final class C13 extends Prop {
    C13() {
      super("C13", 3000000, 24000000, false, "writeFixedString, padChar, readFixedString and trimByChar with generated "
          + "text, width, pad character and side on buffers of all kinds, against an independent model; non-trivial: "
          + "width above 0; distinct by the field's bytes and parameters");
    }

    @Override
    void run(Src s, Ctx c) {
      int w = s.pct(80) ? s.upto(34) : s.pct(80) ? s.of(new int[] {0, 50, 64, 100, 120, 127, 128, 129, 160, 200, 255, 256, 257})
          : s.pct(99) ? s.upto(5000) : s.of(new int[] {32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 200000});
      boolean shortForm = s.pct(25);
      char pad = shortForm ? ' ' : " 0\0xA-\t\n\u007f\u0001*".charAt(s.upto(11));
      boolean left = !shortForm && s.pct(50);
      int what = s.pick(45, 40, 12, 3);
      Gen g = new Gen(s, Gen.Mode.ANY);
      if (what == 0) {
        String v0 = g.fixed(w, pad, left);
        if (s.upto(2000) == 0) {
          // a long text, whatever the width
          char[] x = new char[s.of(new int[] {32768, 65535, 65536, 65537, 131072, 200000}) + s.upto(40)];
          Arrays.fill(x, 'z');
          x[0] = 'a';
          v0 = new String(x);
          c.label("has:long text");
        }
        String v = v0;
        c.show(() -> "write " + R.q(v) + " width " + w + " pad " + (int) pad + (left ? " left" : " right"));
        byte[] exp = Ref.fixed(v, w, pad, left);
        byte[] pre = s.bytes(s.upto(5));
        ByteBuf b = Bufs.writer(c, s, pre, w);
        int ri = b.readerIndex();
        if (shortForm) {
          PRIM.writeFixedString(b, v, w);
        } else {
          PRIM.writeFixedString(b, v, w, pad, left);
        }
        c.label("write:" + (v == null ? "null" : v.isEmpty() ? "empty" : Gen.utf8(v) > w ? "too long" : Gen.utf8(v) == w ? "exact" : "short")
            + (left ? " left" : " right"));
        P1.bytesEqual(c, "field written", exp, Bufs.content(b, pre.length, b.writerIndex() - pre.length));
        P1.bytesEqual(c, "bytes before the field", pre, Bufs.content(b, 0, pre.length));
        c.check(ri == b.readerIndex(), () -> "read position moved");
        if (w > 0) {
          c.nontrivial(R.hash(exp) + pad * 31 + (left ? 7 : 0));
        }
      } else if (what == 1) {
        String raw = g.fixed(w, pad, left);
        String clean = Gen.wellFormed(raw == null ? "" : raw);
        while (Gen.utf8(clean) > w) {
          clean = clean.substring(0, clean.offsetByCodePoints(clean.length(), -1));
        }
        byte[] f = Ref.fixed(clean, w, pad, left);
        c.show(() -> "read " + R.hex(f, 200) + " pad " + (int) pad + (left ? " left" : " right"));
        String exp = Ref.trim(new String(f, StandardCharsets.UTF_8), pad, left);
        byte[] data = Arrays.copyOf(f, w + s.upto(4));
        ByteBuf b = Bufs.reader(c, s, data);
        int ri = b.readerIndex();
        String act = shortForm ? PRIM.readFixedString(b, w) : PRIM.readFixedString(b, w, pad, left);
        c.check(exp.equals(act), () -> "read " + R.q(act) + " instead of " + R.q(exp));
        c.check(b.readerIndex() == ri + w, () -> "consumed " + (b.readerIndex() - ri) + " of " + w + " bytes");
        c.label("read:" + (exp.isEmpty() ? "empty" : Gen.utf8(exp) == w ? "full" : "trimmed") + (left ? " left" : " right"));
        if (w > 0) {
          c.nontrivial(R.hash(f) + pad * 31 + (left ? 17 : 10));
        }
      } else if (what == 2) {
        String raw = g.fixed(w, pad, left);
        String v = raw == null ? "" : raw;
        c.show(() -> "trim " + R.q(v) + " pad " + (int) pad + (left ? " left" : " right"));
        String act = BinaryCodec.trimByChar(v, pad, left);
        String exp = Ref.trim(v, pad, left);
        c.check(exp.equals(act), () -> "trimmed to " + R.q(act) + " instead of " + R.q(exp));
        if (!v.isEmpty()) {
          c.nontrivial(v.hashCode() * 31 + pad + (left ? 1 : 0));
        }
      } else {
        int n = s.upto(300);
        c.show(() -> "padChar " + n + " times " + (int) pad);
        ByteBuf b = Bufs.writer(c, s, new byte[0], n);
        PRIM.padChar(b, n, pad);
        byte[] exp = new byte[n];
        Arrays.fill(exp, (byte) pad);
        P1.bytesEqual(c, "padding", exp, Bufs.content(b, 0, b.writerIndex()));
      }
    }
  }

  static final class C14 extends Prop {
    private final List<Spec.Field> fields = new ArrayList<>();

    C14() {
      super("C14", 60000, 600000, false, "one length-prefixed text or list field (fields and sizes in turn) of a message "
          + "with generated content of sizes 0 to the count's limit, encoded and decoded; elements compared one by one "
          + "and the count with the bytes; non-trivial: at least one element or byte; distinct by field, size and content");
      for (Spec.Msg m : Bridge.spec.all) {
        for (Spec.Field f : m.fields) {
          if (f.t.k == Spec.K.LIST || f.t.k == Spec.K.DSTR) {
            fields.add(f);
          }
        }
      }
      Focus.weigh(fields, f -> Focus.hit(f.owner));
    }

    static final int[] SIZES = {0, 1, 2, 3, 10, 126, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1024, 4095, 4096, 8192,
      32766, 32767, 32768, 32769, 40000, 49151, 65534, 65535};
    /** Further sizes, for counts of 32 bits. */
    static final int[] BIG = {65536, 65537, 65791, 70000, 98304, 100000, 131071, 131072, 200000, 262144, 1000000, 1048577,
      16777215, 16777216, 16777217};

    @Override
    long[] prefix(long i) {
      long f = i % fields.size();
      long z = i / fields.size();
      if (z < SIZES.length) {
        return new long[] {f, 0, z};
      }
      z -= SIZES.length;
      // lists of a million elements and texts of 16 MB only now and then
      if (z < (f % 8 == i / fields.size() % 8 || Main.thorough ? BIG.length : 9) && fields.get((int) f).t.prefix == 4) {
        return new long[] {f, 99, 0, z};
      }
      return new long[] {f, 99, 1};
    }

    @Override
    void run(Src s, Ctx c) {
      Spec.Field f = fields.get(s.upto(fields.size()));
      int size;
      if (s.below(100) < 10) {
        size = SIZES[s.upto(SIZES.length)];
      } else if (s.below(300) == 0 && f.t.prefix == 4) {
        size = BIG[s.upto(BIG.length)];
        if (size > 300000 && Runtime.getRuntime().maxMemory() < 1500L << 20) {
          size = 300000; // not in the environments with a small heap
        }
        if (f.t.k == Spec.K.LIST && size > 300000) {
          size = 300000;
        }
      } else {
        size = s.pct(90) ? s.upto(40) : s.pct(93) ? s.upto(1200) : s.upto(f.t.prefix == 4 ? 120000 : 65536);
      }
      Gen g = new Gen(s, Gen.Mode.CANON);
      g.maxList = 3;
      Spec.Msg t = f.owner;
      M m = g.msg(t, -1);
      if (f.t.k == Spec.K.DSTR) {
        m.v[f.idx] = text(s, size);
      } else {
        int n = f.t.elem.k == Spec.K.OBJ && size > 5000 && s.pct(40) ? 2000 : size;
        List<Object> l = new ArrayList<>();
        Gen e = n > 8 ? new Gen(s.bulk(), Gen.Mode.CANON) : g;
        e.maxList = 2;
        for (int i = 0; i < n; i++) {
          Object x;
          if (f.t.elem.k == Spec.K.DSTR) {
            boolean one = size < 20 && e.s.pct(10);
            x = one ? text(e.s, e.s.of(SIZES)) : e.s.pct(30) ? "" : e.dyn(50, true);
          } else if (f.t.elem.k == Spec.K.STR && n > 1000) {
            x = Ref.trim(String.valueOf(i % 7919), f.t.elem.pad, f.t.elem.left);
            x = ((String) x).substring(0, Math.min(((String) x).length(), f.t.elem.width));
            x = Ref.trim((String) x, f.t.elem.pad, f.t.elem.left);
          } else {
            x = e.elem(f.t.elem);
          }
          l.add(x);
        }
        if (f.t.elem.num() && n > 1 && s.pct(50)) {
          for (int i = 0; i < n; i++) {
            l.set(i, M.num(f.t.elem, i * 31L + 1)); // every position distinct as far as the width allows
          }
        }
        m.v[f.idx] = n == 0 && s.pct(50) ? null : l;
      }
      final int sz = size;
      c.show(() -> f + " with " + sz + (f.t.k == Spec.K.DSTR ? " bytes" : " elements") + ": " + R.val(m.v[f.idx], 400));
      BinaryCodec a;
      byte[] exp = Ref.encode(m);
      if (s.pct(70)) {
        a = Bridge.toReal(m, s);
      } else {
        a = P1.anyObject(s, c, new Spec.Target(t, -1));
        Bridge.fill(a, m, s);
      }
      byte[] x = P1.encAnyhow(s, c, a, exp.length);
      c.check(x.length == exp.length, () -> "encoded to " + x.length + " bytes, layout gives " + exp.length);
      BinaryCodec b = P1.anyObject(s, c, new Spec.Target(t, -1));
      ByteBuf buf = size > 100000 ? Unpooled.wrappedBuffer(x) : P1.anyReader(s, c, x);
      b.decode(buf);
      Object back = Bridge.fromVal(Bridge.get(b, f));
      c.checks++;
      Object want = m.v[f.idx];
      String d = M.diff(f.toString(), want, back);
      if (d == null && back instanceof List && want instanceof List) {
        // empty elements must still be there
        List<?> p = (List<?>) want, q = (List<?>) back;
        for (int i = 0; i < p.size(); i++) {
          if (q.get(i) == null) {
            d = f + "[" + i + "] is null";
          }
        }
      }
      if (d != null) {
        throw new Fail(d);
      }
      c.check(buf.readableBytes() == 0, () -> "decoding left " + buf.readableBytes() + " bytes");
      if (size == 0) {
        M z = m.copy();
        z.v[f.idx] = null;
        P1.bytesEqual(c, "an empty field against an unset one", P1.enc(Bridge.toReal(z, null)), x);
      }
      c.label((f.t.k == Spec.K.DSTR ? "text:" : "list:") + (size == 0 ? "0" : size == 1 ? "1" : size < 128 ? "2-127"
          : size < 256 ? "128-255" : size < 32768 ? "256-32767" : "32768-"));
      if (size > 0) {
        c.nontrivial(R.hash(x) * 31 + f.idx);
      }
    }

    static String text(Src s, int bytes) {
      StringBuilder b = new StringBuilder();
      Src x = bytes > 16 ? s.bulk() : s;
      int left = bytes;
      int style = x.pick(60, 40);
      String abc = "0123456789ABCDEFGHIJ KLMNOPQRSTUVWXYZ\0\n";
      while (left > 0) {
        int k = style == 0 ? 0 : x.upto(4);
        if (k == 3 && left >= 4) {
          b.appendCodePoint(0x1F600 + x.upto(50));
          left -= 4;
        } else if (k == 2 && left >= 3) {
          b.append((char) (0x4E00 + x.upto(500)));
          left -= 3;
        } else if (k == 1 && left >= 2) {
          b.append((char) (0xA1 + x.upto(500)));
          left -= 2;
        } else {
          b.append(abc.charAt(x.upto(abc.length())));
          left--;
        }
      }
      return b.toString();
    }
  }

  static byte[] content(Src s, int n) {
    byte[] b;
    switch (s.pick(50, 10, 10, 10, 20)) {
      case 0: return s.bytes(n);
      case 1: return new byte[n];
      case 2: b = new byte[n]; Arrays.fill(b, (byte) 0xFF); return b;
      case 3: b = new byte[n]; Arrays.fill(b, (byte) (s.pct(50) ? 0x80 : 0x7F)); return b;
      default: {
        b = new byte[n];
        for (int i = 0; i < 3 && n > 0; i++) {
          b[s.upto(n)] = (byte) s.upto(256);
        }
        return b;
      }
    }
  }

  static int length(Src s) {
    switch (s.pick(15, 40, 20, 10, 5, 8, 2)) {
      case 0: return s.upto(4);
      case 1: return s.upto(64);
      case 2: return s.upto(600);
      case 3: return s.of(new int[] {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023,
        1024, 1025, 2047, 2048, 4095, 4096, 4097, 5551, 5552, 5553, 8191, 8192});
      case 4: return s.upto(5000);
      case 5: {
        int z = Dict.codec.sizes[s.upto(Dict.codec.sizes.length)];
        return z > 9000 ? z % 9000 : z;
      }
      default: return s.of(new int[] {16383, 16384, 32767, 32768, 65535, 65536, 65537, 70000});
    }
  }

  static final class C15 extends Prop {
    C15() {
      super("C15", 800000, 6400000, false, "a byte sequence of generated length and content on a buffer of any kind, with "
          + "other bytes before and after the readable part, summed by every built-in service and compared with "
          + "independent implementations; non-trivial: not empty; distinct by content and algorithm");
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % 4, i < 8 ? 99 : 0};
    }

    @Override
    void run(Src s, Ctx c) {
      String a = s.of(ALGOS);
      byte[] data;
      int kind = -1;
      if (s.below(100) == 99) {
        // sums beyond 31 bits
        data = new byte[s.of(new int[] {9000000, 17000000, 8421505})];
        Arrays.fill(data, (byte) 0xFF);
        kind = s.of(new int[] {1, 2});
      } else if (s.pct(3)) {
        data = "123456789".getBytes(StandardCharsets.US_ASCII);
      } else {
        data = content(s, length(s));
      }
      final int k = kind < 0 ? s.upto(Bufs.READ_KINDS.length) : kind;
      byte[] d = data;
      c.show(() -> a + " of " + R.hex(d, 200) + " (" + d.length + " bytes) on " + Bufs.READ_KINDS[k]);
      ByteBuf b = Bufs.reader(c, s, data, k, s.pct(50) ? new byte[] {1, 2, 3, 4, 5, 6, 7, 8, 9} : new byte[0]);
      Integer exp = Ref.sum(a, data);
      ChecksumService<ByteBuf, Integer> sv = builtin(a);
      Integer act = sv.calc(b);
      c.check(exp.equals(act), () -> a + " gives " + act + ", the published function " + exp);
      c.check(a.equals(sv.algorithm()), () -> "names itself " + sv.algorithm());
      if (d.length > 0 && d.length < 2000 && Bufs.writable(b) && s.pct(25)) {
        again(s, c, b, d, sv);
      }
      c.label("algorithm:" + a);
      c.label("length:" + (d.length == 0 ? "0" : d.length < 64 ? "1-63" : d.length < 4096 ? "64-4095" : d.length < 100000 ? "4096-70000" : "millions"));
      if (d.length > 0) {
        c.nontrivial(R.hash(d) * 7 + a.hashCode());
      }
    }

    /** The same service again: the same buffer, or another, with little changed. */
    private static void again(Src s, Ctx c, ByteBuf b, byte[] first, ChecksumService<ByteBuf, Integer> sv) {
      byte[] d = first.clone();
      for (int k = 1 + s.upto(3); k > 0; k--) {
        int at = s.pct(70) ? d.length / 4 + s.upto(d.length - d.length / 4 * 2) : s.upto(d.length);
        byte[] now = d.clone();
        now[at] = (byte) s.upto(256);
        ByteBuf x = b;
        if (s.pct(50)) {
          b.setByte(b.readerIndex() + at, now[at]);
          d = now;
        } else {
          x = Unpooled.wrappedBuffer(now.clone());
        }
        int act = sv.calc(x);
        c.show(() -> "again, with byte " + at + " set to " + now[at]);
        c.check(act == Ref.sum(sv.algorithm(), now), () -> sv.algorithm() + " of " + R.hex(now, 200) + " gives " + act + ", the published function "
            + Ref.sum(sv.algorithm(), now));
        c.label("again with the same service");
      }
    }
  }

  static final class C16 extends Prop {
    private final Map<String, ChecksumService<ByteBuf, Integer>> shared = new HashMap<>();

    C16() {
      super("C16", 400000, 3200000, false, "a history of calc and verify calls on several buffers (also changed in place or "
          + "with moved indices between calls) and shared services (also on four threads at once, and on two or three threads in a generated interleaving), with right, wrong and absent expected values and single corrupted bytes; "
          + "non-trivial: not empty content; distinct by content and algorithm");
      for (String a : ALGOS) {
        shared.put(a, builtin(a));
      }
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % 100 == 0 ? 3 : i % 20 == 1 ? 4 : i % 3};
    }

    @Override
    void run(Src s, Ctx c) {
      int what = s.upto(5);
      if (what == 4) {
        scheduled(s, c);
        return;
      }
      if (what == 2) {
        generic(s, c);
        return;
      }
      if (what == 3) {
        threads(s, c);
        return;
      }
      String a = s.of(ALGOS);
      ChecksumService<ByteBuf, Integer> sv = shared.get(a);
      int n = 1 + s.upto(3);
      ByteBuf[] bs = new ByteBuf[n];
      byte[][] data = new byte[n][];
      byte[][] whole = new byte[n][];
      int[] ri = new int[n], wi = new int[n];
      for (int i = 0; i < n; i++) {
        data[i] = content(s, Math.min(2000, length(s)));
        bs[i] = Bufs.reader(c, s, data[i]);
        ri[i] = bs[i].readerIndex();
        wi[i] = bs[i].writerIndex();
        whole[i] = Bufs.content(bs[i], 0, bs[i].capacity());
        byte[] d = data[i];
        c.show(() -> a + " on " + R.hex(d, 60));
      }
      Bufs.Marks[] marks = new Bufs.Marks[n];
      for (int i = 0; i < n; i++) {
        marks[i] = new Bufs.Marks(s, bs[i]);
      }
      int ops = 3 + s.upto(8);
      for (int k = 0; k < ops; k++) {
        int i = s.upto(n);
        int op = s.pick(20, 20, 20, 20, 12, 8);
        if (op == 4) {
          // the same buffer object with other content
          if (!Bufs.writable(bs[i]) || data[i].length == 0) {
            continue;
          }
          int at = s.upto(data[i].length);
          int to = s.upto(data[i].length);
          byte x = data[i][at];
          byte y = s.pct(50) ? data[i][to] : (byte) s.upto(256);
          if (y != data[i][to]) {
            to = at;
          }
          data[i] = data[i].clone();
          data[i][to] = x;
          data[i][at] = y;
          bs[i].setByte(ri[i] + to, x);
          bs[i].setByte(ri[i] + at, y);
          whole[i] = Bufs.content(bs[i], 0, bs[i].capacity());
          c.show(() -> "content changed in place to " + R.hex(data[i], 60));
          c.label("content changed in place");
          continue;
        }
        if (op == 5) {
          // the same buffer object with other indices
          if (data[i].length == 0) {
            continue;
          }
          int from = s.upto(data[i].length + 1);
          int to = from + s.upto(data[i].length - from + 1);
          data[i] = Arrays.copyOfRange(data[i], from, to);
          wi[i] = ri[i] + to;
          ri[i] += from;
          bs[i].setIndex(ri[i], wi[i]);
          c.show(() -> "indices moved, readable now " + R.hex(data[i], 60));
          c.label("indices moved");
          continue;
        }
        Integer right = Ref.sum(a, data[i]);
        if (op == 0) {
          Integer v = sv.calc(bs[i]);
          c.check(right.equals(v), () -> "calc gives " + v + " instead of " + right);
        } else if (op == 1) {
          c.check(sv.verify(bs[i], new Integer(right)), () -> "verify rejects the right value " + right);
        } else if (op == 2) {
          Integer wrong = s.pct(10) ? null : s.pct(50) ? (Integer) (right ^ (1 << s.upto(32))) : (Integer) (int) s.raw();
          if (!right.equals(wrong)) {
            c.check(!sv.verify(bs[i], wrong), () -> "verify accepts " + wrong + ", right is " + right);
          }
        } else if (data[i].length > 0) {
          // one corrupted byte
          byte[] bad = data[i].clone();
          int at = s.upto(bad.length);
          bad[at] ^= 1 + s.upto(255);
          ByteBuf b = Bufs.reader(c, s, bad);
          c.check(!sv.verify(b, right), () -> a + " does not notice byte " + at + " of " + bad.length + " changed");
          c.label("corrupted byte");
        }
        c.check(bs[i].readerIndex() == ri[i] && bs[i].writerIndex() == wi[i], () -> "indices of the buffer changed");
        marks[i].check(c);
        P1.bytesEqual(c, "buffer after calc or verify", whole[i], Bufs.content(bs[i], 0, bs[i].capacity()));
        if (data[i].length > 0) {
          c.nontrivial(R.hash(data[i]) * 7 + a.hashCode());
        }
      }
      c.label("algorithm:" + a);
    }

    /** verify is defined for every service a user writes. */
    private void generic(Src s, Ctx c) {
      Object[] vals = {null, new Integer(1000), new Integer(1000), new Long(1000), new Long(77777777777L),
        new String("abc"), new String("abc"), "", new Integer(-1), new Short((short) -1), new Byte((byte) 5), 5, 5.0, Double.NaN,
        Arrays.asList(1, 2), new ArrayList<>(Arrays.asList(1, 2))};
      Object r = vals[s.upto(vals.length)];
      Object e = vals[s.upto(vals.length)];
      int[] calls = {0};
      ChecksumService<ByteBuf, Object> sv = new ChecksumService<ByteBuf, Object>() {
        @Override
        public Object calc(ByteBuf b) {
          calls[0]++;
          return r;
        }

        @Override
        public String algorithm() {
          return "X";
        }
      };
      c.show(() -> "service result " + r + ", expected " + e);
      boolean act = sv.verify(Unpooled.EMPTY_BUFFER, e);
      c.check(act == Objects.equals(r, e), () -> "verify says " + act + " for result " + r + " and expected " + e);
      c.check(calls[0] > 0, () -> "verify did not calculate");
      c.label("generic service");
      c.nontrivial(Objects.hash(r, e));
    }

    /** Threads that share services, in a generated interleaving. */
    private void scheduled(Src s, Ctx c) {
      int n = 2 + s.upto(2);
      String first = s.of(ALGOS);
      String[][] a = new String[n][];
      byte[][][] data = new byte[n][][];
      int[][] op = new int[n][];
      long h = 0;
      for (int i = 0; i < n; i++) {
        int k = 1 + s.upto(3);
        a[i] = new String[k];
        data[i] = new byte[k][];
        op[i] = new int[k];
        for (int j = 0; j < k; j++) {
          a[i][j] = s.pct(80) ? first : s.of(ALGOS);
          data[i][j] = content(s, s.upto(24));
          op[i][j] = s.upto(3);
          h = h * 31 + R.hash(data[i][j]) + a[i][j].hashCode();
        }
      }
      long seed = s.raw();
      int gap = s.of(new int[] {2, 4, 10, 30, 100});
      c.show(() -> n + " threads taking turns every " + gap + " steps or so (" + seed + "): " + Arrays.deepToString(a) + " of " + R.hex(data[0][0], 30) + ", ...");
      int sw = Sched.run(n, seed, gap, i -> {
        for (int j = 0; j < op[i].length; j++) {
          ChecksumService<ByteBuf, Integer> sv = shared.get(a[i][j]);
          Integer e = Ref.sum(a[i][j], data[i][j]);
          ByteBuf b = Unpooled.wrappedBuffer(data[i][j]);
          if (op[i][j] < 2) {
            Integer v = sv.calc(b);
            if (!e.equals(v)) {
              throw new Fail(a[i][j] + " of " + R.hex(data[i][j], 60) + " shared by threads gives " + v + " instead of " + e);
            }
          }
          if (op[i][j] > 0 && !sv.verify(b, e)) {
            throw new Fail(a[i][j] + " of " + R.hex(data[i][j], 60) + " shared by threads rejects the right value");
          }
        }
      });
      c.checks += n;
      c.label("threads in a generated interleaving");
      c.label("switches:" + (sw == 0 ? "0" : sw < 4 ? "1-3" : sw < 20 ? "4-19" : "20-"));
      if (sw > 1) {
        c.nontrivial(h * 31 + seed);
      }
    }

    private void threads(Src s, Ctx c) {
      String a = s.of(ALGOS);
      ChecksumService<ByteBuf, Integer> sv = shared.get(a);
      byte[][] data = new byte[8][];
      for (int i = 0; i < data.length; i++) {
        data[i] = content(s, 200 + s.upto(1500));
      }
      c.show(() -> a + " shared by four threads, contents " + R.hex(data[0], 40) + ", ...");
      P3.parallel(4, k -> {
        for (int round = 0; round < 60; round++) {
          byte[] d = data[(k * 2 + round % 2) % data.length];
          Integer v = sv.calc(Unpooled.wrappedBuffer(d));
          Integer e = Ref.sum(a, d);
          if (!e.equals(v)) {
            throw new Fail(a + " shared by threads gives " + v + " instead of " + e);
          }
          if (!sv.verify(Unpooled.wrappedBuffer(d), e)) {
            throw new Fail(a + " shared by threads rejects the right value");
          }
        }
      });
      c.checks += 4 * 120;
      c.label("four threads");
      c.nontrivial(R.hash(data[0]));
    }
  }

  /** Equal to every other such service, whatever its name. */
  static final class Alike extends Custom {
    Alike(String name, int salt) {
      super(name, salt);
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Alike;
    }

    @Override
    public int hashCode() {
      return 1;
    }
  }

  static final class C17 extends Prop {
    C17() {
      super("C17", 700000, 5600000, true, "a history of registering, removing, clearing and looking up checksum services "
          + "under built-in and other names, each step compared with a map; non-trivial: a registration refused or a "
          + "re-registration after removal; distinct by history");
    }

    @Override
    void run(Src s, Ctx c) {
      ChecksumServiceFactory f = ChecksumServiceFactory.getInstance();
      for (String a : ALGOS) {
        ChecksumService<?, ?> in = INITIAL.get(a);
        c.check(in != null, () -> "no service is registered for " + a + " from the start");
        c.check(a.equals(in.algorithm()) && in.getClass() == builtin(a).getClass(), () -> "from the start " + a + " is served by "
            + in.getClass().getSimpleName() + " named " + in.algorithm());
      }
      c.check(f == ChecksumServiceFactory.INSTANCE, () -> "getInstance is another registry");
      String[] names = {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN", "X", "crc32", "", "CRC32 ", "MD5"};
      Map<String, Object> model = new HashMap<>();
      try {
        f.clearAllChecksumService();
        c.check(lookup(f, "CRC32") == null, () -> "clearing left CRC32 registered");
        for (String a : ALGOS) {
          ChecksumService<?, ?> sv = builtin(a);
          c.check(f.registry(sv), () -> "registering " + a + " after clearing had no effect");
          model.put(a, sv);
        }
        List<Custom> pool = new ArrayList<>();
        if (s.pct(3)) {
          boolean very = s.upto(250) == 0;
          int many = very ? s.of(new int[] {1000, 1030, 2050, 4100, 8200, 10100, 16400, 33000, 66000})
              : s.of(new int[] {7, 12, 13, 16, 17, 30, 64, 65, 100, 300});
          if (very) {
            c.label("has:thousands of services");
          }
          names = Arrays.copyOf(names, names.length + many);
          for (int i = names.length - many; i < names.length; i++) {
            names[i] = (i % 3 == 0 ? "Aa" : i % 3 == 1 ? "BB" : "") + "algorithm-" + i / 3; // colliding hash codes too
            Custom x = new Custom(names[i], -i);
            c.check(f.registry(x), () -> "registering " + x.name + " had no effect");
            model.put(names[i], x);
          }
          c.show(() -> "register " + many + " services of other names");
          c.label("has:many services");
        }
        int ops = 2 + s.upto(names.length > 900 ? 5 : 25);
        boolean refused = false, again = false;
        long h = 0;
        BitSet removed = new BitSet();
        for (int i = 0; i < ops; i++) {
          int nm = s.upto(names.length);
          String name = names[nm];
          int op = s.pick(45, 25, 4, 26);
          h = h * 31 + op * 10 + nm;
          if (op == 0) {
            ChecksumService<?, ?> sv;
            if (!pool.isEmpty() && s.pct(25)) {
              sv = pool.get(s.upto(pool.size()));
            } else {
              Custom x = s.pct(25) ? new Alike(new String(name), i) : new Custom(new String(name), i);
              pool.add(x);
              sv = x;
            }
            c.show(() -> "register " + sv.algorithm() + (sv instanceof Alike ? " (equal to others)" : ""));
            boolean exp = !model.containsKey(sv.algorithm());
            boolean act = f.registry(sv);
            c.check(act == exp, () -> "registering " + sv.algorithm() + " reported " + act);
            if (exp) {
              model.put(sv.algorithm(), sv);
              again |= removed.get(nm);
            } else {
              refused = true;
            }
          } else if (op == 1) {
            c.show(() -> "remove " + name);
            f.removeChecksumService(new String(name));
            model.remove(name);
            removed.set(nm);
          } else if (op == 2) {
            c.show(() -> "clear");
            f.clearAllChecksumService();
            model.clear();
          } else {
            c.show(() -> "look up " + name);
          }
          for (String x : op == 3 ? new String[] {name} : names) {
            Object got = lookup(f, new String(x));
            c.check(got == model.get(x), () -> "looking up " + x + " gives " + got + ", expected " + model.get(x));
          }
        }
        if (refused) c.label("has:refused registration");
        if (again) c.label("has:registration after removal");
        if (refused || again) {
          c.nontrivial(h);
        }
      } finally {
        f.clearAllChecksumService();
        for (String a : ALGOS) {
          f.registry(builtin(a));
        }
      }
    }

    private static Object lookup(ChecksumServiceFactory f, String n) {
      ChecksumService<Object, Object> x = f.getChecksumService(n);
      return x;
    }
  }

  static final class C18 extends Prop {
    C18() {
      super("C18", 3000000, 24000000, false, "a history of set, clear and get on bitmaps of the four sizes with writing, and "
          + "reading into new and used bitmaps, in and from buffers of many kinds, against a BitSet; non-trivial: a clear of a set bit or a read after a "
          + "write; distinct by history");
    }

    @Override
    long[] prefix(long i) {
      return new long[] {i % 4};
    }

    static BitMap make(int k) {
      switch (k) {
        case 0: return new ByteBitMap();
        case 1: return new ShortBitMap();
        case 2: return new IntBitMap();
        default: return new LongBitMap();
      }
    }

    private static void same(Ctx c, String when, BitSet exp, BitMap act, int n) {
      c.checks++;
      for (int p = 0; p < n; p++) {
        if (act.get(p) != exp.get(p)) {
          throw new Fail(when + ": bit " + p + " of " + n + " reads " + act.get(p) + "; set bits should be " + exp);
        }
      }
    }

    @Override
    void run(Src s, Ctx c) {
      int k = s.upto(4);
      int n = 8 << k;
      BitMap[] a = {make(k), make(k)};
      BitSet[] m = {new BitSet(), new BitSet()};
      c.check(a[0].bitCount() == n, () -> "bitCount is " + a[0].bitCount());
      c.label("bits:" + n);
      same(c, "new bitmap", m[0], a[0], n);
      boolean kinds = s.pct(12);
      ByteBuf buf = !kinds ? Unpooled.buffer(4) : Bufs.writer(c, s, s.bytes(s.upto(30)), 10, s.of(P1.GROWING));
      buf.readerIndex(buf.writerIndex());
      List<BitSet> queue = new ArrayList<>();
      List<Integer> ends = new ArrayList<>();
      int ops = kinds && s.pct(5) ? 100 + s.upto(300) : 1 + s.upto(20);
      boolean cleared = false, back = false;
      long h = k;
      for (int i = 0; i < ops; i++) {
        int w = s.upto(2);
        int op = s.pick(35, 20, 15, 15, 10, 5);
        int p = s.upto(n);
        h = h * 131 + op * 64 + p + w * 7;
        if (op == 0) {
          c.show(() -> "set " + w + ":" + p);
          a[w].set(p);
          m[w].set(p);
        } else if (op == 1) {
          c.show(() -> "clear " + w + ":" + p);
          cleared |= m[w].get(p);
          a[w].clear(p);
          m[w].clear(p);
        } else if (op == 2) {
          c.show(() -> "write " + w);
          a[w].write(buf);
          queue.add((BitSet) m[w].clone());
          ends.add(buf.writerIndex());
        } else if (op == 3 && !queue.isEmpty()) {
          c.show(() -> "read into " + w);
          a[w].read(buf);
          m[w] = queue.remove(0);
          int end = ends.remove(0);
          back = true;
          c.check(buf.readerIndex() == end, () -> "reading moved to " + buf.readerIndex() + ", written until " + end);
        } else if (op == 4) {
          long bits = s.raw();
          c.show(() -> "set all of " + Long.toHexString(bits) + " in " + w);
          for (int q = 0; q < n; q++) {
            if ((bits >>> q & 1) != 0) {
              a[w].set(q);
              m[w].set(q);
            }
          }
        } else if (op == 5) {
          c.show(() -> "clear all of " + w);
          for (int q = 0; q < n; q++) {
            cleared |= m[w].get(q);
            a[w].clear(q);
            m[w].clear(q);
          }
        }
        same(c, "after step " + i, m[0], a[0], n);
        same(c, "after step " + i, m[1], a[1], n);
      }
      if (cleared) c.label("has:clear of a set bit");
      if (back) c.label("has:read back");
      while (!queue.isEmpty()) {
        BitMap x = make(k);
        int from = buf.readerIndex();
        int end = ends.remove(0);
        if (kinds) {
          // from a buffer of another kind, into a new or used bitmap
          ByteBuf b = Bufs.reader(c, s, Bufs.content(buf, from, end - from));
          int at = b.readerIndex();
          x = s.pct(50) ? x : a[s.upto(2)];
          x.read(b);
          c.check(b.readerIndex() == at + end - from, () -> "reading " + (end - from) + " bytes moved from " + at + " to " + b.readerIndex());
          same(c, "read from another buffer", queue.get(0), x, n);
          x = make(k);
        }
        x.read(buf);
        c.check(buf.readerIndex() == end, () -> "reading moved to " + buf.readerIndex() + ", written until " + end);
        same(c, "read into a new bitmap", queue.remove(0), x, n);
        back = true;
      }
      if (cleared || back) {
        c.nontrivial(h);
      }
    }
  }
}
