package vf;

import io.netty.buffer.ByteBuf;
import io.netty.buffer.CompositeByteBuf;
import io.netty.buffer.PooledByteBufAllocator;
import io.netty.buffer.Unpooled;
import java.nio.ByteBuffer;

/** Buffers of every kind, with given readable bytes (for decoding) or room to write (for encoding). */
final class Bufs {
  static final String[] READ_KINDS = {"heap-exact", "heap-slack", "direct", "pooled-heap", "pooled-direct",
    "composite", "slice", "readonly", "duplicate-direct", "nio-wrapped", "nio-readonly", "composite-slice",
    "slice-of-pooled", "composite-direct", "unreleasable", "fixed-composite"};
  static final String[] WRITE_KINDS = {"heap-default", "heap-tiny", "heap-stale", "direct", "pooled-heap",
    "pooled-direct", "composite", "slice", "wrapped", "direct-tiny", "pooled-tiny", "bounded-exact",
    "composite-of-parts", "composite-of-direct-parts", "unreleasable", "duplicate"};

  private static final PooledByteBufAllocator POOL = PooledByteBufAllocator.DEFAULT;

  /** A buffer whose readable bytes are data, usually with other bytes before and after them. */
  static ByteBuf reader(Ctx c, Src s, byte[] data) {
    return reader(c, s, data, s.upto(READ_KINDS.length), data);
  }

  static byte[] junk(Src s, int n, byte[] like) {
    byte[] b = new byte[n];
    int k = s.pick(40, 20, 20, 20);
    for (int i = 0; i < n; i++) {
      b[i] = k == 0 ? (byte) 0xA5 : k == 1 ? 0 : k == 2 ? (byte) 0xFF : like.length == 0 ? 7 : like[i % like.length];
    }
    return b;
  }

  /** after: what the bytes beyond the readable part look like. */
  static ByteBuf reader(Ctx c, Src s, byte[] data, int kind, byte[] after) {
    ByteBuf b = make(c, s, data, kind, after);
    return s.pct(4) ? retained(c, b) : b;
  }

  private static ByteBuf retained(Ctx c, ByteBuf b) {
    c.label("buffer:held by others too");
    if (b.unwrap() == null) {
      c.own(b);
    }
    return b.retain();
  }

  private static ByteBuf make(Ctx c, Src s, byte[] data, int kind, byte[] after) {
    c.label("buffer:" + READ_KINDS[kind]);
    int off = kind == 0 ? 0 : s.pct(96) ? s.upto(9) : s.pct(70) ? s.upto(300) : 65500 + s.upto(200);
    int slack = kind == 0 ? 0 : s.pct(60) ? 1 + s.upto(64) : 0;
    byte[] pre = junk(s, off, data);
    byte[] post = slack == 0 ? new byte[0] : after == data ? junk(s, slack, data) : after;
    int n = off + data.length + post.length;
    switch (kind) {
      case 0: return Unpooled.wrappedBuffer(data.clone());
      case 1: case 7: case 14: {
        ByteBuf b = Unpooled.buffer(n);
        put(b, pre, data, post);
        return kind == 1 ? b : kind == 14 ? Unpooled.unreleasableBuffer(b) : b.asReadOnly();
      }
      case 2: {
        ByteBuf b = c.own(Unpooled.directBuffer(n));
        put(b, pre, data, post);
        return b;
      }
      case 3: {
        ByteBuf b = c.own(POOL.heapBuffer(n));
        put(b, pre, data, post);
        return b;
      }
      case 4: {
        ByteBuf b = c.own(POOL.directBuffer(n));
        put(b, pre, data, post);
        return b;
      }
      case 5: case 11: case 13: case 15: {
        CompositeByteBuf b = kind == 15 ? null : Unpooled.compositeBuffer(256);
        java.util.List<ByteBuf> list = new java.util.ArrayList<>();
        boolean many = s.pct(8);
        int parts = 1 + s.upto(many ? 70 : 6);
        byte[] all = new byte[n];
        System.arraycopy(pre, 0, all, 0, off);
        System.arraycopy(data, 0, all, off, data.length);
        System.arraycopy(post, 0, all, off + data.length, post.length);
        int p = 0;
        for (int i = 0; i < parts && p < n; i++) {
          int len = i == parts - 1 ? n - p : 1 + s.upto(Math.max(1, many ? 4 : (n - p) / 2 + 1));
          len = Math.min(len, n - p);
          byte[] part = java.util.Arrays.copyOfRange(all, p, p + len);
          ByteBuf x = i % 2 == 0 && kind != 13 ? Unpooled.wrappedBuffer(part) : Unpooled.directBuffer(len).writeBytes(part);
          if (b == null) {
            list.add(x);
          } else {
            b.addComponent(true, x);
          }
          p += len;
        }
        if (b == null) {
          ByteBuf fix = Unpooled.wrappedUnmodifiableBuffer(list.toArray(new ByteBuf[0]));
          return (list.isEmpty() ? fix : c.own(fix)).setIndex(off, off + data.length);
        }
        c.own(b);
        if (kind == 11) {
          return b.slice(off, data.length);
        }
        b.setIndex(off, off + data.length);
        return b;
      }
      case 6: {
        ByteBuf b = Unpooled.buffer(n + 8);
        b.writeZero(4);
        b.setBytes(4, pre);
        b.setBytes(4 + off, data);
        b.setBytes(4 + off + data.length, post);
        b.setIndex(0, b.capacity());
        return b.slice(4 + off, data.length);
      }
      case 8: {
        ByteBuf b = c.own(Unpooled.directBuffer(n));
        put(b, pre, data, post);
        return b.duplicate();
      }
      case 9: case 10: {
        ByteBuffer x = (off % 2 == 0) ? ByteBuffer.allocateDirect(n) : ByteBuffer.allocate(n);
        x.put(pre).put(data).put(post).flip();
        ByteBuf b = c.own(Unpooled.wrappedBuffer(kind == 10 ? x.asReadOnlyBuffer() : x));
        b.setIndex(off, off + data.length);
        return b;
      }
      case 12: {
        ByteBuf b = c.own(POOL.buffer(n + 3));
        b.writeBytes(pre).writeBytes(data).writeBytes(post).writeZero(3);
        return b.slice(off, data.length);
      }
      default: throw new AssertionError();
    }
  }

  private static void put(ByteBuf b, byte[] pre, byte[] data, byte[] post) {
    b.writeBytes(pre).writeBytes(data).writeBytes(post);
    b.setIndex(pre.length, pre.length + data.length);
  }

  /** A buffer with at least room bytes to write beyond the prefix, holding prefix. */
  static ByteBuf writer(Ctx c, Src s, byte[] prefix, int room) {
    return writer(c, s, prefix, room, s.upto(WRITE_KINDS.length));
  }

  static ByteBuf writer(Ctx c, Src s, byte[] prefix, int room, int kind) {
    ByteBuf b = make(c, s, prefix, room, kind);
    return s.pct(4) ? retained(c, b) : b;
  }

  private static ByteBuf make(Ctx c, Src s, byte[] prefix, int room, int kind) {
    c.label("buffer:" + WRITE_KINDS[kind]);
    int n = prefix.length + room;
    ByteBuf b;
    switch (kind) {
      case 0: b = Unpooled.buffer(); break;
      case 1: b = Unpooled.buffer(1); break;
      case 2: b = stale(s, Unpooled.buffer(n + s.upto(20)), n); break;
      case 3: b = stale(s, c.own(Unpooled.directBuffer(n)), n); break;
      case 4: b = stale(s, c.own(POOL.heapBuffer(n)), n); break;
      case 5: b = stale(s, c.own(POOL.directBuffer(n)), n); break;
      case 6: b = c.own(Unpooled.compositeBuffer(64)); break;
      case 7: {
        ByteBuf big = Unpooled.buffer(n + 40);
        big.setIndex(0, big.capacity());
        b = stale(s, big.slice(s.upto(20), n), n);
        break;
      }
      case 8: b = stale(s, Unpooled.wrappedBuffer(new byte[n]).clear(), n); break;
      case 9: b = c.own(Unpooled.directBuffer(1)); break;
      case 10: b = c.own(POOL.buffer(1)); break;
      case 11: b = Unpooled.buffer(n, n); break;
      case 12: case 13: {
        CompositeByteBuf x = c.own(Unpooled.compositeBuffer(256));
        int most = s.pct(92) ? 8 : 70;
        for (int left = n + s.upto(20), i = 0; left > 0; i++) {
          int len = i == most ? left : Math.min(left, 1 + s.upto(i % 2 == 0 || most > 8 ? 12 : Math.max(1, n / 2)));
          x.addComponent(stale(s, kind == 13 || i % 3 == 1 ? Unpooled.directBuffer(len) : Unpooled.buffer(len), len).writerIndex(len));
          left -= len;
        }
        b = x;
        break;
      }
      case 14: b = Unpooled.unreleasableBuffer(stale(s, Unpooled.buffer(n + s.upto(20)), n)); break;
      case 15: b = stale(s, c.own(Unpooled.directBuffer(n)), n).duplicate(); break;
      default: throw new AssertionError();
    }
    b.writeBytes(prefix);
    if (prefix.length > 0) {
      b.readerIndex(s.upto(prefix.length + 1));
    }
    return b;
  }

  private static ByteBuf stale(Src s, ByteBuf b, int n) {
    byte[] j = junk(s, n, new byte[] {1, 2, 3});
    b.clear();
    b.writeBytes(j);
    b.clear();
    return b;
  }

  /** A buffer that can hold exactly cap bytes in total and never grows. */
  static ByteBuf bounded(Ctx c, Src s, byte[] prefix, int room) {
    int n = prefix.length + room;
    ByteBuf b;
    switch (s.upto(5)) {
      case 0: b = Unpooled.buffer(n, n); break;
      case 1: b = Unpooled.wrappedBuffer(new byte[n]).clear(); break;
      case 2: b = c.own(Unpooled.directBuffer(n, n)); break;
      case 3: {
        ByteBuf big = Unpooled.buffer(n + 40);
        big.setIndex(0, big.capacity());
        b = big.slice(7, n).clear();
        break;
      }
      default: b = c.own(POOL.buffer(Math.min(n, 16), n)); break;
    }
    return b.writeBytes(prefix);
  }

  /** The caller's marks: places in the buffer to come back to. */
  static final class Marks {
    final ByteBuf b;
    final int r, w;

    /** Puts marks, the buffer's indices staying where they are. */
    Marks(Src s, ByteBuf b) {
      this.b = b;
      int ri = b.readerIndex(), wi = b.writerIndex();
      r = s.pct(40) ? ri : s.upto(ri + 1);
      w = s.pct(40) ? wi : ri + s.upto(wi - ri + 1);
      b.readerIndex(r).markReaderIndex().readerIndex(ri);
      b.writerIndex(w).markWriterIndex().writerIndex(wi);
    }

    void check(Ctx c) {
      int ri = b.readerIndex(), wi = b.writerIndex();
      b.resetReaderIndex();
      int r2 = b.readerIndex();
      b.setIndex(0, wi);
      b.resetWriterIndex();
      int w2 = b.writerIndex();
      b.setIndex(ri, wi);
      c.check(r2 == r, () -> "the caller's reader mark moved from " + r + " to " + r2);
      c.check(w2 == w, () -> "the caller's writer mark moved from " + w + " to " + w2);
    }
  }

  static boolean writable(ByteBuf b) {
    return !b.isReadOnly() && !b.getClass().getSimpleName().equals("FixedCompositeByteBuf");
  }

  static byte[] content(ByteBuf b, int from, int len) {
    byte[] r = new byte[len];
    b.getBytes(from, r);
    return r;
  }
}
