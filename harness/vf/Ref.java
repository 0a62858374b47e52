package vf;

import java.io.ByteArrayOutputStream;
import java.nio.ByteBuffer;
import java.nio.charset.CharacterCodingException;
import java.nio.charset.CodingErrorAction;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/**
 * The reference codec: an independent implementation of the wire layouts over plain byte arrays
 * (no netty, nothing of the code under test).
 */
final class Ref {
  /** A body whose bytes are given: a codec of the user's own. */
  static final class Raw {
    final byte[] data;

    Raw(byte[] d) {
      data = d;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Raw && Arrays.equals(data, ((Raw) o).data);
    }

    @Override
    public int hashCode() {
      return Arrays.hashCode(data);
    }

    @Override
    public String toString() {
      return "Raw[" + R.hex(data, 24) + "]";
    }
  }

  /** A part that is of a user's subclass: bytes of its own before and after what the protocol type writes, or instead of it. */
  static final class Part {
    final M m;
    byte[] pre, post;
    boolean only;

    Part(M m) {
      this.m = m;
    }

    @Override
    public String toString() {
      return "Own[" + R.hex(pre, 12) + (only ? " instead of " : " around ") + R.val(m, 400) + "]";
    }
  }

  private static void part(Object v, Out o, Sums sums) {
    if (v instanceof Part) {
      Part p = (Part) v;
      o.write(p.pre, 0, p.pre.length);
      if (!p.only) {
        enc(p.m, o, sums);
        o.write(p.post, 0, p.post.length);
      }
    } else {
      enc((M) v, o, sums);
    }
  }

  interface Sums {
    /** null: no service registered under that name. */
    Integer sum(String algo, byte[] frame);
  }

  static final Sums BUILTIN = Ref::sum;

  static Integer sum(String algo, byte[] b) {
    switch (algo) {
      case "CRC32": {
        java.util.zip.CRC32 c = new java.util.zip.CRC32();
        c.update(b, 0, b.length);
        return (int) c.getValue();
      }
      case "CRC16": {
        int crc = 0xFFFF;
        for (byte x : b) {
          crc ^= x & 0xFF;
          for (int i = 0; i < 8; i++) {
            crc = (crc & 1) != 0 ? (crc >> 1) ^ 0xA001 : crc >> 1;
          }
        }
        return crc;
      }
      case "SSE_BIN":
      case "SZSE_BIN": {
        long t = 0;
        for (byte x : b) {
          t += x & 0xFF;
        }
        return (int) (t % 256);
      }
      default: throw new IllegalArgumentException(algo);
    }
  }

  static final class Out extends ByteArrayOutputStream {
    final List<Integer> marks = new ArrayList<>();

    byte[] from(int p) {
      return Arrays.copyOfRange(buf, p, count);
    }

    void num(long v, int w, boolean le) {
      for (int i = 0; i < w; i++) {
        write((int) (v >>> (8 * (le ? i : w - 1 - i))));
      }
    }

    void put(int pos, long v, int w, boolean le) {
      for (int i = 0; i < w; i++) {
        buf[pos + i] = (byte) (v >>> (8 * (le ? i : w - 1 - i)));
      }
    }
  }

  /** Encodes; the length and checksum fields of frames inside m are set as a side effect. */
  static byte[] encode(M m) {
    return encode(m, BUILTIN);
  }

  static byte[] encode(M m, Sums sums) {
    Out o = new Out();
    enc(m, o, sums);
    return o.toByteArray();
  }

  static Out encodeOut(M m) {
    Out o = new Out();
    enc(m, o, BUILTIN);
    return o;
  }

  static void enc(M m, Out o, Sums sums) {
    boolean le = m.t.mod.le;
    int start = o.size();
    int lenPos = -1;
    for (Spec.Field f : m.t.fields) {
      o.marks.add(o.size());
      if (f.t.k == Spec.K.LEN) {
        lenPos = o.size();
        o.num(0, 4, le);
      } else if (f.t.k == Spec.K.CKSUM) {
        Integer s = sums.sum(f.t.algo, o.from(start));
        if (s != null) {
          m.v[f.idx] = s;
        }
        o.num((Integer) m.v[f.idx], 4, le);
      } else {
        int p = o.size();
        encV(f.t, m.v[f.idx], o, le, sums);
        if (f.t.k == Spec.K.UNION && m.t.len != null) {
          m.v[m.t.len.idx] = o.size() - p;
          o.put(lenPos, o.size() - p, 4, le);
        }
      }
    }
  }

  static byte[] fixed(String s, int width, char pad, boolean left) {
    byte[] b = s == null ? new byte[0] : s.getBytes(StandardCharsets.UTF_8);
    byte[] r = new byte[width];
    Arrays.fill(r, (byte) pad);
    int n = Math.min(b.length, width);
    System.arraycopy(b, 0, r, left ? width - n : 0, n);
    return r;
  }

  static String trim(String s, char pad, boolean left) {
    if (left) {
      int i = 0;
      while (i < s.length() && s.charAt(i) == pad) {
        i++;
      }
      return s.substring(i);
    }
    int e = s.length();
    while (e > 0 && s.charAt(e - 1) == pad) {
      e--;
    }
    return s.substring(0, e);
  }

  static void encV(Spec.Type t, Object v, Out o, boolean le, Sums sums) {
    switch (t.k) {
      case I8: case I16: case I32: case I64:
        o.num(((Number) v).longValue(), t.width, le);
        break;
      case F32: o.num(Float.floatToRawIntBits((Float) v), 4, le); break;
      case F64: o.num(Double.doubleToRawLongBits((Double) v), 8, le); break;
      case STR: {
        byte[] b = fixed((String) v, t.width, t.pad, t.left);
        o.write(b, 0, b.length);
        break;
      }
      case DSTR: {
        byte[] b = v == null ? new byte[0] : ((String) v).getBytes(StandardCharsets.UTF_8);
        o.num(b.length, t.prefix, le);
        o.marks.add(o.size());
        o.write(b, 0, b.length);
        break;
      }
      case LIST: {
        List<?> l = (List<?>) v;
        int n = l == null ? 0 : l.size();
        o.num(n, t.prefix, le);
        for (int i = 0; i < n; i++) {
          o.marks.add(o.size());
          encV(t.elem, l.get(i), o, le, sums);
        }
        break;
      }
      case OBJ: part(v, o, sums); break;
      case UNION:
        if (v instanceof Raw) {
          o.write(((Raw) v).data, 0, ((Raw) v).data.length);
        } else if (v != null) {
          part(v, o, sums);
        }
        break;
      default: throw new IllegalStateException();
    }
  }

  /** The input is not an image of the message. */
  static final class Reject extends RuntimeException {
    final boolean unknownCode;

    Reject(String m, boolean unknownCode) {
      super(m, null, false, false);
      this.unknownCode = unknownCode;
    }
  }

  static final class In {
    final byte[] a;
    int pos;
    final int end;
    boolean malformed;
    boolean negative;
    boolean lenBad;
    boolean sumBad;
    boolean sawUnknown;

    In(byte[] a, int pos, int end) {
      this.a = a;
      this.pos = pos;
      this.end = end;
    }

    long num(int w, boolean le) {
      need(w);
      long v = 0;
      for (int i = 0; i < w; i++) {
        v |= (a[pos + (le ? i : w - 1 - i)] & 0xFFL) << (8 * i);
      }
      pos += w;
      return v;
    }

    void need(int n) {
      if (n > end - pos) {
        throw new Reject("needs " + n + " bytes at " + pos + " of " + end, false);
      }
    }

    String text(int n) {
      need(n);
      try {
        StandardCharsets.UTF_8.newDecoder().onMalformedInput(CodingErrorAction.REPORT)
            .onUnmappableCharacter(CodingErrorAction.REPORT).decode(ByteBuffer.wrap(a, pos, n));
      } catch (CharacterCodingException e) {
        malformed = true;
      }
      String s = new String(a, pos, n, StandardCharsets.UTF_8);
      pos += n;
      return s;
    }
  }

  static M decode(Spec.Msg t, In in) {
    M m = new M(t);
    int start = in.pos;
    boolean le = t.mod.le;
    for (Spec.Field f : t.fields) {
      if (f.t.k == Spec.K.UNION) {
        Object key = m.v[f.t.otherIdx];
        Spec.Msg c = f.t.cases.get(key);
        if (c == null) {
          throw new Reject("unknown code " + key, true);
        }
        int p = in.pos;
        m.v[f.idx] = decode(c, in);
        if (t.len != null && (Integer) m.v[t.len.idx] != in.pos - p) {
          in.lenBad = true;
        }
      } else if (f.t.k == Spec.K.CKSUM) {
        int s = sum(f.t.algo, Arrays.copyOfRange(in.a, start, in.pos));
        m.v[f.idx] = (int) in.num(4, le);
        if ((Integer) m.v[f.idx] != s) {
          in.sumBad = true;
        }
      } else {
        m.v[f.idx] = decV(f.t, in, le);
      }
    }
    return m;
  }

  static Object decV(Spec.Type t, In in, boolean le) {
    switch (t.k) {
      case I8: case I16: case I32: case I64: case F32: case F64: case LEN:
        return M.num(t, in.num(t.width, le));
      case STR: return trim(in.text(t.width), t.pad, t.left);
      case DSTR: {
        long n = count(t, in, le);
        return n == 0 ? null : in.text((int) n);
      }
      case LIST: {
        long n = count(t, in, le);
        if (n == 0) {
          return null;
        }
        List<Object> l = new ArrayList<>();
        for (long i = 0; i < n; i++) {
          l.add(decV(t.elem, in, le));
        }
        return l;
      }
      case OBJ: return decode(t.msg, in);
      default: throw new IllegalStateException();
    }
  }

  private static long count(Spec.Type t, In in, boolean le) {
    long n = in.num(t.prefix, le);
    if (t.prefix == 4 && (int) n < 0) {
      in.negative = true;
      return 0;
    }
    return n;
  }
}
