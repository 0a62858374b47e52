package vf;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/** Structured generators of messages, texts, numbers and lists. */
final class Gen {
  enum Mode {
    /** any value a caller can set. */
    ANY,
    /** any value, but extension and body are what the selector names. */
    FORMED,
    /** as FORMED, and text such that decoding restores it (C03). */
    CANON
  }

  final Src s;
  final Mode mode;
  int maxList = 100000;
  int bigLists = 1;
  /** null: absent parts allowed. */
  boolean raws;
  private Dict dict = Dict.EMPTY;
  /** Draw the same whatever constants the classes have. */
  boolean noDict;
  private final List<Long> seen = new ArrayList<>();
  private final List<String> seenS = new ArrayList<>();
  private int depth;
  private int budget = 400000;

  Gen(Src s, Mode mode) {
    this.s = s;
    this.mode = mode;
  }

  private Dict codec() {
    return noDict ? Dict.EMPTY : Dict.codec;
  }

  /** Percentage of the values that are to be constants new in the classes; see Focus. */
  private int hot = -1;

  private boolean hot(int n) {
    if (n == 0 || noDict) {
      return false;
    }
    if (hot < 0) {
      hot = s.pct(12) ? 92 : s.pct(50) ? 15 : 0;
    }
    return hot > 0 && s.pct(hot);
  }

  M target(Spec.Target t) {
    return msg(t.msg, t.caseIdx);
  }

  M msg(Spec.Msg t, int caseIdx) {
    Dict saved = dict;
    dict = noDict ? Dict.EMPTY : Dict.of(t);
    depth++;
    M m = new M(t);
    int profile = s.pick(84, 4, 6, 6);
    long rep = profile == 3 ? num(64) : 0;
    for (Spec.Field f : t.fields) {
      if (f.t.k == Spec.K.UNION) {
        continue;
      }
      if (profile == 1 && f.t.k != Spec.K.OBJ) {
        if (mode == Mode.CANON && f.t.k == Spec.K.STR) {
          m.v[f.idx] = "";
        }
        continue;
      }
      if (profile == 2 && f.t.num()) {
        m.v[f.idx] = M.num(f.t, f.t.width >= 8 ? (s.pct(50) ? Long.MIN_VALUE : Long.MAX_VALUE)
            : s.pct(50) ? -(1L << (8 * f.t.width - 1)) : (1L << (8 * f.t.width - 1)) - 1);
        fixNum(f, m);
        continue;
      }
      if (profile == 3 && f.t.num()) {
        m.v[f.idx] = M.num(f.t, rep);
        fixNum(f, m);
        continue;
      }
      m.v[f.idx] = value(f.t);
      fixNum(f, m);
    }
    if (t.union != null) {
      union(m, t.union, caseIdx);
    }
    depth--;
    dict = saved;
    return m;
  }

  private void fixNum(Spec.Field f, M m) {
    if (mode == Mode.CANON) {
      // NaN payloads are not preserved by Java float parameters on every platform
      if (m.v[f.idx] instanceof Float && ((Float) m.v[f.idx]).isNaN()) {
        m.v[f.idx] = Float.NaN;
      }
      if (m.v[f.idx] instanceof Double && ((Double) m.v[f.idx]).isNaN()) {
        m.v[f.idx] = Double.NaN;
      }
    }
  }

  private void union(M m, Spec.Field u, int caseIdx) {
    List<Object> keys = u.t.keys;
    int how = mode == Mode.ANY && caseIdx < 0 ? s.pick(60, 14, 13, 13) : 0;
    if (depth > 3) {
      how = 1;
    }
    if (how == 0) {
      Object key = keys.get(caseIdx >= 0 ? caseIdx : s.upto(keys.size()));
      m.v[u.t.otherIdx] = key;
      m.v[u.idx] = msg(u.t.cases.get(key), -1);
    } else if (how == 1) {
      m.v[u.idx] = null;
    } else if (how == 2) {
      // a body the selector does not name
      List<Spec.Msg> all = Bridge.spec.all;
      m.v[u.idx] = msg(all.get(s.upto(all.size())), -1);
    } else if (raws) {
      m.v[u.idx] = new Ref.Raw(s.bytes(size(true)));
    } else {
      m.v[u.idx] = null;
    }
  }

  Object value(Spec.Type t) {
    switch (t.k) {
      case I8: case I16: case I32: case I64: case LEN: case CKSUM:
        return M.num(t, num(8 * t.width));
      case F32: {
        float f = Float.intBitsToFloat((int) fnum(32));
        return Float.isNaN(f) ? (Object) Float.NaN : (Object) f;
      }
      case F64: {
        double d = Double.longBitsToDouble(fnum(64));
        return Double.isNaN(d) ? (Object) Double.NaN : (Object) d;
      }
      case STR: return fixed(t.width, t.pad, t.left);
      case DSTR: return dyn(t.prefix == 2 ? 65535 : 200000, false);
      case LIST: return list(t);
      case OBJ: return msg(t.msg, -1);
      default: throw new IllegalStateException();
    }
  }

  private long fnum(int bits) {
    switch (s.pick(30, 10, 10, 50)) {
      case 0: {
        double d = num(32) / (s.pct(50) ? 100.0 : 1.0);
        return bits == 32 ? Float.floatToRawIntBits((float) d) & 0xFFFFFFFFL : Double.doubleToRawLongBits(d);
      }
      case 1: {
        double[] x = {0.0, -0.0, 1.0, -1.0, 0.1, Double.MAX_VALUE, Double.MIN_VALUE, Double.NaN,
          Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, Float.MAX_VALUE, Float.MIN_VALUE, 1e16, 1.0 / 3};
        double d = x[s.upto(x.length)];
        return bits == 32 ? Float.floatToRawIntBits((float) d) & 0xFFFFFFFFL : Double.doubleToRawLongBits(d);
      }
      case 2: return num(bits);
      default: return s.raw();
    }
  }

  /** A number of the given width, with the values that matter to codecs over-represented. */
  long num(int bits) {
    long v;
    if (hot(Focus.nums.length)) {
      v = Focus.nums[s.upto(Focus.nums.length)];
      return s.pct(75) ? v : v + s.upto(3) - 1;
    }
    switch (s.pick(12, 16, 20, 7, 12, 10, 5, 12, Focus.changed.isEmpty() ? 8 : 16)) {
      case 0: v = s.upto(11); break;
      case 1: {
        v = (1L << s.upto(bits)) + s.upto(3) - 1;
        if (s.pct(35)) {
          v = -v;
        }
        break;
      }
      case 2: v = s.raw(); break;
      case 3: {
        v = 1 + s.upto(9);
        for (int i = s.upto(19); i > 0; i--) {
          v *= 10;
        }
        v += s.upto(3) - 1;
        break;
      }
      case 4: {
        long min = bits == 64 ? Long.MIN_VALUE : -(1L << (bits - 1));
        long[] x = {-1, min, ~min, min + 1, -2, ~min - 1};
        v = x[s.upto(x.length)];
        break;
      }
      case 5: {
        long b = s.upto(256);
        v = s.pct(50) ? b * 0x0101010101010101L : b << (8 * s.upto(bits / 8));
        break;
      }
      case 6: {
        long day = (2000 + s.upto(60)) * 10000L + (1 + s.upto(12)) * 100 + 1 + s.upto(31);
        long time = s.upto(24) * 10000000L + s.upto(60) * 100000L + s.upto(60) * 1000L + s.upto(1000);
        v = bits == 64 ? (s.pct(50) ? day * 1000000000L + time : time) : (s.pct(50) ? day : time);
        break;
      }
      case 7: {
        Dict d = s.pct(25) || !dict.any ? codec() : dict;
        v = d.nums[s.upto(d.nums.length)];
        if (s.pct(25)) {
          // numbers that stand in some relation to two constants
          if (s.pct(60) && d.base.length > 0) {
            v = d.base[s.upto(d.base.length)];
          }
          long w = s.pct(60) && d.base.length > 0 ? d.base[s.upto(d.base.length)] : d.nums[s.upto(d.nums.length)];
          switch (s.upto(4)) {
            case 0: v = v * (s.pct(70) ? s.upto(12) : s.upto(2000)) + w; break;
            case 1: v = s.raw() & ~v | w; break;
            case 2: v = s.raw() & v; break;
            default: v = (s.raw() & (1L << bits - 1) - 1) / Math.max(1, Math.abs(v)) * v + w;
          }
        }
        break;
      }
      default: {
        v = seen.isEmpty() ? 0 : seen.get(s.upto(seen.size()));
        if (s.pct(40)) {
          // numbers that stand in some relation to one seen before
          switch (s.upto(9)) {
            case 6: v = v / (2 + s.upto(9)); break;
            case 7: v += seen.isEmpty() ? 0 : seen.get(s.upto(seen.size())); break;
            case 8: v = (seen.isEmpty() ? 0 : seen.get(s.upto(seen.size()))) - v; break;
            case 0: v = -v; break;
            case 1: v = v + 1; break;
            case 2: v = v - 1; break;
            case 3: v = v * (2 + s.upto(9)); break;
            case 4: v = ~v; break;
            default: v ^= 1L << s.upto(bits);
          }
        }
      }
    }
    if (seen.size() < 24) {
      seen.add(v);
    }
    return v;
  }

  private String suggested() {
    String v = Focus.strs[s.upto(Focus.strs.length)];
    if (s.pct(75)) {
      return v;
    }
    StringBuilder b = new StringBuilder();
    if (s.pct(50)) {
      alnum(b, s.upto(4));
    }
    b.append(v);
    if (s.pct(50)) {
      alnum(b, s.upto(4));
    }
    return b.toString();
  }

  private static final String ALNUM = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
  private static final int[] WIDE = {0xE9, 0x7FF, 0x80, 0x4E2D, 0x56FD, 0x6DF1, 0xFFFD, 0xFEFF, 0x800, 0xFFFF,
    0x1F600, 0x10000, 0x10FFFF, 0xA0, 0x3000, 0x2028};

  /** Words that mean something to formatting, pattern, number and escape code. */
  static final String[] ODD = {"null", "NaN", "true", "false", "-1", "0", "1e3", "0x1F", "1.0", "[]", "{}", "[a, b]", "a, b", ",", "=", "]", "%", "%s", "%n",
    "%d%d", "%1$s", "$1", "${x}", "\\", "\\u0041", "\\0", "\"", "'", "&amp;", "a  b", "a\tb", "e\u0301", "\u00e9", "\u0130", "\u0131", "\u00df",
    "\u0660\u0661", "\u212a", "\uff21", "A\u00ad", "\u200b", "\u2212" + "5", "\u202e" + "ab", "+5", "007", "1,000", "N/A", "-", ".", "*", "?", "/", ":", ";", "|", "#"};

  private void alnum(StringBuilder b, int n) {
    if (n > 24) {
      Src x = s.bulk();
      for (int i = 0; i < n; i++) {
        b.append(ALNUM.charAt(x.upto(62)));
      }
    } else {
      for (int i = 0; i < n; i++) {
        b.append(ALNUM.charAt(s.upto(62)));
      }
    }
  }

  private void wide(StringBuilder b, int n) {
    Src x = n > 12 ? s.bulk() : s;
    for (int i = 0; i < n; i++) {
      int k = x.upto(3);
      b.appendCodePoint(k == 0 ? 'a' : WIDE[x.upto(WIDE.length)]);
    }
  }

  static int utf8(String v) {
    return v.getBytes(java.nio.charset.StandardCharsets.UTF_8).length;
  }

  private static void rep(StringBuilder b, char c, int n) {
    for (int i = 0; i < n; i++) {
      b.append(c);
    }
  }

  /** Text for a fixed-width field. */
  String fixed(int w, char pad, boolean left) {
    String v = fixed0(w, pad, left);
    if (mode == Mode.CANON) {
      if (v == null) {
        v = "";
      }
      v = Ref.trim(wellFormed(v), pad, left);
      while (utf8(v) > w) {
        v = v.substring(0, v.offsetByCodePoints(v.length(), -1));
        v = Ref.trim(v, pad, left);
      }
    }
    if (mode == Mode.FORMED && v != null) {
      v = wellFormed(v);
      while (utf8(v) > w) {
        v = v.substring(0, v.offsetByCodePoints(v.length(), -1));
      }
    }
    if (v != null && seenS.size() < 12 && v.length() < 100) {
      seenS.add(v);
    }
    return v;
  }

  static String wellFormed(String v) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < v.length(); i++) {
      char c = v.charAt(i);
      if (Character.isHighSurrogate(c) && i + 1 < v.length() && Character.isLowSurrogate(v.charAt(i + 1))) {
        b.append(c).append(v.charAt(++i));
      } else if (!Character.isSurrogate(c)) {
        b.append(c);
      } else {
        b.append('x');
      }
    }
    return b.toString();
  }

  private String fixed0(int w, char pad, boolean left) {
    StringBuilder b = new StringBuilder();
    if (hot(Focus.strs.length) && s.pct(85)) {
      return suggested();
    }
    switch (s.pick(8, 18, 20, 5, 8, 6, 8, 5, 9, 4, 6, 5, Focus.changed.isEmpty() ? 4 : 10, 3)) {
      case 0: return "";
      case 1: alnum(b, w); break;
      case 2: alnum(b, s.range(0, w)); break;
      case 3: return null;
      case 4: alnum(b, w + 1 + s.upto(s.pct(80) ? 4 : 300)); break;
      case 5: { // pad characters around
        rep(b, pad, s.range(0, Math.min(w, 4)));
        alnum(b, s.range(0, Math.max(0, w - b.length())));
        rep(b, pad, s.range(0, Math.max(0, w - b.length())));
        break;
      }
      case 6: { // pad characters on the side that is kept, and inside
        int a = s.range(1, 3), c = s.range(0, 3);
        String core;
        StringBuilder k = new StringBuilder();
        alnum(k, s.range(0, Math.max(0, (w - a - c) / 2)));
        rep(k, pad, c);
        alnum(k, s.range(0, Math.max(0, w - a - k.length())));
        core = k.toString();
        if (left) {
          b.append(core);
          rep(b, pad, a);
        } else {
          rep(b, pad, a);
          b.append(core);
        }
        break;
      }
      case 7: rep(b, s.pct(70) ? pad : " 0\0".charAt(s.upto(3)), s.range(0, w + 2)); break;
      case 8: { // wide characters, fitting or crossing the cut
        if (s.pct(50)) {
          alnum(b, s.range(0, w));
        }
        wide(b, 1 + s.upto(Math.max(1, w / 2)));
        break;
      }
      case 9: { // white space and control characters
        if (s.pct(20)) {
          return s.of(ODD);
        }
        String ws = " \t\n\r\0\u00010\u007f\u001f\u000b\u00a0\u3000";
        int n = s.range(0, Math.min(w + 1, 20));
        for (int i = 0; i < n; i++) {
          b.append(s.pct(30) ? ALNUM.charAt(s.upto(62)) : ws.charAt(s.upto(ws.length())));
        }
        break;
      }
      case 10: { // numbers with leading zeros, signs
        if (s.pct(20)) {
          b.append("-+ ".charAt(s.upto(3)));
        }
        rep(b, '0', s.range(0, w));
        b.append(s.upto(100000));
        if (b.length() > w && s.pct(80)) {
          b.setLength(w);
        }
        break;
      }
      case 11: {
        Dict d = s.pct(20) ? codec() : dict;
        b.append(d.strs[s.upto(d.strs.length)]);
        break;
      }
      case 12: {
        String x = seenS.isEmpty() ? "" : seenS.get(s.upto(seenS.size()));
        switch (s.pick(60, 8, 8, 8, 8, 8)) {
          case 0: return x;
          case 1: return x + "1";
          case 2: return x.isEmpty() ? x : x.substring(0, x.length() - 1);
          case 3: return x.toLowerCase(java.util.Locale.ROOT);
          case 4: return new StringBuilder(x).reverse().toString();
          default: return x.substring(0, x.length() / 2) + x;
        }
      }
      default: { // not valid UTF-16
        alnum(b, s.range(0, Math.min(w, 3)));
        b.append(s.pct(50) ? '\ud83d' : '\udc00');
        alnum(b, s.range(0, 2));
        break;
      }
    }
    return b.toString();
  }

  /** Sizes around the places where counters and length encodings break. */
  int size(boolean bytes) {
    int k = hot(Focus.sizes.length) && s.pct(40) ? 7 : s.pick(18, 24, 34, 14, 6, 3, 1);
    int z;
    switch (k) {
      case 7: {
        z = Math.max(0, s.of(Focus.sizes) + s.upto(3) - 1);
        if (z > 5000 && !s.pct(5)) {
          z = z % 300;
        }
        break;
      }
      case 0: z = 0; break;
      case 1: z = 1; break;
      case 2: z = 2 + s.upto(5); break;
      case 3: z = 6 + s.upto(30); break;
      case 4: z = new int[] {127, 128, 129, 255, 256, 257, 63, 64, 65, 100}[s.upto(10)]; break;
      case 5: {
        Dict d = s.pct(50) || !dict.any ? codec() : dict;
        z = d.sizes[s.upto(d.sizes.length)];
        if (z > 5000 && !s.pct(5)) {
          z = z % 300;
        }
        break;
      }
      default: z = s.pct(100 - 6 * bigLists) ? 300 + s.upto(1500)
          : new int[] {32767, 32768, 32769, 40000, 65535, 65534, 4096, 8192, 16384}[s.upto(9)];
    }
    if (!bytes && z > maxList) {
      z = maxList;
    }
    if (z > budget) {
      z = Math.min(3, budget < 0 ? 0 : 3);
    }
    budget -= z;
    return z;
  }

  String dyn(int maxBytes, boolean inList) {
    StringBuilder b = new StringBuilder();
    int k = hot(Focus.strs.length) && s.pct(85) ? 8 : s.pick(46, 8, 5, 12, 6, 8, 8, 7);
    switch (k) {
      case 8: b.append(suggested()); break;
      case 0: alnum(b, inList ? s.upto(12) : size(true)); break;
      case 1: return mode == Mode.CANON && !inList ? null : "";
      case 2: return mode == Mode.CANON && inList ? "" : null;
      case 3: wide(b, 1 + s.upto(8)); break;
      case 4: {
        if (s.pct(20)) {
          b.append(s.of(ODD));
          break;
        }
        String ws = " \t\n\r\0\u00010\u007f";
        int n = s.upto(8);
        for (int i = 0; i < n; i++) {
          b.append(s.pct(40) ? ALNUM.charAt(s.upto(62)) : ws.charAt(s.upto(ws.length())));
        }
        break;
      }
      case 5: {
        rep(b, s.pct(50) ? ' ' : '0', s.upto(4));
        alnum(b, s.upto(10));
        rep(b, s.pct(50) ? ' ' : '0', s.upto(4));
        break;
      }
      case 6: {
        if (seenS.isEmpty() || s.pct(50)) {
          Dict d = s.pct(20) ? codec() : dict;
          b.append(d.strs[s.upto(d.strs.length)]);
        } else {
          b.append(seenS.get(s.upto(seenS.size())));
        }
        break;
      }
      default: {
        if (mode == Mode.ANY) {
          b.append(s.pct(50) ? '\ud83d' : '\udc00');
        }
        alnum(b, s.upto(4));
      }
    }
    String v = b.toString();
    if (mode != Mode.ANY) {
      v = wellFormed(v);
    }
    while (utf8(v) > maxBytes) {
      v = v.substring(0, v.length() / 2);
    }
    if (mode == Mode.CANON && !inList && v.isEmpty()) {
      return null;
    }
    if (seenS.size() < 12 && v.length() < 100) {
      seenS.add(v);
    }
    return v;
  }

  List<Object> list(Spec.Type t) {
    if (mode == Mode.CANON) {
      int n = size(false);
      return n == 0 ? null : elems(t, n);
    }
    if (s.pct(8)) {
      return null;
    }
    return elems(t, size(false));
  }

  List<Object> elems(Spec.Type t, int n) {
    if (t.elem.k == Spec.K.OBJ && n > 3000) {
      n = 3000;
    }
    if (t.prefix == 2 && n > 65535) {
      n = 65535;
    }
    List<Object> l = new ArrayList<>(n);
    Gen g = this;
    if (n > 12) {
      g = new Gen(s.bulk(), mode);
      g.dict = dict;
      g.noDict = noDict;
      g.hot = hot;
      g.depth = depth;
      g.maxList = 3;
      g.budget = 20000;
    }
    for (int i = 0; i < n; i++) {
      if (i > 0 && t.elem.k == Spec.K.OBJ && g.s.pct(4)) {
        l.add(l.get(i - 1)); // the same object twice
        continue;
      }
      l.add(t.elem.k == Spec.K.DSTR ? dynElem(g) : g.elem(t.elem));
    }
    return l;
  }

  private Object dynElem(Gen g) {
    return g.dyn(60000, true);
  }

  Object elem(Spec.Type t) {
    if (t.k == Spec.K.OBJ) {
      return msg(t.msg, -1);
    }
    return value(t);
  }



  static List<Object> listOf(Object... a) {
    return new ArrayList<>(Arrays.asList(a));
  }
}
