package vf;

import java.util.List;

/** Rendering for reports. */
final class R {
  static String hex(byte[] b, int max) {
    StringBuilder sb = new StringBuilder();
    int n = Math.min(b.length, max);
    for (int i = 0; i < n; i++) {
      sb.append(Character.forDigit((b[i] >> 4) & 15, 16)).append(Character.forDigit(b[i] & 15, 16));
    }
    if (n < b.length) {
      sb.append("..(").append(b.length).append(" bytes)");
    }
    return sb.toString();
  }

  static String q(String s) {
    if (s == null) {
      return "null";
    }
    StringBuilder sb = new StringBuilder("\"");
    for (int i = 0; i < s.length() && i < 160; i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') {
        sb.append('\\').append(c);
      } else if (c >= 32 && c < 127) {
        sb.append(c);
      } else {
        sb.append(String.format("\\u%04x", (int) c));
      }
    }
    if (s.length() > 160) {
      sb.append("..(").append(s.length()).append(")");
    }
    return sb.append('"').toString();
  }

  static String val(Object o, int max) {
    StringBuilder sb = new StringBuilder();
    val(sb, o, max);
    return sb.length() > max ? sb.substring(0, max) + "..." : sb.toString();
  }

  private static void val(StringBuilder sb, Object o, int max) {
    if (sb.length() > max) {
      return;
    }
    if (o instanceof M) {
      M m = (M) o;
      sb.append(m.t.id()).append('{');
      boolean first = true;
      for (Spec.Field f : m.t.fields) {
        if (!first) {
          sb.append(", ");
        }
        first = false;
        sb.append(f.name).append('=');
        val(sb, m.v[f.idx], max);
      }
      sb.append('}');
    } else if (o instanceof String) {
      sb.append(q((String) o));
    } else if (o instanceof List) {
      List<?> l = (List<?>) o;
      sb.append('[');
      int i = 0;
      for (Object x : l) {
        if (i > 0) {
          sb.append(", ");
        }
        if (i++ >= 12) {
          sb.append("..").append(l.size()).append(" elements");
          break;
        }
        val(sb, x, max);
      }
      sb.append(']');
    } else if (o instanceof byte[]) {
      sb.append(hex((byte[]) o, 200));
    } else {
      sb.append(o);
    }
  }

  static long hash(byte[] b) {
    long h = 1125899906842597L;
    for (byte x : b) {
      h = 31 * h + x;
    }
    return h ^ b.length;
  }

  static int firstDiff(byte[] a, byte[] b) {
    int n = Math.min(a.length, b.length);
    for (int i = 0; i < n; i++) {
      if (a[i] != b[i]) {
        return i;
      }
    }
    return a.length == b.length ? -1 : n;
  }

  static String cmp(byte[] exp, byte[] act) {
    int i = firstDiff(exp, act);
    int from = Math.max(0, i - 4);
    return "differ at byte " + i + " (expected " + exp.length + " bytes, got " + act.length
        + "): expected ..." + hex(java.util.Arrays.copyOfRange(exp, Math.min(from, exp.length), exp.length), 24)
        + " got ..." + hex(java.util.Arrays.copyOfRange(act, Math.min(from, act.length), act.length), 24);
  }
}
