package vf;

import java.util.ArrayList;
import java.util.List;

/** A message value of the reference model. */
final class M {
  final Spec.Msg t;
  final Object[] v;

  M(Spec.Msg t) {
    this.t = t;
    this.v = new Object[t.fields.size()];
    for (Spec.Field f : t.fields) {
      v[f.idx] = zero(f.t);
    }
  }

  static Object zero(Spec.Type t) {
    switch (t.k) {
      case I8: return (byte) 0;
      case I16: return (short) 0;
      case I32: case LEN: case CKSUM: return 0;
      case I64: return 0L;
      case F32: return 0f;
      case F64: return 0d;
      default: return null;
    }
  }

  static Object num(Spec.Type t, long x) {
    switch (t.k) {
      case I8: return (byte) x;
      case I16: return (short) x;
      case I32: case LEN: case CKSUM: return (int) x;
      case I64: return x;
      case F32: return Float.intBitsToFloat((int) x);
      case F64: return Double.longBitsToDouble(x);
      default: throw new IllegalArgumentException();
    }
  }

  Object get(Spec.Field f) {
    return v[f.idx];
  }

  M copy() {
    M m = new M(t);
    for (int i = 0; i < v.length; i++) {
      m.v[i] = copyV(v[i]);
    }
    return m;
  }

  static Object copyV(Object o) {
    if (o instanceof M) {
      return ((M) o).copy();
    }
    if (o instanceof List) {
      List<Object> l = new ArrayList<>();
      for (Object x : (List<?>) o) {
        l.add(copyV(x));
      }
      return l;
    }
    return o;
  }

  /** Exact equality of all values (null and empty differ, floats by their bits, any NaN alike). */
  static boolean same(Object a, Object b) {
    if (a instanceof M && b instanceof M) {
      M x = (M) a, y = (M) b;
      if (x.t != y.t) {
        return false;
      }
      for (int i = 0; i < x.v.length; i++) {
        if (!same(x.v[i], y.v[i])) {
          return false;
        }
      }
      return true;
    }
    if (a instanceof List && b instanceof List) {
      List<?> x = (List<?>) a, y = (List<?>) b;
      if (x.size() != y.size()) {
        return false;
      }
      for (int i = 0; i < x.size(); i++) {
        if (!same(x.get(i), y.get(i))) {
          return false;
        }
      }
      return true;
    }
    return a == null ? b == null : a.equals(b);
  }

  /** First difference with absent and empty text or lists taken as the same; null if none. */
  static String diff(String path, Object exp, Object act) {
    if (exp instanceof M && act instanceof M) {
      M x = (M) exp, y = (M) act;
      if (x.t != y.t) {
        return path + ": expected type " + x.t + " but got " + y.t;
      }
      for (Spec.Field f : x.t.fields) {
        String d = diff(path + "." + f.name, x.v[f.idx], y.v[f.idx]);
        if (d != null) {
          return d;
        }
      }
      return null;
    }
    if (empty(exp) && empty(act)) {
      return null;
    }
    if (exp instanceof List && act instanceof List) {
      List<?> x = (List<?>) exp, y = (List<?>) act;
      if (x.size() != y.size()) {
        return path + ": expected " + x.size() + " elements but got " + y.size();
      }
      for (int i = 0; i < x.size(); i++) {
        String d = diff(path + "[" + i + "]", x.get(i), y.get(i));
        if (d != null) {
          return d;
        }
      }
      return null;
    }
    if (exp != null && exp.equals(act)) {
      return null;
    }
    return path + ": expected " + R.val(exp, 200) + " but got " + R.val(act, 200);
  }

  private static boolean empty(Object o) {
    return o == null || (o instanceof String && ((String) o).isEmpty())
        || (o instanceof List && ((List<?>) o).isEmpty());
  }

  @Override
  public String toString() {
    return R.val(this, 4000);
  }
}
