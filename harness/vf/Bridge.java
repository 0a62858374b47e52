package vf;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.ByteBuf;
import java.lang.reflect.Constructor;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.util.AbstractList;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.IdentityHashMap;
import java.util.LinkedList;
import java.util.List;
import java.util.Set;
import java.util.Vector;
import java.util.concurrent.CopyOnWriteArrayList;

/** Converts between model values and real message objects, through their public API only. */
final class Bridge {
  static final class Access {
    Class<?> cls;
    Constructor<?> ctor;
    Method[] get;
    Method[] set;
  }

  /** A user's own body type. */
  static class RawCodec implements BinaryCodec {
    byte[] data;

    RawCodec(byte[] d) {
      data = d;
    }

    @Override
    public void encode(ByteBuf b) {
      b.writeBytes(data);
    }

    @Override
    public void decode(ByteBuf b) {
      byte[] x = new byte[data.length];
      b.readBytes(x);
      data = x;
    }
  }

  /** A read-only list that is no ArrayList: every modification throws. */
  static final class ViewList extends AbstractList<Object> {
    private final Object[] a;

    ViewList(Object[] a) {
      this.a = a;
    }

    @Override
    public Object get(int i) {
      return a[i];
    }

    @Override
    public int size() {
      return a.length;
    }
  }

  static Spec spec;

  static void bind(Spec s) throws ReflectiveOperationException {
    spec = s;
    for (Spec.Msg m : s.all) {
      Access a = new Access();
      a.cls = Class.forName(m.mod.pkg + "." + m.name);
      a.ctor = a.cls.getConstructor();
      a.get = new Method[m.fields.size()];
      a.set = new Method[m.fields.size()];
      for (Spec.Field f : m.fields) {
        String cap = Character.toUpperCase(f.name.charAt(0)) + f.name.substring(1);
        for (Method x : a.cls.getMethods()) {
          if (x.getName().equals("get" + cap) && x.getParameterCount() == 0) {
            a.get[f.idx] = x;
          }
          if (x.getName().equals("set" + cap) && x.getParameterCount() == 1) {
            a.set[f.idx] = x;
          }
        }
        if (a.get[f.idx] == null || a.set[f.idx] == null) {
          throw new NoSuchMethodException("accessors of " + f);
        }
      }
      m.acc = a;
      s.byClass.put(a.cls, m);
    }
  }

  static BinaryCodec fresh(Spec.Msg m) {
    try {
      return (BinaryCodec) m.acc.ctor.newInstance();
    } catch (InvocationTargetException e) {
      throw new Fail("constructor of " + m + " threw " + e.getCause(), e.getCause());
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  static void set(Object real, Spec.Field f, Object v) {
    try {
      f.owner.acc.set[f.idx].invoke(real, v);
    } catch (InvocationTargetException e) {
      throw new Fail("setter of " + f + " threw " + e.getCause(), e.getCause());
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  static Object get(Object real, Spec.Field f) {
    try {
      return f.owner.acc.get[f.idx].invoke(real);
    } catch (InvocationTargetException e) {
      throw new Fail("getter of " + f + " threw " + e.getCause(), e.getCause());
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  static BinaryCodec toReal(M m, Src s) {
    BinaryCodec r = fresh(m.t);
    fill(r, m, s);
    return r;
  }

  static void fill(BinaryCodec r, M m, Src s) {
    int kind = s == null || !hasList(m.t) ? 0 : s.upto(8);
    int n = m.t.fields.size();
    int from = s == null || n < 2 ? 0 : s.upto(n); // in what order fields are set is the caller's choice
    for (int i = 0; i < n; i++) {
      Spec.Field f = m.t.fields.get((from + i) % n);
      set(r, f, toVal(f.t, m.v[f.idx], s, kind));
    }
  }

  /** Gives the object the values of m, keeping the nested objects and lists it has where it can. */
  static void update(BinaryCodec r, M m) {
    update(r, m, Collections.newSetFromMap(new IdentityHashMap<>()));
  }

  /** done: the objects that have their new value; an object in several places gets only one of them. */
  private static void update(BinaryCodec r, M m, Set<Object> done) {
    for (Spec.Field f : m.t.fields) {
      Object v = m.v[f.idx];
      if (!inPlace(get(r, f), f.t, v, done)) {
        set(r, f, toVal(f.t, v, null, 0));
      }
    }
  }

  /** Whether the object (a message or a list) could be given the value v. */
  private static boolean inPlace(Object old, Spec.Type t, Object v, Set<Object> done) {
    if (old == null || v == null) {
      return false;
    }
    if (v instanceof M) {
      if (spec.byClass.get(old.getClass()) != ((M) v).t) {
        return false;
      }
      if (!done.add(old)) {
        return false;
      }
      update((BinaryCodec) old, (M) v, done);
      return true;
    }
    if (v instanceof Ref.Raw && old instanceof RawCodec && done.add(old)) {
      ((RawCodec) old).data = ((Ref.Raw) v).data.clone();
      return true;
    }
    if (v instanceof List && old instanceof List && done.add(old)) {
      @SuppressWarnings("unchecked")
      List<Object> real = (List<Object>) old;
      List<?> want = (List<?>) v;
      try {
        while (real.size() > want.size()) {
          real.remove(real.size() - 1);
        }
        for (int i = 0; i < want.size(); i++) {
          if (i >= real.size()) {
            real.add(toVal(t.elem, want.get(i), null, 0));
          } else if (!inPlace(real.get(i), t.elem, want.get(i), done)) {
            real.set(i, toVal(t.elem, want.get(i), null, 0));
          }
        }
        return true;
      } catch (UnsupportedOperationException e) {
        return false;
      }
    }
    return false;
  }

  /** Changes one field of the object, or of an object inside it; returns what it did. */
  static String poke(BinaryCodec r, Gen g) {
    Spec.Msg t = spec.byClass.get(r.getClass());
    if (t.fields.isEmpty()) {
      return "nothing to change in " + t;
    }
    Spec.Field f = t.fields.get(g.s.upto(t.fields.size()));
    Object old = get(r, f);
    if (old instanceof BinaryCodec && spec.byClass.containsKey(old.getClass()) && g.s.pct(85)) {
      return f + ": " + poke((BinaryCodec) old, g);
    }
    if (old instanceof List && !((List<?>) old).isEmpty() && g.s.pct(70)) {
      @SuppressWarnings("unchecked")
      List<Object> l = (List<Object>) old;
      int i = g.s.upto(l.size());
      if (l.get(i) instanceof BinaryCodec && g.s.pct(70)) {
        return f + "[" + i + "]: " + poke((BinaryCodec) l.get(i), g);
      }
      try {
        switch (g.s.upto(3)) {
          case 0:
            l.remove(i);
            return f + "[" + i + "] removed";
          case 1: {
            Object v = g.elem(f.t.elem);
            l.add(i, toVal(f.t.elem, v, null, 0));
            return f + ": added at " + i + " " + R.val(v, 200);
          }
          default: {
            Object v = g.elem(f.t.elem);
            l.set(i, toVal(f.t.elem, v, null, 0));
            return f + "[" + i + "] = " + R.val(v, 200);
          }
        }
      } catch (UnsupportedOperationException e) {
        // a list that cannot be changed is replaced
      }
    }
    Object v = f.t.k == Spec.K.UNION ? null : g.value(f.t);
    if (f.t.k == Spec.K.UNION && old == null) {
      v = g.msg(f.t.cases.get(f.t.keys.get(g.s.upto(f.t.keys.size()))), -1);
    }
    set(r, f, toVal(f.t, v, null, 0));
    return f + " = " + R.val(v, 200);
  }

  static boolean hasList(Spec.Msg m) {
    for (Spec.Field f : m.fields) {
      if (f.t.k == Spec.K.LIST) {
        return true;
      }
    }
    return false;
  }

  static Object toVal(Spec.Type t, Object v, Src s, int kind) {
    if (v instanceof M) {
      return toReal((M) v, s);
    }
    if (v instanceof Ref.Part) {
      return P7.C29.toReal((Ref.Part) v, s);
    }
    if (v instanceof Ref.Raw) {
      return new RawCodec(((Ref.Raw) v).data.clone());
    }
    if (v instanceof List) {
      List<?> l = (List<?>) v;
      Object[] a = new Object[l.size()];
      for (int i = 0; i < a.length; i++) {
        a[i] = i > 0 && l.get(i) == l.get(i - 1) && (l.get(i) instanceof M || l.get(i) instanceof Ref.Part) ? a[i - 1] : toVal(t.elem, l.get(i), s, kind);
      }
      return list(a, kind);
    }
    return v;
  }

  static List<Object> list(Object[] a, int kind) {
    switch (kind) {
      case 1: return new ViewList(a);
      case 2: return Collections.unmodifiableList(new ArrayList<>(Arrays.asList(a)));
      case 3: return Arrays.asList(a);
      case 4: return a.length > 2000 ? new ViewList(a) : new LinkedList<>(Arrays.asList(a));
      case 5: {
        List<Object> big = new ArrayList<>();
        big.add("not part of the list");
        big.addAll(Arrays.asList(a));
        big.add("nor this");
        return big.subList(1, 1 + a.length);
      }
      case 6: return new Vector<>(Arrays.asList(a));
      case 7: return new CopyOnWriteArrayList<>(a);
      default: return new ArrayList<>(Arrays.asList(a));
    }
  }

  static Object fromVal(Object o) {
    if (o instanceof BinaryCodec) {
      Spec.Msg m = spec.byClass.get(o.getClass());
      if (m != null) {
        return fromReal((BinaryCodec) o);
      }
      return o.getClass() == RawCodec.class ? new Ref.Raw(((RawCodec) o).data) : o;
    }
    if (o instanceof List) {
      List<Object> l = new ArrayList<>();
      for (Object x : (List<?>) o) {
        l.add(fromVal(x));
      }
      return l;
    }
    return o;
  }

  static M fromReal(BinaryCodec real) {
    Spec.Msg t = spec.byClass.get(real.getClass());
    if (t == null) {
      throw new Fail("an object of type " + real.getClass().getName() + " where a protocol message is expected");
    }
    M m = new M(t);
    for (Spec.Field f : t.fields) {
      m.v[f.idx] = fromVal(get(real, f));
    }
    return m;
  }
}
