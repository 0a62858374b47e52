package vf;

import java.lang.ref.PhantomReference;
import java.lang.ref.WeakReference;
import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;

/** Counts the objects that the static fields (thread-locals included) of the code under test hold, directly or not. */
final class Reach {
  private static final Map<Class<?>, List<Field>> FIELDS = new HashMap<>();
  private static List<Field> statics;

  static int count() {
    IdentityHashMap<Object, Object> seen = new IdentityHashMap<>();
    ArrayDeque<Object> todo = new ArrayDeque<>();
    try {
      for (Field f : statics()) {
        push(seen, todo, f.get(null));
      }
      while (!todo.isEmpty()) {
        Object o = todo.poll();
        Class<?> c = o.getClass();
        if (c.isArray()) {
          if (!c.getComponentType().isPrimitive()) {
            for (int i = 0, n = Array.getLength(o); i < n; i++) {
              push(seen, todo, Array.get(o, i));
            }
          }
          continue;
        }
        if (o instanceof ThreadLocal) {
          locals(seen, todo, (ThreadLocal<?>) o);
        }
        for (Field f : fields(c)) {
          push(seen, todo, f.get(o));
        }
      }
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
    return seen.size();
  }

  private static void push(IdentityHashMap<Object, Object> seen, ArrayDeque<Object> todo, Object o) {
    if (o == null || o instanceof Class || o instanceof ClassLoader || o instanceof Thread || o.getClass().getName().startsWith("vf.")) {
      return;
    }
    if (seen.put(o, o) == null) {
      todo.add(o);
    }
  }

  private static void locals(IdentityHashMap<Object, Object> seen, ArrayDeque<Object> todo, ThreadLocal<?> t) throws ReflectiveOperationException {
    Thread[] ts = new Thread[Thread.activeCount() + 50];
    int n = Thread.enumerate(ts);
    for (int i = 0; i < n; i++) {
      for (String name : new String[] {"threadLocals", "inheritableThreadLocals"}) {
        Object map = open(Thread.class, name).get(ts[i]);
        if (map == null) {
          continue;
        }
        Object table = open(map.getClass(), "table").get(map);
        for (int k = 0; k < Array.getLength(table); k++) {
          Object e = Array.get(table, k);
          if (e != null && ((WeakReference<?>) e).get() == t) {
            push(seen, todo, open(e.getClass(), "value").get(e));
          }
        }
      }
    }
  }

  private static Field open(Class<?> c, String n) throws ReflectiveOperationException {
    Field f = c.getDeclaredField(n);
    f.setAccessible(true);
    return f;
  }

  private static List<Field> statics() {
    if (statics == null) {
      statics = new ArrayList<>();
      for (String n : P5.CLASSES.keySet()) {
        try {
          for (Field f : Class.forName(n).getDeclaredFields()) {
            if (Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()) {
              f.setAccessible(true);
              statics.add(f);
            }
          }
        } catch (ClassNotFoundException | LinkageError | RuntimeException e) {
          // not to be looked at
        }
      }
    }
    return statics;
  }

  /** The reference fields of objects of the class; those that cannot be read, or do not hold what they refer to, are left out. */
  private static List<Field> fields(Class<?> c) {
    List<Field> l = FIELDS.get(c);
    if (l == null) {
      l = new ArrayList<>();
      for (Class<?> x = c; x != null && x != Object.class; x = x.getSuperclass()) {
        if (x == java.lang.ref.Reference.class && (WeakReference.class.isAssignableFrom(c) || PhantomReference.class.isAssignableFrom(c))) {
          break;
        }
        for (Field f : x.getDeclaredFields()) {
          if (!Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()) {
            try {
              f.setAccessible(true);
              l.add(f);
            } catch (RuntimeException e) {
              // not to be looked at
            }
          }
        }
      }
      FIELDS.put(c, l);
    }
    return l;
  }
}
