package vf;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.security.MessageDigest;
import java.security.NoSuchAlgorithmException;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.TreeSet;
import java.util.stream.Stream;

/**
 * Directs part of the search at what changed since spec/baseline.txt was written: types whose compiled
 * classes differ are drawn more often, and constants their classes did not have then are suggested more
 * often. Only where the search looks depends on it, never a verdict; on the tree the baseline was made
 * from the search is as without it.
 */
final class Focus {
  /** Per class file its digest and constants, then and now. */
  private static final Map<String, String[]> BASE = new HashMap<>();
  private static final Map<String, String> NOW = new TreeMap<>();
  static final Set<String> changed = new HashSet<>();

  static long[] nums = {};
  static String[] strs = {};
  static int[] sizes = {};
  /** All text constants of the code. */
  static final Set<String> texts = new TreeSet<>();
  /** Messages that contain something of a changed class. */
  private static final Map<Object, Boolean> HIT = new IdentityHashMap<>();

  /** Compares the compiled classes, as they are before anything is woven into them, with the baseline. */
  static void scan(Path spec, Path classes) throws IOException {
    Path[] files;
    try (Stream<Path> st = Files.walk(classes)) {
      files = st.filter(p -> p.toString().endsWith(".class")).sorted().toArray(Path[]::new);
    }
    for (Path p : files) {
      NOW.put(classes.relativize(p).toString().replace('\\', '/').replace(".class", "").replace('/', '.'), digest(Files.readAllBytes(p)));
    }
    Path base = spec.resolve("baseline.txt");
    if (!Files.exists(base)) {
      return;
    }
    for (String l : Files.readAllLines(base, StandardCharsets.UTF_8)) {
      String[] w = l.split("\t", -1);
      BASE.put(w[0], w);
    }
    for (Map.Entry<String, String> e : NOW.entrySet()) {
      String[] b = BASE.get(e.getKey());
      if (b == null || !b[1].equals(e.getValue())) {
        changed.add(e.getKey());
      }
    }
    if (changed.size() * 2 > NOW.size()) {
      changed.clear(); // another compiler, or another code base
    }
  }

  private static String digest(byte[] b) {
    try {
      byte[] d = MessageDigest.getInstance("SHA-256").digest(b);
      StringBuilder s = new StringBuilder();
      for (int i = 0; i < 8; i++) {
        s.append(String.format(java.util.Locale.ROOT, "%02x", d[i]));
      }
      return s.toString();
    } catch (NoSuchAlgorithmException e) {
      throw new IllegalStateException(e);
    }
  }

  static String text(Set<Long> n) {
    StringBuilder b = new StringBuilder();
    for (long x : n) {
      b.append(b.length() == 0 ? "" : ",").append(x);
    }
    return b.toString();
  }

  static String quoted(Set<String> s) {
    StringBuilder b = new StringBuilder();
    for (String x : s) {
      b.append(b.length() == 0 ? "" : ",").append('"');
      for (char c : x.toCharArray()) {
        b.append(c > 32 && c < 127 && c != '"' && c != ',' && c != '\\' ? String.valueOf(c) : String.format("\\%04x", (int) c));
      }
      b.append('"');
    }
    return b.toString();
  }

  /** The lines of spec/baseline.txt for the current tree. */
  static List<String> lines(Map<String, Dict> consts) {
    List<String> l = new ArrayList<>();
    for (Map.Entry<String, String> e : NOW.entrySet()) {
      Dict d = consts.getOrDefault(e.getKey(), Dict.EMPTY);
      l.add(e.getKey() + "\t" + e.getValue() + "\t" + text(d.n) + "\t" + quoted(d.s));
    }
    return l;
  }

  /** Constants of changed classes that were not theirs before. */
  static void constants(Map<String, Dict> consts) {
    TreeSet<Long> n = new TreeSet<>();
    TreeSet<String> s = new TreeSet<>();
    for (Dict d : consts.values()) {
      texts.addAll(d.s);
    }
    for (String c : changed) {
      Dict d = consts.getOrDefault(c, Dict.EMPTY);
      String[] b = BASE.get(c);
      Set<String> oldN = b == null ? new HashSet<>() : new HashSet<>(Arrays.asList(b[2].split(",")));
      Set<String> oldS = b == null ? new HashSet<>() : new HashSet<>(Arrays.asList(b[3].split(",")));
      for (long x : d.n) {
        if (!oldN.contains(String.valueOf(x))) {
          n.add(x);
        }
      }
      for (String x : d.s) {
        TreeSet<String> one = new TreeSet<>();
        one.add(x);
        if (!oldS.contains(quoted(one))) {
          s.add(x);
        }
      }
    }
    if (n.size() > 60) {
      n.clear(); // a table, not a condition
    }
    if (s.size() > 60) {
      s.clear();
    }
    nums = n.stream().mapToLong(Long::longValue).toArray();
    strs = s.toArray(new String[0]);
    sizes = n.stream().filter(x -> x >= 0 && x <= 70000).mapToInt(Long::intValue).toArray();
  }

  /** Lets the changed types and those that contain them have half of the draws. */
  static void targets(Spec spec) {
    if (changed.isEmpty()) {
      return;
    }
    weigh(spec.targets, t -> hit(t));
  }

  interface Which<T> {
    boolean is(T t);
  }

  static <T> void weigh(List<T> l, Which<T> w) {
    if (changed.isEmpty()) {
      return;
    }
    List<T> some = new ArrayList<>();
    for (T t : l) {
      if (w.is(t)) {
        some.add(t);
      }
    }
    int all = l.size();
    if (some.isEmpty() || some.size() * 2 > all) {
      return;
    }
    while (l.size() < 2 * all) {
      l.addAll(some);
    }
  }

  static boolean hit(Spec.Target t) {
    if (changed.isEmpty()) {
      return false;
    }
    return own(t.msg) || t.caseIdx >= 0 && hit(t.msg.union.t.cases.get(t.msg.union.t.keys.get(t.caseIdx)));
  }

  static boolean hit(Spec.Msg m) {
    Boolean b = HIT.get(m);
    if (b == null) {
      HIT.put(m, false);
      b = own(m);
      HIT.put(m, b);
    }
    return b;
  }

  /** The type itself or one it always contains. */
  private static boolean own(Spec.Msg m) {
    if (is(m.mod.pkg + "." + m.name)) {
      return true;
    }
    for (Spec.Field f : m.fields) {
      Spec.Type t = f.t.k == Spec.K.LIST ? f.t.elem : f.t;
      if (t.k == Spec.K.OBJ && own(t.msg)) {
        return true;
      }
    }
    return false;
  }

  private static boolean is(String cls) {
    if (changed.contains(cls)) {
      return true;
    }
    for (String c : changed) {
      if (c.startsWith(cls + "$")) {
        return true;
      }
    }
    return false;
  }

  private Focus() {}
}
