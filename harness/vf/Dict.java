package vf;

import java.util.HashMap;
import java.util.Map;
import java.util.TreeSet;

/**
 * Constants of the compiled classes, used only as suggestions to the generators (fuzzing
 * dictionary): no verdict depends on them.
 */
final class Dict {
  static final Dict EMPTY = new Dict();
  long[] nums = {0};
  long[] base = {};
  String[] strs = {""};
  int[] sizes = {0};
  boolean any;

  static final Map<String, Dict> byClass = new HashMap<>();
  static Dict codec = EMPTY;

  static Dict of(Spec.Msg m) {
    return byClass.getOrDefault(m.mod.pkg + "." + m.name, EMPTY);
  }

  final TreeSet<Long> n = new TreeSet<>();
  final TreeSet<String> s = new TreeSet<>();

  void freeze() {
    TreeSet<Long> x = new TreeSet<>();
    TreeSet<Integer> z = new TreeSet<>();
    for (long v : n) {
      x.add(v);
      x.add(v - 1);
      x.add(v + 1);
      x.add(-v);
      for (long d = -1; d <= 1; d++) {
        if (v + d >= 0 && v + d <= 70000) {
          z.add((int) (v + d));
        }
      }
    }
    base = n.stream().mapToLong(Long::longValue).toArray();
    if (!x.isEmpty()) {
      nums = x.stream().mapToLong(Long::longValue).toArray();
      any = true;
    }
    if (!z.isEmpty()) {
      sizes = z.stream().mapToInt(Integer::intValue).toArray();
    }
    if (!s.isEmpty()) {
      strs = s.toArray(new String[0]);
    }
  }

  Dict() {}
}
