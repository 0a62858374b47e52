package vf;

import io.netty.buffer.ByteBuf;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.function.Supplier;

/** What one worker observes while it runs cases: labels, checks, description of the current case. */
final class Ctx {
  final Map<String, long[]> labels = new HashMap<>();
  final List<Supplier<String>> show = new ArrayList<>();
  private final List<ByteBuf> owned = new ArrayList<>();
  boolean nontrivial;
  long hash;
  long checks;

  void begin() {
    show.clear();
    nontrivial = false;
    hash = 0;
  }

  void end() {
    for (ByteBuf b : owned) {
      try {
        for (int i = 0; i < 8 && b.refCnt() > 0; i++) {
          b.release();
        }
      } catch (RuntimeException e) {
        // unreleasable
      }
    }
    owned.clear();
  }

  <B extends ByteBuf> B own(B b) {
    owned.add(b);
    return b;
  }

  void label(String l) {
    long[] c = labels.get(l);
    if (c == null) {
      labels.put(l, c = new long[1]);
    }
    c[0]++;
  }

  void nontrivial(long h) {
    nontrivial = true;
    hash = hash * 31 + h;
  }

  void show(Supplier<String> s) {
    show.add(s);
  }

  void check(boolean ok, Supplier<String> msg) {
    checks++;
    if (!ok) {
      throw new Fail(msg.get());
    }
  }

  String describe(int max) {
    StringBuilder sb = new StringBuilder();
    for (Supplier<String> s : show) {
      if (sb.length() > 0) {
        sb.append("; ");
      }
      try {
        sb.append(s.get());
      } catch (Throwable t) {
        sb.append("<").append(t).append(">");
      }
    }
    return sb.length() > max ? sb.substring(0, max) + "...(" + sb.length() + " chars)" : sb.toString();
  }
}
