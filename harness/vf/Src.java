package vf;

import java.util.Arrays;
import java.util.SplittableRandom;

/**
 * A recorded source of choices. Every random decision of a case is one draw; the recorded draws are
 * the case, so that shrinking and replaying work on the draws and every generator shrinks for free
 * (0 is always the simplest choice, exhausted input reads as 0).
 */
final class Src {
  private long[] rec = new long[64];
  private int n;
  private final long[] in;
  private final long[] prefix;
  private final SplittableRandom rnd;
  /** Numbers that some draws are to be; see Focus. */
  static long[] fresh = {};

  Src(long seed, long[] prefix) {
    this.rnd = new SplittableRandom(seed);
    this.prefix = prefix;
    this.in = null;
  }

  Src(long[] in) {
    this.in = in;
    this.prefix = null;
    this.rnd = null;
  }

  /** uniform in [0,bound); bound 0 means all 64 bits. */
  long below(long bound) {
    long v;
    int i = n;
    if (in != null) {
      v = i < in.length ? in[i] : 0;
    } else if (prefix != null && i < prefix.length) {
      v = prefix[i];
    } else {
      v = rnd.nextLong();
      if (fresh.length > 0 && (bound == 0 || bound >= 12 && bound != 100)) {
        v = suggested(v, bound);
      }
    }
    if (bound != 0) {
      v = Long.remainderUnsigned(v, bound);
    }
    if (rec == null) {
      return v;
    }
    if (n == rec.length) {
      rec = Arrays.copyOf(rec, n * 2);
    }
    rec[n++] = v;
    return v;
  }

  private static long suggested(long v, long bound) {
    long h = Main.mix(v + 77);
    if ((h & 31) != 0) {
      return v;
    }
    long x = fresh[(int) Long.remainderUnsigned(h >>> 8, fresh.length)] + ((h & 96) == 32 ? -1 : (h & 96) == 64 ? 1 : 0);
    return bound == 0 || x >= 0 && x < bound ? x : v;
  }

  long raw() {
    return below(0);
  }

  int upto(int bound) {
    return (int) below(bound);
  }

  /** inclusive; lo is simplest. */
  int range(int lo, int hi) {
    return hi <= lo ? lo : lo + (int) below(hi - lo + 1L);
  }

  boolean pct(int p) {
    return below(100) >= 100 - p;
  }

  int pick(int... w) {
    int t = 0;
    for (int x : w) {
      t += x;
    }
    long v = below(t);
    for (int i = 0; i < w.length; i++) {
      if (v < w[i]) {
        return i;
      }
      v -= w[i];
    }
    throw new AssertionError();
  }

  <T> T of(T[] a) {
    return a[upto(a.length)];
  }

  int of(int[] a) {
    return a[upto(a.length)];
  }

  /** An unrecorded source for bulk content, derived from one draw. */
  Src bulk() {
    Src x = new Src(raw() * 0x9E3779B97F4A7C15L + 12345, null);
    x.rec = null;
    return x;
  }

  byte[] bytes(int len) {
    byte[] b = new byte[len];
    if (len <= 12) {
      for (int i = 0; i < len; i++) {
        b[i] = (byte) below(256);
      }
    } else {
      SplittableRandom r = new SplittableRandom(raw());
      for (int i = 0; i < len; i++) {
        b[i] = (byte) r.nextInt();
      }
    }
    return b;
  }

  long[] recorded() {
    return Arrays.copyOf(rec, n);
  }
}
