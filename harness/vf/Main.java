package vf;

import java.io.IOException;
import java.lang.management.ManagementFactory;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashSet;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.concurrent.atomic.AtomicLong;

/** Runs one property: generates cases, shrinks the first failure, writes evidence and replay. */
public final class Main {
  static final class Failure {
    long index;
    long[] choices;
    Throwable error;
    String what;
    boolean confirmed = true;
  }

  static final com.sun.management.ThreadMXBean TMX =
      (com.sun.management.ThreadMXBean) ManagementFactory.getThreadMXBean();

  static volatile Failure failure;
  static final Set<Long> distinct = new HashSet<>();
  static final Map<String, long[]> labels = new TreeMap<>();
  static final List<String> samples = new ArrayList<>();
  static long evaluations;
  static long checks;
  static long nontrivial;
  static boolean thorough;

  static String opt(String[] a, String name, String def) {
    for (int i = 0; i + 1 < a.length; i++) {
      if (a[i].equals(name)) {
        return a[i + 1];
      }
    }
    return def;
  }

  public static void main(String[] a) throws Exception {
    int rc = 2;
    try {
      rc = run(a);
    } catch (Throwable t) {
      System.out.println("ERROR: the check itself failed: " + t);
      t.printStackTrace(System.out);
    }
    System.out.flush();
    Runtime.getRuntime().halt(rc);
  }

  static int run(String[] a) throws Exception {
    long t0 = System.nanoTime();
    String id = a[0];
    Path root = Paths.get(opt(a, "--root", "."));
    long seed = Long.parseLong(opt(a, "--seed", "1"));
    thorough = opt(a, "--tier", "quick").equals("thorough");
    Focus.scan(root.resolve("spec"), Paths.get(opt(a, "--classes", "cls")));
    if (id.equals("--baseline")) {
      Files.write(root.resolve("spec/baseline.txt"), Focus.lines(Harvest.run(Paths.get(opt(a, "--classes", "cls")))), StandardCharsets.UTF_8);
      return 0;
    }
    if (id.equals("C16") || id.equals("C20") || id.equals("C23")) {
      Weave.run(Paths.get(opt(a, "--classes", "cls")));
    }
    setup(root.resolve("spec"), Paths.get(opt(a, "--classes", "cls")));
    int cores = Integer.parseInt(opt(a, "--threads",
        String.valueOf(Math.max(1, Math.min(8, Runtime.getRuntime().availableProcessors())))));
    if (opt(a, "--text-of", null) != null) {
      System.out.println(Env.text(Paths.get(opt(a, "--text-of", null))));
      return 0;
    }
    if (!id.equals("C24")) {
      Src.fresh = Focus.nums; // in C24 different JVMs are to draw the same
    }
    if (id.equals("C24")) {
      String child = opt(a, "--env-child", null);
      if (child != null) {
        return Env.child(Integer.parseInt(child), root, Paths.get(opt(a, "--out", null)), seed, thorough, cores);
      }
      if (opt(a, "--replay", null) != null) {
        return Env.replay(root, opt(a, "--classes", "cls"), Paths.get(opt(a, "--replay", null)));
      }
      return Env.run(root, opt(a, "--classes", "cls"), seed, thorough, cores);
    }
    Prop p = Props.get(id);
    if (p == null) {
      throw new IllegalArgumentException("no property " + id);
    }
    String replay = opt(a, "--replay", null);
    if (replay != null) {
      return replay(p, Paths.get(replay));
    }
    long n = Long.parseLong(opt(a, "--cases", String.valueOf(thorough ? p.thorough : p.quick)));
    int threads = p.single ? 1 : cores;
    if (!Focus.changed.isEmpty() && !thorough && !id.equals("C24") && !id.equals("C28") && opt(a, "--cases", null) == null) {
      n = n * 5 / 2; // code that is not the one known is looked at longer
    }
    explore(p, seed, n, threads);
    int rc = 0;
    Path ev = root.resolve("evidence");
    Files.createDirectories(ev);
    String replayPath = null;
    if (failure != null) {
      Failure f = failure;
      if (f.choices != null && f.error != null) {
        shrink(p, f);
      }
      Path rp = root.resolve("replays");
      Files.createDirectories(rp);
      Path file = rp.resolve(id + "-seed" + seed + "-case" + f.index + ".json");
      writeReplay(file, p, f, seed, -1);
      replayPath = file.toString();
      System.out.println("FAILED case " + f.index + (f.confirmed ? "" : " (did not fail again when re-run: depends on timing)"));
      System.out.println("  " + f.what);
      System.out.println("  " + describe(p, f));
      System.out.println("VIOLATION property=" + id + " replay=" + replayPath);
      rc = 1;
    }
    double wall = (System.nanoTime() - t0) / 1e9;
    evidence(ev.resolve(id + ".json"), p.id, p.rule, distinct.size(), seed, wall, rc);
    System.out.printf(Locale.ROOT, "%s %s seed=%d cases=%d nontrivial=%d distinct=%d checks=%d wall=%.1fs%n", id,
        rc == 0 ? "held" : "VIOLATED", seed, evaluations, nontrivial, distinct.size(), checks, wall);
    return rc;
  }

  static void setup(Path spec, Path classes) throws Exception {
    Bridge.bind(Spec.load(spec));
    P5.load(classes);
    try {
      Harvest.run(classes);
    } catch (LinkageError e) {
      // a JDK without the class reader: no suggestions
    }
    Focus.targets(Bridge.spec);
  }

  static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
    z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
    return z ^ (z >>> 31);
  }

  static Src source(Prop p, long seed, long i) {
    return new Src(mix(mix(seed * 0x9E3779B97F4A7C15L + p.id.hashCode()) + i * 0xD1B54A32D192ED03L), p.prefix(i));
  }

  static final class Worker extends Thread {
    final Prop p;
    final long seed;
    final AtomicLong next;
    final long n;
    final Ctx c = new Ctx();
    final Set<Long> seen = new HashSet<>();
    final List<String> smp = new ArrayList<>();
    long done;
    long nontriv;
    volatile long current = -1;
    volatile long startCpu;
    volatile long startWall;

    Worker(Prop p, long seed, AtomicLong next, long n, int i) {
      super(null, null, "worker-" + i, 0);
      setDaemon(true);
      this.p = p;
      this.seed = seed;
      this.next = next;
      this.n = n;
    }

    @Override
    public void run() {
      while (true) {
        long i = next.getAndIncrement();
        Failure f0 = failure;
        if (i >= n || (f0 != null && f0.index < i)) {
          return;
        }
        Src s = source(p, seed, i);
        startCpu = TMX.getThreadCpuTime(getId());
        startWall = System.nanoTime();
        current = i;
        Throwable t = once(p, s, c);
        current = -1;
        done++;
        if (t != null) {
          Failure f = new Failure();
          f.index = i;
          f.choices = s.recorded();
          f.error = t;
          f.what = what(t);
          report(f);
          continue;
        }
        if (c.nontrivial) {
          nontriv++;
          if (seen.size() < 2000000) {
            seen.add(c.hash);
          }
          if (smp.size() < 6 && (i * 7919) % n < n / 50 + 2) {
            smp.add(c.describe(700));
          }
        }
      }
    }
  }

  static synchronized void report(Failure f) {
    if (failure == null || f.index < failure.index) {
      failure = f;
    }
  }

  /** On threads that are interrupted and have no context class loader. */
  private static final boolean ODD = "interrupted".equals(System.getProperty("vf.thread"));

  private static void runOne(Prop p, Src s, Ctx c) {
    // the harness waits for threads of its own in these
    if (!ODD || p.id.equals("C12") || p.id.equals("C16") || p.id.equals("C20")) {
      p.run(s, c);
      return;
    }
    Thread t = Thread.currentThread();
    t.setContextClassLoader(null);
    t.interrupt();
    try {
      p.run(s, c);
      c.check(t.isInterrupted(), () -> "the thread's interruption was forgotten");
      c.check(t.getContextClassLoader() == null, () -> "the thread's context class loader was changed");
    } finally {
      Thread.interrupted();
    }
  }

  static Throwable once(Prop p, Src s, Ctx c) {
    c.begin();
    try {
      runOne(p, s, c);
      return null;
    } catch (Throwable t) {
      return t;
    } finally {
      c.end();
    }
  }

  static String what(Throwable t) {
    StringBuilder sb = new StringBuilder();
    sb.append(t instanceof Fail ? t.getMessage() : "unexpected " + t);
    if (!(t instanceof Fail)) {
      StackTraceElement[] st = t.getStackTrace();
      for (int i = 0; i < st.length && i < 6; i++) {
        sb.append(" at ").append(st[i]);
      }
    }
    return sb.toString();
  }

  static void explore(Prop p, long seed, long n, int threads) throws InterruptedException {
    AtomicLong next = new AtomicLong();
    List<Worker> ws = new ArrayList<>();
    for (int i = 0; i < threads; i++) {
      Worker w = new Worker(p, seed, next, n, i);
      ws.add(w);
      w.start();
    }
    Set<Worker> hung = new HashSet<>();
    while (true) {
      boolean alive = false;
      for (Worker w : ws) {
        if (hung.contains(w)) {
          continue;
        }
        w.join(20);
        if (w.isAlive()) {
          alive = true;
          long cur = w.current;
          if (cur >= 0) {
            long cpu = TMX.getThreadCpuTime(w.getId()) - w.startCpu;
            long wall = System.nanoTime() - w.startWall;
            if (w.current == cur && (cpu > 60_000_000_000L || wall > 300_000_000_000L)) {
              hung.add(w);
              Failure f = new Failure();
              f.index = cur;
              StringBuilder sb = new StringBuilder("does not end: still running after "
                  + cpu / 1000000000 + " s of CPU time, " + wall / 1000000000 + " s in all");
              for (StackTraceElement e : w.getStackTrace()) {
                sb.append(" at ").append(e);
                if (sb.length() > 1500) {
                  break;
                }
              }
              f.what = sb.toString();
              report(f);
            }
          }
        }
      }
      if (!alive) {
        break;
      }
    }
    for (Worker w : ws) {
      evaluations += w.done;
      checks += w.c.checks;
      nontrivial += w.nontriv;
      if (!hung.contains(w)) {
        distinct.addAll(w.seen);
      }
      for (Map.Entry<String, long[]> e : w.c.labels.entrySet()) {
        labels.computeIfAbsent(e.getKey(), k -> new long[1])[0] += e.getValue()[0];
      }
      for (String s : w.smp) {
        if (samples.size() < 6) {
          samples.add(s);
        }
      }
    }
  }

  static volatile long[] best;
  static volatile Throwable bestErr;

  /** Greedy shrinking of the draws; runs aside so that a candidate that hangs cannot stop it. */
  static void shrink(Prop p, Failure f) throws InterruptedException {
    best = f.choices;
    bestErr = f.error;
    Thread t = new Thread(null, () -> {
      Ctx c = new Ctx();
      boolean again = false;
      for (int i = 0; i < 3 && !again; i++) {
        again = once(p, new Src(f.choices), c) != null;
      }
      if (!again) {
        f.confirmed = false;
        return;
      }
      int budget = 6000;
      boolean progress = true;
      while (progress && budget > 0) {
        progress = false;
        for (int len = Math.max(1, Math.min(64, best.length / 2)); len >= 1; len /= 2) {
          for (int i = best.length - len; i >= 0 && budget > 0; i -= len) {
            if (i + len > best.length) {
              continue;
            }
            long[] cand = new long[best.length - len];
            System.arraycopy(best, 0, cand, 0, i);
            System.arraycopy(best, i + len, cand, i, best.length - i - len);
            budget--;
            if (attempt(p, cand, c)) {
              progress = true;
            } else if (!zero(best, i, len)) {
              cand = best.clone();
              Arrays.fill(cand, i, i + len, 0);
              budget--;
              progress |= attempt(p, cand, c);
            }
          }
        }
        for (int i = 0; i < best.length && budget > 0; i++) {
          for (int k = 1; i < best.length && k < 64 && budget > 0 && best[i] != 0; k = k < 4 ? k + 1 : k * 2) {
            long v = best[i];
            long w = k == 1 ? 0 : k == 2 ? v >>> 1 : k == 3 ? v - 1 : v >>> Math.min(63, k);
            if (w == v) {
              continue;
            }
            long[] cand = best.clone();
            cand[i] = w;
            budget--;
            if (attempt(p, cand, c)) {
              progress = true;
              k = 0;
            }
          }
        }
      }
    }, "shrink", 0);
    t.setDaemon(true);
    t.start();
    t.join(40000);
    f.choices = best;
    f.error = bestErr;
    f.what = what(bestErr);
  }

  private static boolean zero(long[] a, int i, int len) {
    for (int j = i; j < i + len; j++) {
      if (a[j] != 0) {
        return false;
      }
    }
    return true;
  }

  private static boolean attempt(Prop p, long[] cand, Ctx c) {
    Throwable e = once(p, new Src(cand), c);
    if (e == null || e instanceof ThreadDeath) {
      return false;
    }
    best = cand;
    bestErr = e;
    return true;
  }

  static String describe(Prop p, Failure f) {
    if (f.choices == null || f.error == null) {
      return "";
    }
    Ctx c = new Ctx();
    String[] out = new String[1];
    Thread t = new Thread(null, () -> {
      c.begin();
      try {
        runOne(p, new Src(f.choices), c);
      } catch (Throwable e) {
        // the failure itself
      }
      out[0] = c.describe(6000);
      c.end();
    }, "describe", 0);
    t.setDaemon(true);
    t.start();
    try {
      t.join(20000);
    } catch (InterruptedException e) {
      return "";
    }
    return String.valueOf(out[0]);
  }

  static String js(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (char ch : s.toCharArray()) {
      if (ch == '"' || ch == '\\') {
        b.append('\\').append(ch);
      } else if (ch < 32 || ch > 126) {
        b.append(String.format("\\u%04x", (int) ch));
      } else {
        b.append(ch);
      }
    }
    return b.append('"').toString();
  }

  static void writeReplay(Path file, Prop p, Failure f, long seed, int env) throws IOException {
    StringBuilder b = new StringBuilder("{\n");
    String id = env >= 0 ? "C24" : p.id;
    b.append(" \"property\": ").append(js(id)).append(",\n");
    if (env >= 0) {
      b.append(" \"inner\": ").append(js(p.id)).append(",\n");
      b.append(" \"environment\": ").append(env).append(",\n");
    }
    b.append(" \"seed\": ").append(seed).append(",\n");
    b.append(" \"case\": ").append(f.index).append(",\n");
    b.append(" \"tier\": ").append(js(thorough ? "thorough" : "quick")).append(",\n");
    b.append(" \"reproduced\": ").append(f.confirmed).append(",\n");
    b.append(" \"failure\": ").append(js(f.what)).append(",\n");
    b.append(" \"input\": ").append(js(describe(p, f))).append(",\n");
    b.append(" \"how\": ").append(js("./check.sh " + id + " --replay <this file>")).append(",\n");
    b.append(" \"choices\": [");
    if (f.choices != null) {
      for (int i = 0; i < f.choices.length; i++) {
        b.append(i == 0 ? "" : ",").append(f.choices[i]);
      }
    }
    b.append("]\n}\n");
    Files.createDirectories(file.toAbsolutePath().getParent());
    Files.write(file, b.toString().getBytes(StandardCharsets.UTF_8));
  }

  /** The choices in a replay file; null if it has none. */
  static Src choices(String t) {
    String arr = t.substring(t.indexOf("\"choices\": [") + 12);
    arr = arr.substring(0, arr.indexOf(']')).trim();
    if (arr.isEmpty()) {
      return null;
    }
    String[] w = arr.split(",");
    long[] ch = new long[w.length];
    for (int i = 0; i < w.length; i++) {
      ch[i] = Long.parseLong(w[i].trim());
    }
    return new Src(ch);
  }

  static void reset() {
    failure = null;
    distinct.clear();
    labels.clear();
    samples.clear();
    evaluations = 0;
    checks = 0;
    nontrivial = 0;
  }

  static int replay(Prop p, Path file) throws IOException {
    String t = new String(Files.readAllBytes(file), StandardCharsets.UTF_8);
    Src s = choices(t);
    if (s == null) {
      long seed = Long.parseLong(t.replaceAll("(?s).*\"seed\": (-?\\d+),.*", "$1"));
      long idx = Long.parseLong(t.replaceAll("(?s).*\"case\": (-?\\d+),.*", "$1"));
      s = source(p, seed, idx);
    }
    Ctx c = new Ctx();
    c.begin();
    try {
      runOne(p, s, c);
      System.out.println("replay: the property holds on this input: " + c.describe(3000));
      return 0;
    } catch (Throwable e) {
      System.out.println("  " + what(e));
      System.out.println("  " + c.describe(6000));
      System.out.println("VIOLATION property=" + p.id + " replay=" + file);
      return 1;
    } finally {
      c.end();
    }
  }

  static void evidence(Path file, String id, String rule, long distinctN, long seed, double wall, int rc) throws IOException {
    StringBuilder b = new StringBuilder("{\n");
    b.append(" \"property\": ").append(js(id)).append(",\n");
    b.append(" \"tier\": ").append(js(thorough ? "thorough" : "quick")).append(",\n");
    b.append(" \"seed\": ").append(seed).append(",\n");
    b.append(" \"level\": \"exploration\",\n");
    b.append(" \"coverage\": {\n");
    b.append("  \"evaluations\": ").append(evaluations).append(",\n");
    b.append("  \"distinct_nontrivial\": ").append(distinctN).append(",\n");
    b.append("  \"assertions_evaluated\": ").append(checks).append(",\n");
    b.append("  \"rule\": ").append(js(rule)).append(",\n");
    b.append("  \"samples\": [");
    for (int i = 0; i < samples.size(); i++) {
      b.append(i == 0 ? "" : ",").append("\n   ").append(js(samples.get(i)));
    }
    b.append("\n  ],\n  \"distribution\": {");
    boolean first = true;
    for (Map.Entry<String, long[]> e : labels.entrySet()) {
      b.append(first ? "" : ",").append("\n   ").append(js(e.getKey())).append(": ").append(e.getValue()[0]);
      first = false;
    }
    b.append("\n  }\n },\n");
    b.append(" \"assumptions\": [").append(js("the wire layouts in /verif/spec are the protocol's; netty 4.1.100 and the JDK work as documented")).append("],\n");
    b.append(" \"wall_s\": ").append(String.format(Locale.ROOT, "%.1f", wall)).append(",\n");
    b.append(" \"violations\": ").append(rc == 0 ? 0 : 1).append("\n}\n");
    Files.createDirectories(file.toAbsolutePath().getParent());
    Files.write(file, b.toString().getBytes(StandardCharsets.UTF_8));
  }
}
