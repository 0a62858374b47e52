package vf;

import java.io.File;
import java.io.IOException;
import java.nio.ByteBuffer;
import java.nio.charset.Charset;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.concurrent.Callable;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.Future;
import java.util.concurrent.TimeUnit;

/** C24: the other properties, and the textual form, in child JVMs with other settings. */
final class Env {
  static final String RULE = "cases of the other properties, generated and judged in child JVMs with another default charset, locale, time "
      + "zone, assertion setting, netty buffer implementation or JDK version, and the textual form of 3,000 messages compared with that in the "
      + "default environment; non-trivial as in the property run; distinct per environment and property";

  /** name, java home or "", flags. */
  static final String[][] ENVS = {
    {"US-ASCII", "", "-Dfile.encoding=US-ASCII -Dsun.jnu.encoding=US-ASCII -Dvf.thread=interrupted"},
    {"ISO-8859-9, Turkish", "", "-Dfile.encoding=ISO-8859-9 -Duser.language=tr -Duser.country=TR"},
    {"GBK, Chinese", "", "-Dfile.encoding=GBK -Duser.language=zh -Duser.country=CN -Duser.timezone=Asia/Shanghai -XX:-CompactStrings"},
    {"EBCDIC", "", "-Dfile.encoding=IBM037 -XX:ActiveProcessorCount=1"},
    {"UTF-16", "", "-Dfile.encoding=UTF-16"},
    {"Arabic digits", "", "-Duser.language=ar -Duser.country=EG -Duser.extensions=nu-arab -Dline.separator=\r\n -Dos.name=Windows"},
    {"Thai calendar and digits", "", "-Duser.language=th -Duser.country=TH -Duser.variant=TH -Duser.extensions=nu-thai -Duser.timezone=Asia/Kathmandu"},
    {"assertions on", "", "-ea -esa SETTINGS=1"},
    {"netty without Unsafe, unpooled", "", "-Dio.netty.noUnsafe=true -Dio.netty.allocator.type=unpooled -Dio.netty.noPreferDirect=true"},
    {"netty paranoid leak detection, no cleaner", "", "-Dio.netty.leakDetection.level=paranoid -Dio.netty.noPreferDirect=false -Dio.netty.tryReflectionSetAccessible=false"},
    {"first-tier compiler only, serial GC, small heap", "", "-XX:TieredStopAtLevel=1 -XX:+UseSerialGC -Xmx500m"},
    {"every setting the code names is true", "", "SETTINGS=true"},
    {"JDK 11", "/usr/lib/jvm/java-11-openjdk-amd64", ""},
    {"JDK 21", "/usr/lib/jvm/java-21-openjdk-amd64", "-Dvf.thread=interrupted"},
    {"JDK 25", "/usr/lib/jvm/java-25-openjdk-amd64", "-Duser.language=de -Duser.country=DE"},
  };

  static final String[] PROPS = {"TXT", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C26", "C27"};

  /** Cases of a property in one environment. */
  static long cases(Prop p, boolean thorough, int e) {
    if (p.id.equals("TXT")) {
      return p.quick;
    }
    long n = p.quick;
    if (p.id.equals("C14")) {
      n = 75000;
    } else if (p.id.equals("C15") || p.id.equals("C04")) {
      n /= 3;
    }
    if (p.id.equals("C15") && ENVS[e][2].contains("paranoid")) {
      n /= 30; // buffers there note where they were used
    }
    return thorough ? n / 8 : n / 300;
  }

  static final class Result {
    String env;
    final List<String> lines = new ArrayList<>();
    String output;
    int rc;
    long[] digests;
  }

  static List<String> command(int e, List<String> args) {
    String home = ENVS[e][1].isEmpty() ? System.getProperty("java.home") : ENVS[e][1];
    List<String> cmd = new ArrayList<>();
    cmd.add(home + File.separator + "bin" + File.separator + "java");
    cmd.addAll(Arrays.asList("-Xmx1500m", "-Xss1m", "-XX:-UsePerfData", "-Dio.netty.leakDetection.level=disabled",
        "-Dio.netty.allocator.useCacheForAllThreads=false"));
    if (!ENVS[e][0].startsWith("JDK 25")) {
      cmd.addAll(Arrays.asList("--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED"));
    }
    for (String f : ENVS[e][2].split(" ")) {
      if (f.startsWith("SETTINGS=")) {
        for (String n : settings()) {
          cmd.add("-D" + n + f.substring(8));
        }
      } else if (!f.isEmpty()) {
        cmd.add(f);
      }
    }
    cmd.addAll(Arrays.asList("-cp", System.getProperty("java.class.path"), "vf.Main"));
    cmd.addAll(args);
    return cmd;
  }

  /** Texts in the code that could be names of system properties or environment variables. */
  static List<String> settings() {
    List<String> l = new ArrayList<>();
    for (String n : Focus.texts) {
      if (n.matches("[A-Za-z][A-Za-z0-9_.-]{2,60}") && !n.matches("(java|javax|jdk|sun|os|user|file|line|path|io\\.netty)\\..*")
          && System.getProperty(n) == null && l.size() < 1000) {
        l.add(n);
      }
    }
    return l;
  }

  static void variables(int e, Map<String, String> env) {
    env.remove("JAVA_TOOL_OPTIONS");
    if (ENVS[e][0].equals("JDK 11")) {
      env.clear();
    }
    if (ENVS[e][0].startsWith("Thai")) {
      env.put("LANG", "th_TH.UTF-8");
      env.put("TZ", "Asia/Bangkok");
    }
    for (String f : ENVS[e][2].split(" ")) {
      if (f.startsWith("SETTINGS=")) {
        for (String n : settings()) {
          if (n.matches("\\w+") && System.getenv(n) == null) {
            env.put(n, f.substring(9));
          }
        }
      }
    }
  }

  static boolean available(int e) {
    return ENVS[e][1].isEmpty() || new File(ENVS[e][1], "bin/java").canExecute();
  }

  static String read(Process p) throws IOException {
    return new String(p.getInputStream().readAllBytes(), StandardCharsets.ISO_8859_1);
  }

  /** The coordinating run; returns the exit code. */
  static int run(Path root, String classes, long seed, boolean thorough, int threads) throws Exception {
    long t0 = System.nanoTime();
    Path tmp = Files.createTempDirectory("vf-env");
    List<Future<Result>> fs = new ArrayList<>();
    ExecutorService pool = Executors.newFixedThreadPool(Math.max(1, threads / 2));
    for (int e = 0; e < ENVS.length; e++) {
      if (!available(e)) {
        System.out.println("not installed here, left out: " + ENVS[e][0]);
        continue;
      }
      int ee = e;
      fs.add(pool.submit((Callable<Result>) () -> {
        Path out = tmp.resolve("env" + ee);
        List<String> args = new ArrayList<>(Arrays.asList("C24", "--env-child", String.valueOf(ee), "--out", out.toString(), "--root",
            root.toString(), "--classes", classes, "--seed", String.valueOf(seed), "--tier", thorough ? "thorough" : "quick", "--threads", "2"));
        ProcessBuilder pb = new ProcessBuilder(command(ee, args));
        pb.redirectErrorStream(true);
        variables(ee, pb.environment());
        Process p = pb.start();
        Result r = new Result();
        r.env = ENVS[ee][0];
        r.output = read(p);
        r.rc = p.waitFor();
        if (Files.exists(out)) {
          r.lines.addAll(Files.readAllLines(out, StandardCharsets.UTF_8));
        }
        Path d = tmp.resolve("env" + ee + ".txt");
        if (Files.exists(d)) {
          ByteBuffer b = ByteBuffer.wrap(Files.readAllBytes(d));
          r.digests = new long[b.remaining() / 8];
          b.asLongBuffer().get(r.digests);
        }
        return r;
      }));
    }
    // the text in this environment
    Prop txt = Props.get("TXT");
    Main.reset();
    P5.Txt.digests = new long[(int) txt.quick];
    Main.explore(txt, seed, txt.quick, 2);
    if (Main.failure != null) {
      throw new IllegalStateException("text of a message: " + Main.failure.what);
    }
    long[] base = P5.Txt.digests;
    Main.reset();
    int rc = 0;
    long ev = 0, nt = 0, di = 0, ch = 0;
    for (Future<Result> f : fs) {
      Result r = f.get();
      boolean ended = false;
      for (String l : r.lines) {
        String[] w = l.split("\t");
        if (System.getenv("VF_DEBUG") != null) {
          System.out.println(r.env + " " + l);
        }
        if (w[0].equals("P")) {
          long n = Long.parseLong(w[2]);
          ev += n;
          nt += Long.parseLong(w[3]);
          di += Long.parseLong(w[4]);
          ch += Long.parseLong(w[5]);
          Main.labels.computeIfAbsent("environment:" + r.env, k -> new long[1])[0] += n;
          Main.labels.computeIfAbsent("property:" + w[1], k -> new long[1])[0] += n;
        } else if (w[0].equals("S") && Main.samples.size() < 8) {
          Main.samples.add("in " + r.env + ": " + w[1]);
        } else if (w[0].equals("V")) {
          System.out.println("FAILED in environment " + r.env + ": " + w[2]);
          System.out.println("VIOLATION property=C24 replay=" + w[1]);
          rc = 1;
        } else if (w[0].equals("END")) {
          ended = true;
        }
      }
      if (!ended && rc == 0) {
        System.out.println("ERROR: the run in environment " + r.env + " did not end properly (exit code " + r.rc + "): "
            + r.output.substring(0, Math.min(3000, r.output.length())));
        rc = 2;
      }
      if (r.digests != null && rc == 0) {
        for (int i = 0; i < base.length; i++) {
          if (i >= r.digests.length || r.digests[i] != base[i]) {
            int e = index(r.env);
            Main.Failure x = new Main.Failure();
            x.index = i;
            Src s = Main.source(txt, seed, i);
            Main.once(txt, s, new Ctx());
            x.choices = s.recorded();
            x.error = new Fail("the textual form differs from that in the default environment");
            x.what = x.error.getMessage();
            Path file = root.resolve("replays").resolve("C24-seed" + seed + "-env" + e + "-TXT-case" + i + ".json");
            Files.createDirectories(file.getParent());
            Main.writeReplay(file, txt, x, seed, e);
            System.out.println("FAILED in environment " + r.env + ": " + x.what + ": " + Main.describe(txt, x));
            System.out.println("VIOLATION property=C24 replay=" + file);
            rc = 1;
            break;
          }
        }
      }
    }
    pool.shutdown();
    try (java.util.stream.Stream<Path> st = Files.list(tmp)) {
      for (Path p : (Iterable<Path>) st::iterator) {
        Files.delete(p);
      }
    }
    Files.delete(tmp);
    Main.evaluations = ev;
    Main.nontrivial = nt;
    Main.checks = ch;
    double wall = (System.nanoTime() - t0) / 1e9;
    Main.evidence(root.resolve("evidence").resolve("C24.json"), "C24", RULE, di, seed, wall, rc);
    System.out.printf(Locale.ROOT, "C24 %s seed=%d environments=%d cases=%d nontrivial=%d distinct=%d checks=%d wall=%.1fs%n",
        rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "not decided", seed, fs.size(), ev, nt, di, ch, wall);
    return rc;
  }

  static int index(String env) {
    for (int i = 0; i < ENVS.length; i++) {
      if (ENVS[i][0].equals(env)) {
        return i;
      }
    }
    throw new IllegalArgumentException(env);
  }

  /** In a child: runs the properties one after the other. */
  static int child(int e, Path root, Path out, long seed, boolean thorough, int threads) throws Exception {
    StringBuilder b = new StringBuilder();
    int rc = 0;
    b.append("E\t").append(Charset.defaultCharset()).append('\t').append(Locale.getDefault()).append('\t')
        .append(System.getProperty("java.version")).append('\n');
    for (String id : PROPS) {
      Main.reset();
      Prop p = Props.get(id);
      long t0 = System.nanoTime();
      if (id.equals("TXT")) {
        P5.Txt.digests = new long[(int) p.quick];
      }
      Main.explore(p, seed * 1000003 + (id.equals("TXT") ? seed - seed * 1000003 : e + 1), cases(p, thorough, e), p.single ? 1 : threads);
      if (Main.failure != null) {
        Main.Failure f = Main.failure;
        if (f.choices != null && f.error != null) {
          Main.shrink(p, f);
        }
        Path file = root.resolve("replays").resolve("C24-seed" + seed + "-env" + e + "-" + id + "-case" + f.index + ".json");
        Files.createDirectories(file.getParent());
        Main.writeReplay(file, p, f, seed * 1000003 + e + 1, e);
        b.append("V\t").append(file).append('\t').append((id + ": " + f.what).replaceAll("[\\t\\r\\n]", " ")).append('\n');
        rc = 1;
        break;
      }
      b.append("P\t").append(id).append('\t').append(Main.evaluations).append('\t').append(Main.nontrivial).append('\t')
          .append(Main.distinct.size()).append('\t').append(Main.checks).append('\t').append((System.nanoTime() - t0) / 1000000).append(" ms\n");
      if (e % 3 == 0 && !Main.samples.isEmpty() && (e + id.hashCode()) % 5 == 0) {
        b.append("S\t").append((id + ": " + Main.samples.get(0)).replaceAll("[\\t\\r\\n]", " ")).append('\n');
      }
      if (id.equals("TXT")) {
        ByteBuffer d = ByteBuffer.allocate(P5.Txt.digests.length * 8);
        d.asLongBuffer().put(P5.Txt.digests);
        Files.write(Paths.get(out + ".txt"), d.array());
      }
    }
    b.append("END\n");
    Files.write(out, b.toString().getBytes(StandardCharsets.UTF_8));
    return rc;
  }

  /** Replays a file in the environment it names. */
  static int replay(Path root, String classes, Path file) throws Exception {
    String t = new String(Files.readAllBytes(file), StandardCharsets.UTF_8);
    int e = Integer.parseInt(t.replaceAll("(?s).*\"environment\": (\\d+),.*", "$1"));
    String id = t.replaceAll("(?s).*\"inner\": \"(\\w+)\",.*", "$1");
    System.out.println("in environment " + ENVS[e][0]);
    if (id.equals("TXT")) {
      String here = text(file);
      String there = spawn(e, Arrays.asList("TXT", "--root", root.toString(), "--classes", classes, "--text-of", file.toString()));
      int rc = !there.contains(here) ? 1 : 0;
      System.out.println("  here: " + here + ", there: " + there.trim());
      System.out.println(rc == 1 ? "VIOLATION property=C24 replay=" + file : "replay: the property holds on this input");
      return rc;
    }
    String o = spawn(e, Arrays.asList(id, "--root", root.toString(), "--classes", classes, "--replay", file.toString()));
    System.out.print(o.replace("VIOLATION property=" + id, "VIOLATION property=C24"));
    return o.contains("VIOLATION property=") ? 1 : 0;
  }

  private static String spawn(int e, List<String> args) throws Exception {
    ProcessBuilder pb = new ProcessBuilder(command(e, args));
    pb.redirectErrorStream(true);
    variables(e, pb.environment());
    Process p = pb.start();
    String o = read(p);
    p.waitFor(60, TimeUnit.SECONDS);
    return o;
  }

  /** The text of the case in a replay file, as hexadecimal digest and escaped start. */
  static String text(Path file) throws Exception {
    String t = new String(Files.readAllBytes(file), StandardCharsets.UTF_8);
    Src s = Main.choices(t);
    P5.Txt.digests = new long[1 << 20];
    Prop p = Props.get("TXT");
    Throwable x = Main.once(p, s, new Ctx());
    long d = 0;
    for (long v : P5.Txt.digests) {
      d ^= v;
    }
    return "text digest " + Long.toHexString(d) + (x == null ? "" : " " + x);
  }

  private Env() {}
}
