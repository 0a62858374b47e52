package vf;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** The wire layouts, read from /verif/spec/*.spec. */
final class Spec {
  enum K {
    I8, I16, I32, I64, F32, F64, STR, DSTR, LIST, OBJ, LEN, UNION, CKSUM
  }

  static final class Type {
    K k;
    int width;
    char pad;
    boolean left;
    int prefix;
    Type elem;
    String ref;
    Msg msg;
    String other;
    int otherIdx;
    int keyWidth;
    final LinkedHashMap<Object, Msg> cases = new LinkedHashMap<>();
    final List<Object> keys = new ArrayList<>();
    final LinkedHashMap<Object, String> caseNames = new LinkedHashMap<>();
    String algo;

    boolean num() {
      return k == K.I8 || k == K.I16 || k == K.I32 || k == K.I64 || k == K.F32 || k == K.F64
          || k == K.LEN || k == K.CKSUM;
    }
  }

  static final class Field {
    String name;
    Type t;
    int idx;
    Msg owner;

    public String toString() {
      return owner.id() + "." + name;
    }
  }

  static final class Msg {
    Module mod;
    String name;
    final List<Field> fields = new ArrayList<>();
    int num;
    Bridge.Access acc;
    Field union;
    Field len;
    Field cksum;

    String id() {
      return mod.name + "." + name;
    }

    String simple() {
      return name.substring(name.lastIndexOf('$') + 1);
    }

    boolean frame() {
      return name.equals("RootPacket") || name.equals("SseBinary") || name.equals("SzseBinary")
          || name.equals("BjseBinary") || name.equals("RcBinary");
    }

    Field field(String n) {
      for (Field f : fields) {
        if (f.name.equals(n)) {
          return f;
        }
      }
      throw new IllegalStateException(id() + "." + n);
    }

    public String toString() {
      return id();
    }
  }

  static final class Module {
    String name;
    String pkg;
    boolean le;
    final LinkedHashMap<String, Msg> msgs = new LinkedHashMap<>();
  }

  /** A message type, with one particular case of its union (caseIdx -1: any). */
  static final class Target {
    final Msg msg;
    final int caseIdx;

    Target(Msg m, int c) {
      msg = m;
      caseIdx = c;
    }
  }

  final List<Module> mods = new ArrayList<>();
  final List<Msg> all = new ArrayList<>();
  final List<Msg> frames = new ArrayList<>();
  final List<Msg> unions = new ArrayList<>();
  final List<Target> targets = new ArrayList<>();
  final Map<Class<?>, Msg> byClass = new LinkedHashMap<>();

  static Spec load(Path dir) throws IOException {
    Spec s = new Spec();
    for (String n : new String[] {"sample", "risk", "sse", "szse", "bjse"}) {
      s.parse(dir.resolve(n + ".spec"));
    }
    s.link();
    return s;
  }

  private void parse(Path p) throws IOException {
    Module mod = null;
    Msg msg = null;
    Type union = null;
    for (String line : Files.readAllLines(p, StandardCharsets.UTF_8)) {
      if (line.trim().isEmpty() || line.startsWith("#")) {
        continue;
      }
      String[] w = line.trim().split(" ");
      if (w[0].equals("module") && !line.startsWith(" ")) {
        mod = new Module();
        mod.name = w[1];
        mod.pkg = w[2];
        mod.le = w[3].equals("LE");
        mods.add(mod);
      } else if (w[0].equals("message") && !line.startsWith(" ")) {
        msg = new Msg();
        msg.mod = mod;
        msg.name = w[1];
        msg.num = all.size();
        all.add(msg);
        mod.msgs.put(msg.name, msg);
      } else if (line.startsWith("    case ")) {
        Object key = union.keyWidth == 0 ? (Object) w[1]
            : union.keyWidth == 2 ? (Object) Short.valueOf(w[1]) : (Object) Integer.valueOf(w[1]);
        union.caseNames.put(key, w[2]);
      } else {
        Field f = new Field();
        f.owner = msg;
        f.name = w[0];
        f.idx = msg.fields.size();
        f.t = type(w, 1);
        union = f.t;
        msg.fields.add(f);
      }
    }
  }

  private static int pfx(String s) {
    if (s.equals("i16")) {
      return 2;
    }
    if (s.equals("i32")) {
      return 4;
    }
    throw new IllegalArgumentException(s);
  }

  private static Type type(String[] w, int i) {
    Type t = new Type();
    switch (w[i]) {
      case "i8": t.k = K.I8; t.width = 1; break;
      case "i16": t.k = K.I16; t.width = 2; break;
      case "i32": t.k = K.I32; t.width = 4; break;
      case "i64": t.k = K.I64; t.width = 8; break;
      case "f32": t.k = K.F32; t.width = 4; break;
      case "f64": t.k = K.F64; t.width = 8; break;
      case "str":
        t.k = K.STR;
        t.width = Integer.parseInt(w[i + 1]);
        t.pad = w[i + 2].equals("space") ? ' ' : w[i + 2].equals("zero") ? '0' : '\0';
        t.left = w[i + 3].equals("left");
        break;
      case "dstr": t.k = K.DSTR; t.prefix = pfx(w[i + 1]); break;
      case "list": t.k = K.LIST; t.prefix = pfx(w[i + 1]); t.elem = type(w, i + 2); break;
      case "obj": t.k = K.OBJ; t.ref = w[i + 1]; break;
      case "len": t.k = K.LEN; t.width = 4; t.other = w[i + 1]; break;
      case "cksum": t.k = K.CKSUM; t.width = 4; t.algo = w[i + 1]; break;
      case "union":
        t.k = K.UNION;
        t.other = w[i + 1];
        t.keyWidth = w[i + 2].equals("key") ? 0 : pfx(w[i + 2]);
        break;
      default: throw new IllegalArgumentException(w[i]);
    }
    return t;
  }

  private void link() {
    for (Msg m : all) {
      for (Field f : m.fields) {
        link(m, f.t);
        if (f.t.k == K.UNION) {
          m.union = f;
          f.t.otherIdx = m.field(f.t.other).idx;
        }
        if (f.t.k == K.LEN) {
          m.len = f;
          f.t.otherIdx = m.field(f.t.other).idx;
        }
        if (f.t.k == K.CKSUM) {
          m.cksum = f;
        }
      }
      if (m.frame()) {
        frames.add(m);
      }
      if (m.union != null) {
        unions.add(m);
      }
      targets.add(new Target(m, -1));
      if (m.union != null) {
        for (int i = 0; i < m.union.t.keys.size(); i++) {
          targets.add(new Target(m, i));
        }
      }
    }
  }

  private void link(Msg m, Type t) {
    if (t.elem != null) {
      link(m, t.elem);
    }
    if (t.ref != null) {
      t.msg = m.mod.msgs.get(t.ref);
      if (t.msg == null) {
        throw new IllegalStateException(m + " -> " + t.ref);
      }
    }
    for (Map.Entry<Object, String> e : t.caseNames.entrySet()) {
      Msg c = m.mod.msgs.get(e.getValue());
      if (c == null) {
        throw new IllegalStateException(m + " -> " + e.getValue());
      }
      t.cases.put(e.getKey(), c);
      t.keys.add(e.getKey());
    }
  }

  Msg get(String id) {
    for (Msg m : all) {
      if (m.id().equals(id)) {
        return m;
      }
    }
    throw new IllegalArgumentException(id);
  }
}
