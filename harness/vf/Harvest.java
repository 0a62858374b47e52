package vf;

import java.io.IOException;
import java.io.InputStream;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.Arrays;
import java.util.HashMap;
import java.util.Map;
import java.util.stream.Stream;
import jdk.internal.org.objectweb.asm.ClassReader;
import jdk.internal.org.objectweb.asm.ClassVisitor;
import jdk.internal.org.objectweb.asm.Label;
import jdk.internal.org.objectweb.asm.MethodVisitor;
import jdk.internal.org.objectweb.asm.Opcodes;

/** Reads the constants of the compiled classes into dictionaries; on a JDK without this reader there are none. */
final class Harvest {
  static Map<String, Dict> run(Path classes) throws IOException {
    Map<String, Dict> m = new HashMap<>();
    Map<String, Dict> consts = new HashMap<>(); // of every class, for comparison with the baseline
    Dict c = new Dict();
    Path[] files;
    try (Stream<Path> st = Files.walk(classes)) {
      files = st.filter(p -> p.toString().endsWith(".class")).sorted().toArray(Path[]::new);
    }
    Arrays.sort(files);
    for (Path p : files) {
      try (InputStream in = Files.newInputStream(p)) {
        ClassReader r = new ClassReader(in.readAllBytes());
        String name = r.getClassName().replace('/', '.');
        String top = name;
        boolean codecPkg = name.startsWith("com.finproto.codec") || name.startsWith("com.finproto.bitmap");
        Dict d = codecPkg ? c : m.computeIfAbsent(top, k -> new Dict());
        boolean skipStatic = name.endsWith("MessageFactory") || name.contains("MessageType");
        Dict k = consts.computeIfAbsent(name, x -> new Dict());
        r.accept(new ClassVisitor(Opcodes.ASM6) {
          @Override
          public MethodVisitor visitMethod(int a, String mn, String ds, String sg, String[] ex) {
            boolean skip = skipStatic || mn.equals("toString");
            return new MethodVisitor(Opcodes.ASM6) {
              private void num(long v) {
                k.n.add(v);
                if (!skip) {
                  d.n.add(v);
                }
              }

              @Override
              public void visitIntInsn(int op, int v) {
                if (op != Opcodes.NEWARRAY) {
                  num(v);
                }
              }

              @Override
              public void visitIincInsn(int var, int inc) {}

              @Override
              public void visitLdcInsn(Object o) {
                if (o instanceof Integer || o instanceof Long) {
                  num(((Number) o).longValue());
                } else if (o instanceof Double) {
                  num(Double.doubleToRawLongBits((Double) o));
                  num((long) (double) (Double) o);
                } else if (o instanceof Float) {
                  num(Float.floatToRawIntBits((Float) o));
                } else if (o instanceof String && ((String) o).length() <= 64) {
                  k.s.add((String) o);
                  if (!skip) {
                    d.s.add((String) o);
                  }
                }
              }

              @Override
              public void visitTableSwitchInsn(int min, int max, Label df, Label... l) {
                for (int i = min; i <= max && i < min + 50; i++) {
                  num(i);
                }
              }

              @Override
              public void visitLookupSwitchInsn(Label df, int[] keys, Label[] l) {
                for (int x : keys) {
                  num(x);
                }
              }
            };
          }
        }, ClassReader.SKIP_DEBUG | ClassReader.SKIP_FRAMES);
      } catch (RuntimeException | LinkageError e) {
        // a class file this reader does not understand: no suggestions from it
      }
    }
    c.freeze();
    Dict.codec = c;
    for (Dict d : m.values()) {
      d.freeze();
    }
    Dict.byClass.putAll(m);
    Focus.constants(consts);
    return consts;
  }

  private Harvest() {}
}
