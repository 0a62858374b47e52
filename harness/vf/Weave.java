package vf;

import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.stream.Stream;
import jdk.internal.org.objectweb.asm.ClassReader;
import jdk.internal.org.objectweb.asm.ClassVisitor;
import jdk.internal.org.objectweb.asm.ClassWriter;
import jdk.internal.org.objectweb.asm.MethodVisitor;
import jdk.internal.org.objectweb.asm.Opcodes;

/** Puts the places where threads can take turns into the compiled classes (in the scratch folder). */
final class Weave {
  static void run(Path classes) throws IOException {
    Path[] files;
    try (Stream<Path> st = Files.walk(classes)) {
      files = st.filter(p -> p.toString().endsWith(".class")).sorted().toArray(Path[]::new);
    }
    for (Path p : files) {
      Files.write(p, weave(Files.readAllBytes(p)));
    }
  }

  private static byte[] weave(byte[] b) {
    ClassReader r = new ClassReader(b);
    ClassWriter w = new ClassWriter(r, 0);
    r.accept(new ClassVisitor(Opcodes.ASM7, w) {
      @Override
      public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
        MethodVisitor mv = super.visitMethod(acc, name, desc, sig, ex);
        return new MethodVisitor(Opcodes.ASM7, mv) {
          private void point() {
            super.visitMethodInsn(Opcodes.INVOKESTATIC, "vf/Sched", "point", "()V", false);
          }

          @Override
          public void visitFieldInsn(int op, String owner, String n, String d) {
            point();
            super.visitFieldInsn(op, owner, n, d);
          }

          @Override
          public void visitMethodInsn(int op, String owner, String n, String d, boolean itf) {
            point();
            super.visitMethodInsn(op, owner, n, d, itf);
          }

          @Override
          public void visitInsn(int op) {
            if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD || op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) {
              point();
            }
            super.visitInsn(op);
          }
        };
      }
    }, 0);
    return w.toByteArray();
  }

  private Weave() {}
}
