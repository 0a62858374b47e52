package vf;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.ByteBuf;
import java.lang.reflect.Modifier;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.Map;
import jdk.internal.org.objectweb.asm.ClassWriter;
import jdk.internal.org.objectweb.asm.MethodVisitor;
import jdk.internal.org.objectweb.asm.Opcodes;

/**
 * A user's subclasses of message types with an encode, decode, equals, hashCode and toString of their own, made at run time.
 * What each object does is said by its part.
 */
public final class Hooked {
  /** What the generated classes offer. */
  public interface Own extends BinaryCodec {
    void superEncode(ByteBuf b);

    void superDecode(ByteBuf b);

    boolean superEquals(Object o);

    int superHash();

    String superText();
  }

  /** What the objects of a case do. */
  interface Acts {
    void encode(Own o, ByteBuf b);

    void decode(Own o, ByteBuf b);

    boolean equal(Own o, Object x);

    int hash(Own o);

    String text(Own o);
  }

  private static final ThreadLocal<Map<Object, Acts>> ACTS = ThreadLocal.withInitial(IdentityHashMap::new);
  private static final Map<Class<?>, Class<?>> MADE = new HashMap<>();
  private static final String ME = "vf/Hooked", OWN = "vf/Hooked$Own", BUF = "(Lio/netty/buffer/ByteBuf;)V";

  private static final class Loader extends ClassLoader {
    Loader() {
      super(Hooked.class.getClassLoader());
    }

    Class<?> define(String n, byte[] b) {
      return defineClass(n, b, 0, b.length);
    }
  }

  static void forget() {
    ACTS.get().clear();
  }

  static boolean possible(Spec.Msg t) {
    return !Modifier.isFinal(t.acc.cls.getModifiers());
  }

  static Class<?> type(Spec.Msg t) {
    synchronized (MADE) {
      return MADE.computeIfAbsent(t.acc.cls, Hooked::make);
    }
  }

  static BinaryCodec fresh(Spec.Msg t, Acts a) {
    try {
      BinaryCodec o = (BinaryCodec) type(t).getConstructor().newInstance();
      ACTS.get().put(o, a);
      return o;
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  static Acts acts(Object o) {
    return ACTS.get().get(o);
  }

  // called by the generated classes

  public static void encode(Own o, ByteBuf b) {
    acts(o).encode(o, b);
  }

  public static void decode(Own o, ByteBuf b) {
    acts(o).decode(o, b);
  }

  public static boolean equal(Own o, Object x) {
    return acts(o).equal(o, x);
  }

  public static int hash(Own o) {
    return acts(o).hash(o);
  }

  public static String text(Own o) {
    return acts(o).text(o);
  }

  private static Class<?> make(Class<?> base) {
    String name = "user/Own" + base.getSimpleName(), sup = base.getName().replace('.', '/');
    ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    w.visit(Opcodes.V1_8, Opcodes.ACC_PUBLIC | Opcodes.ACC_SUPER, name, null, sup, new String[] {OWN});
    String[][] ms = {
      {"<init>", "()V"}, {"encode", BUF, "superEncode", "encode"}, {"decode", BUF, "superDecode", "decode"},
      {"equals", "(Ljava/lang/Object;)Z", "superEquals", "equal"}, {"hashCode", "()I", "superHash", "hash"},
      {"toString", "()Ljava/lang/String;", "superText", "text"}};
    for (String[] m : ms) {
      String ret = m[1].substring(m[1].indexOf(')') + 1);
      int op = ret.equals("V") ? Opcodes.RETURN : ret.equals("I") || ret.equals("Z") ? Opcodes.IRETURN : Opcodes.ARETURN;
      boolean arg = !m[1].startsWith("()");
      for (int i = 0; i < (m.length == 2 ? 1 : 2); i++) {
        // the method, which asks the object's part; and the way to the superclass' own method
        MethodVisitor v = w.visitMethod(Opcodes.ACC_PUBLIC, i == 0 ? m[0] : m[2], m[1], null, null);
        v.visitCode();
        v.visitVarInsn(Opcodes.ALOAD, 0);
        if (arg) {
          v.visitVarInsn(Opcodes.ALOAD, 1);
        }
        if (m.length == 2 || i == 1) {
          v.visitMethodInsn(Opcodes.INVOKESPECIAL, sup, m[0], m[1], false);
        } else {
          v.visitMethodInsn(Opcodes.INVOKESTATIC, ME, m[3], "(L" + OWN + ";" + m[1].substring(1), false);
        }
        v.visitInsn(op);
        v.visitMaxs(0, 0);
        v.visitEnd();
      }
    }
    w.visitEnd();
    return new Loader().define(name.replace('/', '.'), w.toByteArray());
  }

  private Hooked() {}
}
