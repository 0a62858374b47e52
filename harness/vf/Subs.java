package vf;

import com.finproto.codec.BinaryCodec;
import java.io.ByteArrayOutputStream;
import java.io.DataOutputStream;
import java.io.IOException;
import java.lang.reflect.Modifier;
import java.util.HashMap;
import java.util.Map;

/** A user's subclasses of message types, made at run time: they add nothing but are types of their own. */
final class Subs {
  private static final Map<Class<?>, Class<?>> MADE = new HashMap<>();

  private static final class Loader extends ClassLoader {
    Loader(ClassLoader p) {
      super(p);
    }

    Class<?> define(String n, byte[] b) {
      return defineClass(n, b, 0, b.length);
    }
  }

  /** A new object of a subclass, or null where the type cannot be extended. */
  static BinaryCodec fresh(Spec.Msg t) {
    Class<?> base = t.acc.cls;
    if (Modifier.isFinal(base.getModifiers())) {
      return null;
    }
    Class<?> c;
    synchronized (MADE) {
      c = MADE.computeIfAbsent(base, Subs::make);
    }
    try {
      return (BinaryCodec) c.getConstructor().newInstance();
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  private static Class<?> make(Class<?> base) {
    String name = "user.My" + base.getSimpleName();
    try {
      ByteArrayOutputStream bytes = new ByteArrayOutputStream();
      DataOutputStream o = new DataOutputStream(bytes);
      o.writeInt(0xCAFEBABE);
      o.writeShort(0);
      o.writeShort(52);
      o.writeShort(10);
      utf(o, name.replace('.', '/')); // 1
      o.writeByte(7); // 2: this class
      o.writeShort(1);
      utf(o, base.getName().replace('.', '/')); // 3
      o.writeByte(7); // 4: superclass
      o.writeShort(3);
      utf(o, "<init>"); // 5
      utf(o, "()V"); // 6
      utf(o, "Code"); // 7
      o.writeByte(12); // 8: name and type
      o.writeShort(5);
      o.writeShort(6);
      o.writeByte(10); // 9: superclass' constructor
      o.writeShort(4);
      o.writeShort(8);
      o.writeShort(0x21); // public super
      o.writeShort(2);
      o.writeShort(4);
      o.writeShort(0); // interfaces
      o.writeShort(0); // fields
      o.writeShort(1); // methods
      o.writeShort(1);
      o.writeShort(5);
      o.writeShort(6);
      o.writeShort(1);
      o.writeShort(7);
      o.writeInt(17);
      o.writeShort(1);
      o.writeShort(1);
      o.writeInt(5);
      o.write(new byte[] {0x2a, (byte) 0xb7, 0, 9, (byte) 0xb1});
      o.writeShort(0);
      o.writeShort(0);
      o.writeShort(0);
      return new Loader(base.getClassLoader()).define(name, bytes.toByteArray());
    } catch (IOException e) {
      throw new IllegalStateException(e);
    }
  }

  private static void utf(DataOutputStream o, String x) throws IOException {
    o.writeByte(1);
    o.writeUTF(x);
  }

  private Subs() {}
}
