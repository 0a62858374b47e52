package vf;

/** A property: a generated check over choices. */
abstract class Prop {
  final String id;
  final String rule;
  /** touches process-wide registries: cases run one after another. */
  boolean single;
  long quick;
  long thorough;

  Prop(String id, long quick, long thorough, boolean single, String rule) {
    this.id = id;
    this.quick = quick;
    this.thorough = thorough;
    this.single = single;
    this.rule = rule;
  }

  /** The first draws of case i, which spread the cases evenly over what must all be visited. */
  long[] prefix(long i) {
    return null;
  }

  abstract void run(Src s, Ctx c);
}
