package vf;

/** The property does not hold on this case. */
final class Fail extends RuntimeException {
  Fail(String m) {
    super(m);
  }

  Fail(String m, Throwable t) {
    super(m, t);
  }
}
