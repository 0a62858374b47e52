package vf;

import java.util.SplittableRandom;
import java.util.concurrent.locks.LockSupport;

/**
 * Runs several threads one at a time and decides, from one choice, where the turn passes from one to another. The places where it can
 * pass are calls of {@link #point}, which {@link Weave} puts into the compiled code under test: before every access to a field or
 * an array element and every call. So the interleaving is generated like any other input and a failure replays.
 */
public final class Sched {
  interface Task {
    void run(int i) throws Exception;
  }

  static final class T extends Thread {
    final Sched s;
    final int idx;
    final Task task;
    volatile boolean done;
    volatile boolean waiting;
    Throwable error;

    T(Sched s, int idx, Task task) {
      super("scheduled-" + idx);
      this.s = s;
      this.idx = idx;
      this.task = task;
      setDaemon(true);
    }

    @Override
    public void run() {
      s.await(this);
      try {
        task.run(idx);
      } catch (Throwable e) {
        error = e;
      } finally {
        done = true;
        if (s.turn == idx) {
          s.pass(this);
        }
        LockSupport.unpark(s.driver);
      }
    }
  }

  private final Thread driver = Thread.currentThread();
  private final T[] ts;
  private volatile int turn = -1;
  private volatile long progress;
  private final SplittableRandom rnd;
  private final int gap;
  private int left;
  int switches;

  /** Called by the code under test. */
  public static void point() {
    Thread t = Thread.currentThread();
    if (t instanceof T) {
      T me = (T) t;
      me.s.at(me);
    }
  }

  private Sched(int n, long seed, int gap, Task task) {
    rnd = new SplittableRandom(seed);
    this.gap = gap;
    left = 1 + rnd.nextInt(2 * gap);
    ts = new T[n];
    for (int i = 0; i < n; i++) {
      ts[i] = new T(this, i, task);
    }
  }

  /** Runs n tasks in an interleaving that depends on seed and gap only; the first failure is thrown. Returns the number of switches. */
  static int run(int n, long seed, int gap, Task task) {
    Sched s = new Sched(n, seed, gap, task);
    for (T t : s.ts) {
      t.start();
    }
    s.turn = s.rnd.nextInt(n);
    LockSupport.unpark(s.ts[s.turn]);
    s.drive();
    for (T t : s.ts) {
      if (t.error != null) {
        throw t.error instanceof Fail ? (Fail) t.error : new Fail("thread " + t.idx + ": " + Main.what(t.error), t.error);
      }
    }
    return s.switches;
  }

  private void at(T me) {
    if (turn != me.idx) {
      await(me); // it lost its turn while it was held up
    }
    progress++;
    if (--left > 0) {
      return;
    }
    left = 1 + rnd.nextInt(2 * gap);
    if (pass(me)) {
      await(me);
    }
  }

  private boolean pass(T me) {
    int k = rnd.nextInt(ts.length);
    for (int i = 0; i < ts.length; i++) {
      T t = ts[(k + i) % ts.length];
      if (t != me && !t.done) {
        switches++;
        turn = t.idx;
        LockSupport.unpark(t);
        return true;
      }
    }
    return false;
  }

  private void await(T me) {
    me.waiting = true;
    while (turn != me.idx) {
      LockSupport.park(this);
    }
    me.waiting = false;
  }

  /** Waits for the end; where the thread whose turn it is waits for another one (for a lock, say), the turn goes to that other one. */
  private void drive() {
    long seen = -1;
    int same = 0;
    long end = System.nanoTime() + 100_000_000_000L;
    while (true) {
      boolean all = true;
      for (T t : ts) {
        all &= t.done;
      }
      if (all) {
        return;
      }
      LockSupport.parkNanos(1_000_000);
      long p = progress;
      same = p == seen ? same + 1 : 0;
      seen = p;
      T cur = ts[turn];
      Thread.State st = cur.getState();
      boolean held = !cur.waiting && (st == Thread.State.BLOCKED || st == Thread.State.WAITING || st == Thread.State.TIMED_WAITING);
      if (cur.done || same >= (held ? 1 : 5)) {
        same = 0;
        for (int i = 1; i < ts.length; i++) {
          T t = ts[(cur.idx + i) % ts.length];
          if (!t.done) {
            turn = t.idx;
            LockSupport.unpark(t);
            break;
          }
        }
        if (cur.waiting && !cur.done) {
          LockSupport.unpark(cur);
        }
      }
      if (System.nanoTime() > end) {
        StringBuilder b = new StringBuilder("the threads do not end:");
        for (T t : ts) {
          if (!t.done) {
            b.append(" [").append(t.getState());
            StackTraceElement[] x = t.getStackTrace();
            for (int i = 0; i < x.length && i < 8; i++) {
              b.append(" at ").append(x[i]);
            }
            b.append("]");
          }
        }
        throw new Fail(b.toString());
      }
    }
  }
}
