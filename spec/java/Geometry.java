import java.util.ArrayList;
import java.util.Comparator;
import java.util.LinkedHashMap;
import java.util.Map;
import java.util.TreeSet;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Accelerated evaluation of operators of Geometry.tla: TLC substitutes static
 * methods of a class named like a module for the module's operators.  The
 * definitions in Geometry.tla are the specification; harness/selftest.py checks
 * that these methods compute the same values.
 */
public final class Geometry {
  static long[] point(Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    return new long[] {((IntValue) e[0]).val, ((IntValue) e[1]).val, ((IntValue) e[2]).val};
  }

  /** x1 y1 d1 x2 y2 d2 a b c */
  static long[] edge(Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final long[] p = point(e[0]), q = point(e[1]);
    return new long[] {
      p[0], p[1], p[2], q[0], q[1], q[2],
      ((IntValue) e[2]).val, ((IntValue) e[3]).val, ((IntValue) e[4]).val
    };
  }

  private static final ThreadLocal<LinkedHashMap<Identity, long[][]>> CACHE =
      ThreadLocal.withInitial(
          () ->
              new LinkedHashMap<Identity, long[][]>(64, .75f, true) {
                @Override
                protected boolean removeEldestEntry(Map.Entry<Identity, long[][]> e) {
                  return size() > 400;
                }
              });

  private static final class Identity {
    final Object o;

    Identity(Object o) {
      this.o = o;
    }

    @Override
    public int hashCode() {
      return System.identityHashCode(o);
    }

    @Override
    public boolean equals(Object other) {
      return ((Identity) other).o == o;
    }
  }

  static SetEnumValue set(Value v) {
    final SetEnumValue s = (SetEnumValue) v.toSetEnum();
    s.normalize();
    return s;
  }

  static long[][] edges(Value v) {
    final LinkedHashMap<Identity, long[][]> cache = CACHE.get();
    final Identity key = new Identity(v);
    long[][] r = cache.get(key);
    if (r == null) {
      final SetEnumValue s = set(v);
      r = new long[s.elems.size()][];
      for (int i = 0; i < r.length; i++) r[i] = edge(s.elems.elementAt(i));
      cache.put(key, r);
    }
    return r;
  }

  static IntValue num(long v) {
    if (v != (int) v) throw new ArithmeticException("coordinate does not fit");
    return IntValue.gen((int) v);
  }

  static TupleValue point(long x, long y, long d) {
    return new TupleValue(new Value[] {num(x), num(y), num(d)});
  }

  static long gcd(long a, long b) {
    while (b != 0) {
      final long t = a % b;
      a = b;
      b = t;
    }
    return a;
  }

  static long[] reduce(long x, long y, long d) {
    final long s = d < 0 ? -1 : 1;
    final long g = gcd(gcd(Math.abs(d), Math.abs(x)), Math.abs(y));
    return new long[] {s * x / g, s * y / g, s * d / g};
  }

  static int compare(long[] p, long[] q) {
    final long u = p[0] * q[2], v = q[0] * p[2];
    return u != v ? Long.compare(u, v) : Long.compare(p[1] * q[2], q[1] * p[2]);
  }

  static final Comparator<long[]> ORDER = Geometry::compare;

  static long side(long[] e, long[] m) {
    return e[6] * m[0] + e[7] * m[1] + e[8] * m[2];
  }

  static long[] start(long[] e) {
    return new long[] {e[0], e[1], e[2]};
  }

  static long[] end(long[] e) {
    return new long[] {e[3], e[4], e[5]};
  }

  // x of p < x of the start / end of e
  static boolean ltX(long[] p, long[] e, int o) {
    return p[0] * e[o + 2] < e[o] * p[2];
  }

  static boolean ltY(long[] p, long[] e, int o) {
    return p[1] * e[o + 2] < e[o + 1] * p[2];
  }

  static void cuts(long[] e, long[] f, TreeSet<long[]> out) {
    if (e[3] * f[2] < f[0] * e[5] || f[3] * e[2] < e[0] * f[5]) return;
    final long[] e1 = start(e), e2 = end(e), f1 = start(f), f2 = end(f);
    final int o1 = Long.signum(side(e, f1)), o2 = Long.signum(side(e, f2));
    if (o1 == 0 && o2 == 0) {
      if (compare(e1, f1) <= 0 && compare(f1, e2) <= 0) out.add(f1);
      if (compare(e1, f2) <= 0 && compare(f2, e2) <= 0) out.add(f2);
      return;
    }
    if (o1 * o2 > 0) return;
    final int o3 = Long.signum(side(f, e1)), o4 = Long.signum(side(f, e2));
    if (o3 * o4 > 0) return;
    if (o1 == 0) out.add(f1);
    else if (o2 == 0) out.add(f2);
    else if (o3 == 0) out.add(e1);
    else if (o4 == 0) out.add(e2);
    else
      out.add(
          reduce(
              e[7] * f[8] - f[7] * e[8],
              e[8] * f[6] - f[8] * e[6],
              e[6] * f[7] - f[6] * e[7]));
  }

  static SetEnumValue points(TreeSet<long[]> s) {
    final ArrayList<Value> r = new ArrayList<>();
    for (long[] p : s) r.add(point(p[0], p[1], p[2]));
    return new SetEnumValue(r.toArray(new Value[0]), false);
  }

  // -- substituted operators

  public static Value LtP(Value p, Value q) {
    return compare(point(p), point(q)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  public static Value LeP(Value p, Value q) {
    return compare(point(p), point(q)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  public static Value Orient(Value a, Value b, Value c) {
    final long[] p = point(a), q = point(b), r = point(c);
    return IntValue.gen(
        Long.signum(
            (p[1] * q[2] - q[1] * p[2]) * r[0]
                + (q[0] * p[2] - p[0] * q[2]) * r[1]
                + (p[0] * q[1] - q[0] * p[1]) * r[2]));
  }

  public static Value MkEdge(Value a, Value b) {
    long[] p = point(a), q = point(b);
    if (compare(p, q) >= 0) {
      final long[] t = p;
      p = q;
      q = t;
      final Value v = a;
      a = b;
      b = v;
    }
    long la = p[1] * q[2] - q[1] * p[2];
    long lb = q[0] * p[2] - p[0] * q[2];
    long lc = p[0] * q[1] - q[0] * p[1];
    if (p[2] != 1 || q[2] != 1) {
      final long g = gcd(gcd(Math.abs(la), Math.abs(lb)), Math.abs(lc));
      la /= g;
      lb /= g;
      lc /= g;
    }
    return new TupleValue(new Value[] {a, b, num(la), num(lb), num(lc)});
  }

  public static Value OnEdge(Value e, Value m) {
    final long[] f = edge(e), p = point(m);
    return side(f, p) == 0 && compare(start(f), p) <= 0 && compare(p, end(f)) <= 0
        ? BoolValue.ValTrue
        : BoolValue.ValFalse;
  }

  public static Value CutPoints(Value e, Value f) {
    final TreeSet<long[]> out = new TreeSet<>(ORDER);
    cuts(edge(e), edge(f), out);
    return points(out);
  }

  public static Value EdgesMeet(Value e, Value f) {
    final TreeSet<long[]> out = new TreeSet<>(ORDER);
    final long[] x = edge(e), y = edge(f);
    cuts(x, y, out);
    cuts(y, x, out);
    return out.isEmpty() ? BoolValue.ValFalse : BoolValue.ValTrue;
  }

  public static Value EdgesOverlap(Value e, Value f) {
    final long[] x = edge(e), y = edge(f);
    return side(x, start(y)) == 0
            && side(x, end(y)) == 0
            && compare(start(x), end(y)) < 0
            && compare(start(y), end(x)) < 0
        ? BoolValue.ValTrue
        : BoolValue.ValFalse;
  }

  public static Value Fragments(Value E, Value all) {
    final long[][] es = edges(E), as = edges(all);
    final ArrayList<Value> out = new ArrayList<>();
    for (long[] e : es) {
      final TreeSet<long[]> s = new TreeSet<>(ORDER);
      s.add(start(e));
      s.add(end(e));
      for (long[] f : as) cuts(e, f, s);
      Value previous = null;
      for (long[] p : s) {
        final Value v = point(p[0], p[1], p[2]);
        if (previous != null) out.add(new TupleValue(new Value[] {previous, v}));
        previous = v;
      }
    }
    final SetEnumValue r = new SetEnumValue(out.toArray(new Value[0]), false);
    r.normalize();
    return r;
  }

  public static Value UpperCount(Value E, Value probe) {
    final Value[] pr = ((TupleValue) probe.toTuple()).elems;
    final long[] m = point(pr[0]);
    final boolean vertical = ((BoolValue) pr[1]).val;
    return IntValue.gen(upper(edges(E), m, vertical));
  }

  static int upper(long[][] es, long[] m, boolean vertical) {
    int n = 0;
    for (long[] e : es) {
      if (vertical) {
        if (e[6] < 0 && !ltY(m, e, 0) && ltY(m, e, 3) && side(e, m) > 0) n++;
        else if (e[6] > 0 && !ltY(m, e, 3) && ltY(m, e, 0) && side(e, m) < 0) n++;
      } else if (!ltX(m, e, 0) && ltX(m, e, 3) && side(e, m) < 0) n++;
    }
    return n;
  }

  public static Value Sides(Value E, Value probe, Value bounding) {
    final Value[] pr = ((TupleValue) probe.toTuple()).elems;
    final boolean u = (upper(edges(E), point(pr[0]), ((BoolValue) pr[1]).val) & 1) == 1;
    final boolean v = u != ((BoolValue) bounding).val;
    return new TupleValue(
        new Value[] {
          u ? BoolValue.ValTrue : BoolValue.ValFalse, v ? BoolValue.ValTrue : BoolValue.ValFalse
        });
  }

  public static Value InsideRegion(Value E, Value m) {
    return (upper(edges(E), point(m), false) & 1) == 1 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
