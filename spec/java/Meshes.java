import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;

/** Accelerated evaluation of operators of Meshes.tla (see Geometry.java). */
public final class Meshes {
  public static Value InCircle(Value a, Value b, Value c, Value d) {
    final long[] p = Geometry.point(a), q = Geometry.point(b);
    final long[] r = Geometry.point(c), s = Geometry.point(d);
    final long ax = p[0] - s[0], ay = p[1] - s[1];
    final long bx = q[0] - s[0], by = q[1] - s[1];
    final long cx = r[0] - s[0], cy = r[1] - s[1];
    final long a2 = ax * ax + ay * ay, b2 = bx * bx + by * by, c2 = cx * cx + cy * cy;
    return Geometry.num(
        a2 * (bx * cy - cx * by) - b2 * (ax * cy - cx * ay) + c2 * (ax * by - bx * ay));
  }
}
