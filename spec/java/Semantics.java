import java.util.ArrayList;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Accelerated evaluation of operators of Semantics.tla (see Geometry.java). */
public final class Semantics {
  public static Value On(Value F, Value e) {
    final SetEnumValue s = Geometry.set(F);
    final long[] x = Geometry.edge(e);
    final ArrayList<Value> out = new ArrayList<>();
    for (int i = 0; i < s.elems.size(); i++) {
      final Value f = s.elems.elementAt(i);
      final Value[] pq = ((TupleValue) f.toTuple()).elems;
      final long[] p = Geometry.point(pq[0]), q = Geometry.point(pq[1]);
      if (Geometry.side(x, p) == 0
          && Geometry.side(x, q) == 0
          && Geometry.compare(Geometry.start(x), p) <= 0
          && Geometry.compare(q, Geometry.end(x)) <= 0) out.add(f);
    }
    final SetEnumValue r = new SetEnumValue(out.toArray(new Value[0]), true);
    return r;
  }
}
