import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC overrides of the costly operators of spec/Poly.tla (same meaning as their TLA+ definitions; the order of
 *  the facets is unspecified there).  Their meaning is checked by spec/MC_Poly.tla and spec/MC_Dd.tla. */
public class Poly {
  public static Value NullBasis(final Value m, final Value n) { return Q.val(Q.nullBasis(Q.mat(m), ((IntValue) n).val)); }
  public static Value CrossN(final Value rows, final Value n) { return Q.val(Q.cross(Q.mat(rows), ((IntValue) n).val)); }
  public static Value ConeFacets(final Value g, final Value nv) {
    final int n = ((IntValue) nv).val;
    final Q[][] all = Q.mat(g);
    final Q[][] N = Q.nullBasis(all, n);
    final LinkedHashMap<List<Q>, Q[]> uniq = new LinkedHashMap<>();
    for (final Q[] v : all) { final Q[] c = Q.canon(v); uniq.putIfAbsent(Arrays.asList(c), c); }
    final Q[][] G = uniq.values().toArray(new Q[0][]);
    final int k = n - N.length;
    final LinkedHashMap<List<Q>, Q[]> F = new LinkedHashMap<>();
    if (k > 0) {
      final Q[][] rows = new Q[n - 1][];
      for (int i = 0; i < N.length && i < n - 1; i++) rows[i] = N[i];
      final int[] idx = new int[k - 1];
      subsets(G, rows, N.length, idx, 0, 0, n, F);
    }
    final Q[][] r = F.values().toArray(new Q[0][]);
    Arrays.sort(r, (a, b) -> { for (int i = 0; i < n; i++) { final int c = a[i].compareTo(b[i]); if (c != 0) return c; } return 0; });
    return new RecordValue(new UniqueString[] { UniqueString.uniqueStringOf("F"), UniqueString.uniqueStringOf("N") },
                           new Value[] { Q.val(r), Q.val(N) }, false);
  }
  private static void subsets(final Q[][] G, final Q[][] rows, final int nn, final int[] idx, final int at, final int from,
                              final int n, final Map<List<Q>, Q[]> F) {
    if (at == idx.length) {
      Q[] f = Q.cross(rows, n);
      boolean zero = true;
      for (final Q x : f) if (x.sgn() != 0) { zero = false; break; }
      if (zero) return;
      boolean neg = false, pos = false;
      for (final Q[] v : G) {
        final int s = Q.dot(f, v).sgn();
        if (s > 0) pos = true; else if (s < 0) neg = true;
        if (pos && neg) return;
      }
      if (neg) { final Q[] h = new Q[n]; for (int i = 0; i < n; i++) h[i] = f[i].neg(); f = h; }
      f = Q.canon(f);
      F.putIfAbsent(Arrays.asList(f), f);
      return;
    }
    for (int i = from; i < G.length; i++) { rows[nn + at] = G[i]; idx[at] = i; subsets(G, rows, nn, idx, at + 1, i + 1, n, F); }
  }
}
