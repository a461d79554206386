import java.math.BigInteger;
import tlc2.value.impl.*;

/** Exact fractions, vectors and matrices for the composite overrides (Lin.java, Poly.java). */
final class Q implements Comparable<Q> {
  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE), ONE = new Q(BigInteger.ONE, BigInteger.ONE);
  final BigInteger n, d;
  private Q(final BigInteger n, final BigInteger d) { this.n = n; this.d = d; }
  static Q of(BigInteger n, BigInteger d) {
    if (n.signum() == 0) return ZERO;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    final BigInteger g = n.gcd(d);
    return g.equals(BigInteger.ONE) ? new Q(n, d) : new Q(n.divide(g), d.divide(g));
  }
  static Q of(final Value v) { final BigInteger[] x = Rat.p(v); return of(x[0], x[1]); }
  Q add(final Q o) { return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
  Q sub(final Q o) { return of(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
  Q mul(final Q o) { return n.signum() == 0 || o.n.signum() == 0 ? ZERO : of(n.multiply(o.n), d.multiply(o.d)); }
  Q div(final Q o) { if (o.n.signum() == 0) throw new RuntimeException("division by zero"); return of(n.multiply(o.d), d.multiply(o.n)); }
  Q neg() { return new Q(n.negate(), d); }
  int sgn() { return n.signum(); }
  public int compareTo(final Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
  @Override public boolean equals(final Object o) { return o instanceof Q && ((Q) o).n.equals(n) && ((Q) o).d.equals(d); }
  @Override public int hashCode() { return 31 * n.hashCode() + d.hashCode(); }
  Value val() { return Rat.m(n, d); }

  static Q[] vec(final Value v) {
    final Value[] e = Rat.els(v);
    final Q[] r = new Q[e.length];
    for (int i = 0; i < e.length; i++) r[i] = of(e[i]);
    return r;
  }
  static Q[][] mat(final Value v) {
    final Value[] e = Rat.els(v);
    final Q[][] r = new Q[e.length][];
    for (int i = 0; i < e.length; i++) r[i] = vec(e[i]);
    return r;
  }
  static Value val(final Q[] v) {
    final Value[] e = new Value[v.length];
    for (int i = 0; i < v.length; i++) e[i] = v[i].val();
    return new TupleValue(e);
  }
  static Value val(final Q[][] m) {
    final Value[] e = new Value[m.length];
    for (int i = 0; i < m.length; i++) e[i] = val(m[i]);
    return new TupleValue(e);
  }
  static Q dot(final Q[] a, final Q[] b) {
    if (a.length != b.length) throw new RuntimeException("lengths differ");
    BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
    for (int i = 0; i < a.length; i++) {
      if (a[i].sgn() == 0 || b[i].sgn() == 0) continue;
      final BigInteger pd = a[i].d.multiply(b[i].d);
      n = n.multiply(pd).add(a[i].n.multiply(b[i].n).multiply(d)); d = d.multiply(pd);
    }
    return of(n, d);
  }
  static Q[][] copy(final Q[][] m) {
    final Q[][] r = new Q[m.length][];
    for (int i = 0; i < m.length; i++) r[i] = m[i].clone();
    return r;
  }
  static Q det(final Q[][] m0) {
    final Q[][] m = copy(m0);
    final int k = m.length;
    Q r = ONE;
    for (int c = 0; c < k; c++) {
      int p = c;
      while (p < k && m[p][c].sgn() == 0) p++;
      if (p == k) return ZERO;
      if (p != c) { final Q[] t = m[p]; m[p] = m[c]; m[c] = t; r = r.neg(); }
      r = r.mul(m[c][c]);
      for (int i = c + 1; i < k; i++) {
        if (m[i][c].sgn() == 0) continue;
        final Q f = m[i][c].div(m[c][c]);
        for (int j = c + 1; j < k; j++) m[i][j] = m[i][j].sub(f.mul(m[c][j]));
      }
    }
    return r;
  }
  /** reduced row echelon form in place; returns the pivot columns of the leading rows */
  static int[] rref(final Q[][] m, final int cols) {
    final java.util.ArrayList<Integer> piv = new java.util.ArrayList<>();
    int r = 0;
    for (int c = 0; c < cols && r < m.length; c++) {
      int p = r;
      while (p < m.length && m[p][c].sgn() == 0) p++;
      if (p == m.length) continue;
      final Q[] t = m[p]; m[p] = m[r]; m[r] = t;
      final Q s = m[r][c];
      for (int j = 0; j < m[r].length; j++) m[r][j] = m[r][j].div(s);
      for (int i = 0; i < m.length; i++) {
        if (i == r || m[i][c].sgn() == 0) continue;
        final Q f = m[i][c];
        for (int j = 0; j < m[i].length; j++) m[i][j] = m[i][j].sub(f.mul(m[r][j]));
      }
      piv.add(c); r++;
    }
    final int[] q = new int[piv.size()];
    for (int i = 0; i < q.length; i++) q[i] = piv.get(i);
    return q;
  }
  static Q[][] nullBasis(final Q[][] m0, final int n) {
    final Q[][] m = copy(m0);
    final int[] piv = m.length == 0 ? new int[0] : rref(m, n);
    final Q[][] r = new Q[n - piv.length][];
    int k = 0;
    for (int c = 0, q = 0; c < n; c++) {
      if (q < piv.length && piv[q] == c) { q++; continue; }
      final Q[] v = new Q[n];
      java.util.Arrays.fill(v, ZERO);
      v[c] = ONE;
      for (int i = 0; i < piv.length; i++) v[piv[i]] = m[i][c].neg();
      r[k++] = v;
    }
    return r;
  }
  static Q[] cross(final Q[][] rows, final int n) {
    final Q[] f = new Q[n];
    for (int j = 0; j < n; j++) {
      final Q[][] s = new Q[n - 1][n - 1];
      for (int i = 0; i < n - 1; i++) for (int k = 0; k < n - 1; k++) s[i][k] = rows[i][k < j ? k : k + 1];
      final Q d = det(s);
      f[j] = j % 2 == 0 ? d : d.neg();
    }
    return f;
  }
  static Q[] canon(final Q[] v) {
    Q m = ZERO;
    for (final Q x : v) { final Q a = x.sgn() < 0 ? x.neg() : x; if (a.compareTo(m) > 0) m = a; }
    if (m.sgn() == 0) return v;
    final Q[] r = new Q[v.length];
    for (int i = 0; i < v.length; i++) r[i] = v[i].div(m);
    return r;
  }
  static boolean psd(final Q[][] m0, final boolean strict) {
    final Q[][] m = copy(m0);
    final int k = m.length;
    for (int c = 0; c < k; c++) {
      final int s = m[c][c].sgn();
      if (s < 0 || (strict && s == 0)) return false;
      if (s == 0) {
        for (int j = c + 1; j < k; j++) if (m[c][j].sgn() != 0 || m[j][c].sgn() != 0) return false;
        continue;
      }
      for (int i = c + 1; i < k; i++) {
        if (m[i][c].sgn() == 0) continue;
        final Q f = m[i][c].div(m[c][c]);
        for (int j = c + 1; j < k; j++) m[i][j] = m[i][j].sub(f.mul(m[c][j]));
      }
    }
    return true;
  }
}
