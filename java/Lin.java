import tlc2.value.impl.*;

/** TLC overrides of composite operators of spec/Lin.tla (same meaning, without interning every intermediate
 *  number as a string); their meaning is checked by spec/RatSelfTest.tla. */
public class Lin {
  public static Value Det(final Value m) { return Q.det(Q.mat(m)).val(); }
  public static Value MatMul(final Value a, final Value b) {
    final Q[][] A = Q.mat(a), B = Q.mat(b);
    final Q[][] r = new Q[A.length][];
    final int cols = B[0].length;
    for (int i = 0; i < A.length; i++) {
      r[i] = new Q[cols];
      for (int j = 0; j < cols; j++) {
        final Q[] c = new Q[B.length];
        for (int k = 0; k < B.length; k++) c[k] = B[k][j];
        r[i][j] = Q.dot(A[i], c);
      }
    }
    return Q.val(r);
  }
  public static Value MInverse(final Value m) {
    final Q[][] A = Q.mat(m);
    final int n = A.length;
    final Q[][] W = new Q[n][2 * n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { W[i][j] = A[i][j]; W[i][n + j] = i == j ? Q.ONE : Q.ZERO; }
    if (Q.rref(W, n).length < n) throw new RuntimeException("MInverse of a singular matrix");
    final Q[][] r = new Q[n][];
    for (int i = 0; i < n; i++) r[i] = java.util.Arrays.copyOfRange(W[i], n, 2 * n);
    return Q.val(r);
  }
  public static BoolValue IsPSD(final Value m) { return Rat.b(Q.psd(Q.mat(m), false)); }
  public static BoolValue IsPD(final Value m) { return Rat.b(Q.psd(Q.mat(m), true)); }
  public static Value Rank(final Value m) {
    final Q[][] A = Q.mat(m);
    return IntValue.gen(A.length == 0 || A[0].length == 0 ? 0 : Q.rref(A, A[0].length).length);
  }
}
