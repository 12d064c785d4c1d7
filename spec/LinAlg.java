import tlc2.value.impl.*;
import util.UniqueString;

/** Java values for inner-loop operators of module LinAlg; same meaning as their TLA+ definitions. */
public class LinAlg {
    static double[] vec(Value x) {
        Value[] e = F64.tup(x).elems;
        double[] r = new double[e.length];
        for (int i = 0; i < r.length; i++) r[i] = F64.d(e[i]);
        return r;
    }
    static double[][] mat(Value x) {
        Value[] e = F64.tup(x).elems;
        double[][] r = new double[e.length][];
        for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
        return r;
    }
    static Value out(double[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = F64.v(a[i]);
        return new TupleValue(e);
    }
    static Value out(double[][] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = out(a[i]);
        return new TupleValue(e);
    }
    public static Value VSum(Value v) { double s = 0; for (double x : vec(v)) s += x; return F64.v(s); }
    public static Value VDot(Value u, Value v) {
        double[] a = vec(u), b = vec(v); double s = 0;
        for (int i = 0; i < a.length; i++) s += a[i] * b[i];
        return F64.v(s);
    }
    public static Value VAdd(Value u, Value v) { double[] a = vec(u), b = vec(v); for (int i = 0; i < a.length; i++) a[i] += b[i]; return out(a); }
    public static Value VSub(Value u, Value v) { double[] a = vec(u), b = vec(v); for (int i = 0; i < a.length; i++) a[i] -= b[i]; return out(a); }
    public static Value VMul(Value u, Value v) { double[] a = vec(u), b = vec(v); for (int i = 0; i < a.length; i++) a[i] *= b[i]; return out(a); }
    public static Value VDiv(Value u, Value v) { double[] a = vec(u), b = vec(v); for (int i = 0; i < a.length; i++) a[i] /= b[i]; return out(a); }
    public static Value VScale(Value c, Value v) { double k = F64.d(c); double[] a = vec(v); for (int i = 0; i < a.length; i++) a[i] = k * a[i]; return out(a); }
    public static Value VShift(Value c, Value v) { double k = F64.d(c); double[] a = vec(v); for (int i = 0; i < a.length; i++) a[i] = k + a[i]; return out(a); }
    public static Value VMax(Value v) { double[] a = vec(v); double m = a[0]; for (int i = 1; i < a.length; i++) m = m >= a[i] ? m : a[i]; return F64.v(m); }
    public static Value VMin(Value v) { double[] a = vec(v); double m = a[0]; for (int i = 1; i < a.length; i++) m = m <= a[i] ? m : a[i]; return F64.v(m); }
    public static Value VMaxAbs(Value v) { double[] a = vec(v); double m = 0; for (double x : a) { x = Math.abs(x); m = m >= x ? m : x; } return F64.v(m); }
    static Integer[] order(double[] a) {
        Integer[] o = new Integer[a.length];
        for (int i = 0; i < o.length; i++) o[i] = i;
        java.util.Arrays.sort(o, (i, j) -> a[i] < a[j] ? -1 : a[i] > a[j] ? 1 : Integer.compare(i, j));
        return o;
    }
    public static Value VSortIndex(Value v) {
        Integer[] o = order(vec(v));
        Value[] e = new Value[o.length];
        for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(o[i] + 1);
        return new TupleValue(e);
    }
    public static Value VSort(Value v) {
        double[] a = vec(v); Integer[] o = order(a); double[] r = new double[a.length];
        for (int i = 0; i < r.length; i++) r[i] = a[o[i]];
        return out(r);
    }
    public static Value MCol(Value A, Value j) {
        Value[] e = F64.tup(A).elems; int c = ((IntValue) j).val - 1;
        Value[] r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = F64.tup(e[i]).elems[c];
        return new TupleValue(r);
    }
    public static Value MT(Value A) {
        double[][] a = mat(A); int m = a.length == 0 ? 0 : a[0].length;
        double[][] r = new double[m][a.length];
        for (int i = 0; i < a.length; i++) for (int j = 0; j < m; j++) r[j][i] = a[i][j];
        return out(r);
    }
    public static Value MVec(Value A, Value v) {
        double[][] a = mat(A); double[] x = vec(v), r = new double[a.length];
        for (int i = 0; i < r.length; i++) { double s = 0; for (int j = 0; j < a[i].length; j++) s += a[i][j] * x[j]; r[i] = s; }
        return out(r);
    }
    public static Value VMat(Value v, Value A) {
        double[][] a = mat(A); double[] x = vec(v); int m = a.length == 0 ? 0 : a[0].length;
        double[] r = new double[m];
        for (int j = 0; j < m; j++) { double s = 0; for (int i = 0; i < x.length; i++) s += x[i] * a[i][j]; r[j] = s; }
        return out(r);
    }
    public static Value MMul(Value A, Value B) {
        double[][] a = mat(A), b = mat(B); int m = b.length == 0 ? 0 : b[0].length;
        double[][] r = new double[a.length][m];
        for (int i = 0; i < a.length; i++) for (int j = 0; j < m; j++) {
            double s = 0; for (int k = 0; k < b.length; k++) s += a[i][k] * b[k][j]; r[i][j] = s;
        }
        return out(r);
    }
    public static Value XtWX(Value X, Value w) {
        double[][] x = mat(X); double[] q = vec(w); int m = x.length == 0 ? 0 : x[0].length;
        double[][] r = new double[m][m];
        for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) {
            double s = 0; for (int i = 0; i < x.length; i++) s += x[i][a] * q[i] * x[i][b]; r[a][b] = s;
        }
        return out(r);
    }
    public static Value XtWy(Value X, Value w, Value y) {
        double[][] x = mat(X); double[] q = vec(w), z = vec(y); int m = x.length == 0 ? 0 : x[0].length;
        double[] r = new double[m];
        for (int a = 0; a < m; a++) { double s = 0; for (int i = 0; i < x.length; i++) s += x[i][a] * q[i] * z[i]; r[a] = s; }
        return out(r);
    }
    public static Value RowDot(Value A, Value B) {
        double[][] a = mat(A), b = mat(B); double[] r = new double[a.length];
        for (int i = 0; i < r.length; i++) { double s = 0; for (int j = 0; j < a[i].length; j++) s += a[i][j] * b[i][j]; r[i] = s; }
        return out(r);
    }
    public static Value XtW(Value X, Value w) {
        double[][] x = mat(X); double[] q = vec(w); int m = x.length == 0 ? 0 : x[0].length;
        double[][] r = new double[m][x.length];
        for (int a = 0; a < m; a++) for (int i = 0; i < x.length; i++) r[a][i] = x[i][a] * q[i];
        return out(r);
    }
    public static Value MNormInf(Value A) {
        double m = Double.NEGATIVE_INFINITY;
        for (double[] r : mat(A)) { double s = 0; for (double x : r) s += Math.abs(x); m = m >= s ? m : s; }
        return F64.v(m);
    }
    static double[][] inv(double[][] a) {
        int n = a.length;
        double[][] b = new double[n][2 * n];
        for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) b[i][j] = a[i][j]; b[i][n + i] = 1; }
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int q = k + 1; q < n; q++) if (Math.abs(b[q][k]) > Math.abs(b[p][k])) p = q;
            double[] t = b[k]; b[k] = b[p]; b[p] = t;
            double d = b[k][k];
            if (!(Math.abs(d) > 0) || Double.isInfinite(d)) return null;
            for (int j = 0; j < 2 * n; j++) b[k][j] = (1 / d) * b[k][j];
            for (int i = 0; i < n; i++) if (i != k) {
                double f = b[i][k];
                for (int j = 0; j < 2 * n; j++) b[i][j] -= f * b[k][j];
            }
        }
        double[][] r = new double[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = b[i][n + j];
        return r;
    }
    public static Value MInv(Value A) {
        double[][] r = inv(mat(A));
        return new RecordValue(new UniqueString[] { UniqueString.of("ok"), UniqueString.of("inv") },
            new Value[] { r == null ? BoolValue.ValFalse : BoolValue.ValTrue, r == null ? new TupleValue(new Value[0]) : out(r) }, false);
    }
    public static Value EigSym(Value A) {
        double[][] a = mat(A); int n = a.length;
        for (int it = 0; it < 12; it++) for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            double apq = a[p][q];
            if (!(Math.abs(apq) > 1e-300)) continue;
            double th = (a[q][q] - a[p][p]) / (2 * apq);
            double t = 1 / (Math.abs(th) + Math.sqrt(th * th + 1)); if (th < 0) t = -t;
            double c = 1 / Math.sqrt(t * t + 1), s = t * c;
            for (int i = 0; i < n; i++) { double x = a[i][p], y = a[i][q]; a[i][p] = c * x - s * y; a[i][q] = s * x + c * y; }
            for (int j = 0; j < n; j++) { double x = a[p][j], y = a[q][j]; a[p][j] = c * x - s * y; a[q][j] = s * x + c * y; }
        }
        double[] v = new double[n];
        for (int i = 0; i < n; i++) v[i] = a[i][i];
        java.util.Arrays.sort(v);
        double[] r = new double[n];
        for (int i = 0; i < n; i++) r[i] = v[n - 1 - i];
        return out(r);
    }
    static boolean close(double[] u, double[] v, double rel, double abs) {
        if (u.length != v.length) return false;
        double m = 0;
        for (double x : u) m = Math.max(m, Math.abs(x));
        for (double x : v) m = Math.max(m, Math.abs(x));
        for (int i = 0; i < u.length; i++) {
            if (Double.isNaN(u[i]) || Double.isInfinite(u[i]) || Double.isNaN(v[i]) || Double.isInfinite(v[i])) return false;
            if (!(Math.abs(u[i] - v[i]) <= abs + rel * m)) return false;
        }
        return true;
    }
    public static Value VClose(Value u, Value v, Value rel, Value abs) { return F64.b(close(vec(u), vec(v), F64.d(rel), F64.d(abs))); }
    public static Value MClose(Value A, Value B, Value rel, Value abs) {
        double[][] a = mat(A), b = mat(B);
        if (a.length != b.length) return F64.b(false);
        for (int i = 0; i < a.length; i++) if (a[i].length != b[i].length) return F64.b(false);
        int m = a.length == 0 ? 0 : a[0].length;
        for (int j = 0; j < m; j++) {
            double[] u = new double[a.length], v = new double[a.length];
            for (int i = 0; i < a.length; i++) { u[i] = a[i][j]; v[i] = b[i][j]; }
            if (!close(u, v, F64.d(rel), F64.d(abs))) return F64.b(false);
        }
        return F64.b(true);
    }
    public static Value MNear(Value A, Value B, Value rel, Value abs) {
        double[][] a = mat(A), b = mat(B);
        if (a.length != b.length) return F64.b(false);
        for (int i = 0; i < a.length; i++) {
            if (a[i].length != b[i].length) return F64.b(false);
            for (int j = 0; j < a[i].length; j++) if (!F64.near(a[i][j], b[i][j], F64.d(rel), F64.d(abs))) return F64.b(false);
        }
        return F64.b(true);
    }
}
