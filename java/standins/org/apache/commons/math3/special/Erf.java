package org.apache.commons.math3.special;

/** Stand-in for the error function of commons-math. */
public class Erf {
  private Erf() {}

  private static double series(double x) {   // erf for small x
    double term = x;
    double sum = x;
    for (int n = 1; n < 200; n++) {
      term *= -x * x / n;
      double t = term / (2 * n + 1);
      sum += t;
      if (Math.abs(t) < 1e-18 * Math.abs(sum)) {
        break;
      }
    }
    return 2 / Math.sqrt(Math.PI) * sum;
  }

  private static double fraction(double x) {   // erfc for x > 1
    double tiny = 1e-300;
    double f = x;
    double c = x;
    double d = 0;
    for (int n = 1; n < 5000; n++) {
      double a = n / 2.0;
      d = x + a * d;
      d = d == 0 ? tiny : d;
      c = x + a / c;
      c = c == 0 ? tiny : c;
      d = 1 / d;
      double delta = c * d;
      f *= delta;
      if (Math.abs(delta - 1) < 1e-16) {
        break;
      }
    }
    return Math.exp(-x * x) / Math.sqrt(Math.PI) / f;
  }

  public static double erf(double x) {
    if (Math.abs(x) > 40) {
      return x > 0 ? 1 : -1;
    }
    return Math.abs(x) < 1.5 ? series(x) : x > 0 ? 1 - fraction(x) : fraction(-x) - 1;
  }

  public static double erfc(double x) {
    if (Math.abs(x) > 40) {
      return x > 0 ? 0 : 2;
    }
    return Math.abs(x) < 1.2 ? 1 - series(x) : x > 0 ? fraction(x) : 2 - fraction(-x);
  }

  public static double erf(double a, double b) {
    return a > b ? -erf(b, a) : a < 0 && b > 0 ? erf(b) - erf(a)
        : a >= 0 ? erfc(a) - erfc(b) : erfc(-b) - erfc(-a);
  }

  public static double erfInv(double x) {
    if (Math.abs(x) == 1) {
      return x * Double.POSITIVE_INFINITY;
    }
    if (!(Math.abs(x) < 1)) {
      return Double.NaN;
    }
    if (x == 0) {
      return x;
    }
    double y = 1 - Math.abs(x);
    double w = -Math.log(y * (1 + Math.abs(x)));
    double[] c = w < 5
        ? new double[] {2.81022636e-08, 3.43273939e-07, -3.5233877e-06, -4.39150654e-06,
            0.00021858087, -0.00125372503, -0.00417768164, 0.246640727, 1.50140941}
        : new double[] {-0.000200214257, 0.000100950558, 0.00134934322, -0.00367342844,
            0.00573950773, -0.0076224613, 0.00943887047, 1.00167406, 2.83297682};
    w = w < 5 ? w - 2.5 : Math.sqrt(w) - 3;
    double p = c[0];
    for (int i = 1; i < c.length; i++) {
      p = c[i] + p * w;
    }
    double z = p * Math.abs(x);
    for (int i = 0; i < 12; i++) {
      double err = Math.abs(x) < .5 ? Math.abs(x) - erf(z)
          : Math.log(erfc(z) / y) * erfc(z);
      z += err * Math.sqrt(Math.PI) / 2 * Math.exp(z * z);
    }
    return x > 0 ? z : -z;
  }

  /** Like the original, this loses what 1 - x loses. */
  public static double erfcInv(double x) {
    return erfInv(1 - x);
  }
}
