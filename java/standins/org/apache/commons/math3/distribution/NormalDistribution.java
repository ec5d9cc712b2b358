package org.apache.commons.math3.distribution;

import org.apache.commons.math3.random.RandomGenerator;
import org.apache.commons.math3.special.Erf;

/** Stand-in for the normal distribution of commons-math. */
public class NormalDistribution {
  private final double mean;
  private final double sd;

  public NormalDistribution() {
    this(0, 1);
  }

  public NormalDistribution(double mean, double sd) {
    this.mean = mean;
    this.sd = sd;
  }

  public NormalDistribution(double mean, double sd, double accuracy) {
    this(mean, sd);
  }

  public NormalDistribution(RandomGenerator rng, double mean, double sd) {
    this(mean, sd);
  }

  public double cumulativeProbability(double x) {
    double dev = x - mean;
    if (Math.abs(dev) > 40 * sd) {
      return dev < 0 ? 0 : 1;
    }
    return .5 * Erf.erfc(-dev / (sd * Math.sqrt(2)));
  }

  public double inverseCumulativeProbability(double p) {
    return mean + sd * Math.sqrt(2) * Erf.erfInv(2 * p - 1);
  }

  public double density(double x) {
    double z = (x - mean) / sd;
    return Math.exp(-.5 * z * z) / (sd * Math.sqrt(2 * Math.PI));
  }
}
