package com.google.privacy.differentialprivacy;

import com.google.privacy.differentialprivacy.proto.SummaryOuterClass.MechanismType;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** A mechanism whose outcomes are planned and whose calls are recorded. */
final class PlannedNoise implements Noise {
  private final Noise real;

  PlannedNoise(Noise real) {
    this.real = real;
  }

  private Map<String, Object> record(
      String m, Object x, int l0, Object linf, double eps, Object delta) {
    Map<String, Object> c = new LinkedHashMap<>();
    c.put("m", m);
    c.put("x", x instanceof Long ? x : Main.text((Double) x));
    c.put("l0", l0);
    c.put("linf", linf instanceof Long ? linf : Main.text((Double) linf));
    c.put("eps", Main.text(eps));
    c.put("delta", delta == null ? null : Main.text((Double) delta));
    World.calls.add(c);
    return c;
  }

  /** Intervals and quantiles: once for what they start from, whatever the level. */
  private void asked(String m, Object x, int l0, Object linf, double eps, Object delta) {
    Map<String, Object> c = record(m, x, l0, linf, eps, delta);
    World.calls.remove(World.calls.size() - 1);
    if (World.asked.add(c.toString())) {
      World.calls.add(c);
    }
  }

  @SuppressWarnings("unchecked")
  private double planned(double x, Map<String, Object> c) {
    int k = World.planned++;
    Map<String, Object> fail = (Map<String, Object>) World.plan.get("fail");
    if (fail != null && fail.containsKey(Integer.toString(k))) {
      c.put("err", "fail");
      World.injected.merge("noise-fails", 1, Integer::sum);
      throw new IllegalStateException("simulated: the mechanism failed");
    }
    List<Object> vals = (List<Object>) World.plan.get("vals");
    double v = vals == null || vals.isEmpty() ? 0 : Main.num(vals.get(k % vals.size()));
    return "abs".equals(World.plan.get("mode")) ? v : x + v;
  }

  @Override
  public double addNoise(double x, int l0, double linf, double epsilon, double delta) {
    Map<String, Object> c = record("f", x, l0, linf, epsilon, delta);
    double out = "real".equals(World.plan.get("mode"))
        ? real.addNoise(x, l0, linf, epsilon, delta) : planned(x, c);
    c.put("out", Main.text(out));
    return out;
  }

  @Override
  public long addNoise(long x, int l0, long linf, double epsilon, double delta) {
    Map<String, Object> c = record("i", x, l0, linf, epsilon, delta);
    long out;
    if ("real".equals(World.plan.get("mode"))) {
      out = real.addNoise(x, l0, linf, epsilon, delta);
    } else if ("abs".equals(World.plan.get("mode"))) {
      out = Math.round(planned(x, c));
    } else {
      out = x + Math.round(planned(0, c));
    }
    c.put("out", out);
    return out;
  }

  @Override
  public ConfidenceInterval computeConfidenceInterval(
      double x, int l0, double linf, double epsilon, Double delta, double alpha) {
    asked("cf", x, l0, linf, epsilon, delta);
    return real.computeConfidenceInterval(x, l0, linf, epsilon, delta, alpha);
  }

  @Override
  public ConfidenceInterval computeConfidenceInterval(
      long x, int l0, long linf, double epsilon, Double delta, double alpha) {
    asked("ci", x, l0, linf, epsilon, delta);
    return real.computeConfidenceInterval(x, l0, linf, epsilon, delta, alpha);
  }

  @Override
  public MechanismType getMechanismType() {
    return real.getMechanismType();
  }

  @Override
  public double computeQuantile(
      double rank, double x, int l0, double linf, double epsilon, Double delta) {
    asked("q", x, l0, linf, epsilon, delta);
    return real.computeQuantile(rank, x, l0, linf, epsilon, delta);
  }
}
