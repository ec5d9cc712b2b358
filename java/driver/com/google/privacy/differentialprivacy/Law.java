package com.google.privacy.differentialprivacy;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** One value noised many times, with the intervals and quantiles of the mechanism. */
final class Law {
  private Law() {}

  @SuppressWarnings("unchecked")
  static Map<String, Object> run(Map<String, Object> q) {
    Map<String, Object> rep = new LinkedHashMap<>();
    Map<String, Object> errs = new LinkedHashMap<>();
    List<Object> vals = new ArrayList<>();
    rep.put("vals", vals);
    rep.put("errs", errs);
    boolean ints = Boolean.TRUE.equals(q.get("int"));
    String kind = (String) q.get("mech");
    String api = (String) q.get("api");
    double eps = Main.num(q.get("eps"));
    double delta = Main.num(q.get("delta"));
    int l0 = Main.small(q.get("l0"));
    Noise noise = kind.equals("l") ? new LaplaceNoise()
        : kind.equals("g") ? new GaussianNoise() : new DiscreteLaplaceNoise();
    int n = Main.small(q.get("n"));
    try {
      for (int i = 0; i < n; i++) {
        if (ints) {
          long x = Main.whole(q.get("x"));
          long v;
          if (api.equals("l1")) {
            long l1 = Main.whole(q.get("norm"));
            v = kind.equals("l") ? ((LaplaceNoise) noise).addNoise(x, l1, eps, delta)
                : ((DiscreteLaplaceNoise) noise).addNoise(x, l1, eps, delta);
          } else if (api.equals("rho")) {
            v = ((GaussianNoise) noise)
                .addNoiseDefinedByRho(x, Main.num(q.get("norm")), Main.num(q.get("rho")));
          } else {
            v = noise.addNoise(x, l0, Main.whole(q.get("linf")), eps, delta);
          }
          vals.add(Long.toString(v));
        } else {
          double x = Main.num(q.get("x"));
          double v;
          if (api.equals("l1")) {
            v = ((LaplaceNoise) noise).addNoise(x, Main.num(q.get("norm")), eps, delta);
          } else if (api.equals("l2")) {
            v = ((GaussianNoise) noise).addNoise(x, Main.num(q.get("norm")), eps, delta);
          } else if (api.equals("rho")) {
            v = ((GaussianNoise) noise)
                .addNoiseDefinedByRho(x, Main.num(q.get("norm")), Main.num(q.get("rho")));
          } else {
            v = noise.addNoise(x, l0, Main.num(q.get("linf")), eps, delta);
          }
          vals.add(Main.text(v));
        }
      }
    } catch (RuntimeException e) {
      errs.put("noise", e.toString());
    }
    List<Object> cis = new ArrayList<>();
    for (Object a : (List<Object>) q.get("alphas")) {
      try {
        ConfidenceInterval c = ints
            ? noise.computeConfidenceInterval(
                Main.whole(q.get("x")), l0, Main.whole(q.get("linf")), eps, (Double) delta, Main.num(a))
            : noise.computeConfidenceInterval(
                Main.num(q.get("x")), l0, Main.num(q.get("linf")), eps, (Double) delta, Main.num(a));
        cis.add(List.of(Main.text(c.lowerBound()), Main.text(c.upperBound())));
      } catch (RuntimeException e) {
        errs.put("ci" + cis.size(), e.toString());
        cis.add(null);
      }
    }
    rep.put("ci", cis);
    List<Object> qs = new ArrayList<>();
    for (Object r : (List<Object>) q.get("ranks")) {
      try {
        qs.add(Main.text(noise.computeQuantile(Main.num(r), Main.num(q.get("at")), l0,
            Main.num(q.get("linf")), eps, (Double) delta)));
      } catch (RuntimeException e) {
        errs.put("q" + qs.size(), e.toString());
        qs.add(null);
      }
    }
    rep.put("q", qs);
    if (kind.equals("g") && errs.isEmpty()) {
      rep.put("sigma", Main.text(api.equals("rho")
          ? GaussianNoise.getSigmaForRho(Main.num(q.get("norm")), Main.num(q.get("rho")))
          : GaussianNoise.getSigma(
              api.equals("l2") ? Main.num(q.get("norm"))
                  : Noise.getL2Sensitivity(l0, Main.num(q.get("linf"))), eps, delta)));
    }
    List<Object> cdf = new ArrayList<>();
    if (kind.equals("l") && q.containsKey("zs") && errs.isEmpty()) {
      for (Object z : (List<Object>) q.get("zs")) {
        cdf.add(Main.text(LaplaceNoise.cumulativeDensity(
            Main.num(z), 0, Noise.getL1Sensitivity(l0, Main.num(q.get("linf"))), eps)));
      }
      rep.put("cdf", cdf);
    }
    return rep;
  }
}
