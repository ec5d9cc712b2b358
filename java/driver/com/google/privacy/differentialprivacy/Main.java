package com.google.privacy.differentialprivacy;

import java.io.BufferedReader;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Optional;

/** Runs simulated programs: one JSON line in, one out. */
public final class Main {
  private Main() {}

  static String text(double d) {
    return Double.toString(d);
  }

  static double num(Object o) {
    String s = (String) o;
    switch (s) {
      case "nan": return Double.NaN;
      case "inf": return Double.POSITIVE_INFINITY;
      case "-inf": return Double.NEGATIVE_INFINITY;
      default: return Double.parseDouble(s);
    }
  }

  static long whole(Object o) {
    return Long.parseLong((String) o);
  }

  static int small(Object o) {
    return Integer.parseInt((String) o);
  }

  private static Noise mechanism(String kind) {
    switch (kind) {
      case "l": return new LaplaceNoise();
      case "g": return new GaussianNoise();
      case "d": return new DiscreteLaplaceNoise();
      case "z": return new ZeroNoise();
      default: throw new IllegalArgumentException("harness: noise " + kind);
    }
  }

  /** An aggregator behind one interface. */
  private abstract static class Agg {
    abstract void add(Object v, long n);

    void addAll(List<Object> vs) {
      for (Object v : vs) {
        add(v, 1);
      }
    }

    abstract byte[] enc();

    abstract void merge(byte[] b);

    abstract List<Object> res(Map<String, Object> op);

    ConfidenceInterval ci(double alpha, Map<String, Object> op) {
      throw new IllegalArgumentException("harness: no interval");
    }
  }

  private static List<Double> doubles(List<Object> vs) {
    List<Double> r = new ArrayList<>();
    for (Object v : vs) {
      r.add(num(v));
    }
    return r;
  }

  private static Agg make(String type, Map<String, Object> o) {
    Object noise = o.get("noise");
    boolean raw = o.containsKey("raw");
    Noise n = noise == null ? null : raw ? mechanism((String) noise)
        : new PlannedNoise(mechanism((String) noise));
    switch (type) {
      case "count": {
        Count.Params.Builder b = Count.builder();
        if (n != null) b.noise(n);
        if (o.containsKey("eps")) b.epsilon(num(o.get("eps")));
        if (o.containsKey("delta")) b.delta(num(o.get("delta")));
        if (o.containsKey("l0")) b.maxPartitionsContributed(small(o.get("l0")));
        Count a = b.build();
        return new Agg() {
          @Override void add(Object v, long k) {
            if (k == 1) {
              a.increment();
            } else {
              a.incrementBy(k);
            }
          }

          @Override byte[] enc() {
            return a.getSerializableSummary();
          }

          @Override void merge(byte[] x) {
            a.mergeWith(x);
          }

          @Override List<Object> res(Map<String, Object> op) {
            if ("thr".equals(op.get("how"))) {
              Optional<Long> r = a.computeThresholdedResult(num(op.get("arg")));
              return List.of(r.isPresent() ? r.get() : "nil");
            }
            return List.of(a.computeResult());
          }

          @Override ConfidenceInterval ci(double alpha, Map<String, Object> op) {
            return a.computeConfidenceInterval(alpha);
          }
        };
      }
      case "sumf": {
        BoundedSum.Params.Builder b = BoundedSum.builder();
        if (n != null) b.noise(n);
        if (o.containsKey("eps")) b.epsilon(num(o.get("eps")));
        if (o.containsKey("delta")) b.delta(num(o.get("delta")));
        if (o.containsKey("l0")) b.maxPartitionsContributed(small(o.get("l0")));
        if (o.containsKey("lo")) b.lower(num(o.get("lo")));
        if (o.containsKey("hi")) b.upper(num(o.get("hi")));
        BoundedSum a = b.build();
        return new Agg() {
          @Override void add(Object v, long k) {
            for (long i = 0; i < k; i++) {
              a.addEntry(num(v));
            }
          }

          @Override void addAll(List<Object> vs) {
            a.addEntries(doubles(vs));
          }

          @Override byte[] enc() {
            return a.getSerializableSummary();
          }

          @Override void merge(byte[] x) {
            a.mergeWith(x);
          }

          @Override List<Object> res(Map<String, Object> op) {
            return List.of(text(a.computeResult()));
          }

          @Override ConfidenceInterval ci(double alpha, Map<String, Object> op) {
            return a.computeConfidenceInterval(alpha);
          }
        };
      }
      case "sumi": {
        LongBoundedSum.Params.Builder b = LongBoundedSum.builder();
        if (n != null) b.noise(n);
        if (o.containsKey("eps")) b.epsilon(num(o.get("eps")));
        if (o.containsKey("delta")) b.delta(num(o.get("delta")));
        if (o.containsKey("l0")) b.maxPartitionsContributed(small(o.get("l0")));
        if (o.containsKey("lo")) b.lower(whole(o.get("lo")));
        if (o.containsKey("hi")) b.upper(whole(o.get("hi")));
        LongBoundedSum a = b.build();
        return new Agg() {
          @Override void add(Object v, long k) {
            for (long i = 0; i < k; i++) {
              a.addEntry(whole(v));
            }
          }

          @Override void addAll(List<Object> vs) {
            List<Long> l = new ArrayList<>();
            for (Object v : vs) {
              l.add(whole(v));
            }
            a.addEntries(l);
          }

          @Override byte[] enc() {
            return a.getSerializableSummary();
          }

          @Override void merge(byte[] x) {
            a.mergeWith(x);
          }

          @Override List<Object> res(Map<String, Object> op) {
            return List.of(a.computeResult());
          }

          @Override ConfidenceInterval ci(double alpha, Map<String, Object> op) {
            return a.computeConfidenceInterval(alpha);
          }
        };
      }
      case "mean": {
        BoundedMean.Params.Builder b = BoundedMean.builder();
        if (n != null) b.noise(n);
        if (o.containsKey("eps")) b.epsilon(num(o.get("eps")));
        if (o.containsKey("delta")) b.delta(num(o.get("delta")));
        if (o.containsKey("l0")) b.maxPartitionsContributed(small(o.get("l0")));
        if (o.containsKey("mc")) b.maxContributionsPerPartition(small(o.get("mc")));
        if (o.containsKey("lo")) b.lower(num(o.get("lo")));
        if (o.containsKey("hi")) b.upper(num(o.get("hi")));
        BoundedMean a = b.build();
        return new Agg() {
          @Override void add(Object v, long k) {
            for (long i = 0; i < k; i++) {
              a.addEntry(num(v));
            }
          }

          @Override void addAll(List<Object> vs) {
            a.addEntries(doubles(vs));
          }

          @Override byte[] enc() {
            return a.getSerializableSummary();
          }

          @Override void merge(byte[] x) {
            a.mergeWith(x);
          }

          @Override List<Object> res(Map<String, Object> op) {
            return List.of(text(a.computeResult()));
          }

          @Override ConfidenceInterval ci(double alpha, Map<String, Object> op) {
            return a.computeConfidenceInterval(alpha);
          }
        };
      }
      case "var": {
        BoundedVariance.Params.Builder b = BoundedVariance.builder();
        if (n != null) b.noise(n);
        if (o.containsKey("eps")) b.epsilon(num(o.get("eps")));
        if (o.containsKey("delta")) b.delta(num(o.get("delta")));
        if (o.containsKey("l0")) b.maxPartitionsContributed(small(o.get("l0")));
        if (o.containsKey("mc")) b.maxContributionsPerPartition(small(o.get("mc")));
        if (o.containsKey("lo")) b.lower(num(o.get("lo")));
        if (o.containsKey("hi")) b.upper(num(o.get("hi")));
        BoundedVariance a = b.build();
        return new Agg() {
          @Override void add(Object v, long k) {
            for (long i = 0; i < k; i++) {
              a.addEntry(num(v));
            }
          }

          @Override void addAll(List<Object> vs) {
            a.addEntries(doubles(vs));
          }

          @Override byte[] enc() {
            return a.getSerializableSummary();
          }

          @Override void merge(byte[] x) {
            a.mergeWith(x);
          }

          @Override List<Object> res(Map<String, Object> op) {
            return List.of(text(a.computeResult()));
          }
        };
      }
      case "quant": {
        BoundedQuantiles.Params.Builder b = BoundedQuantiles.builder();
        if (n != null) b.noise(n);
        if (o.containsKey("eps")) b.epsilon(num(o.get("eps")));
        if (o.containsKey("delta")) b.delta(num(o.get("delta")));
        if (o.containsKey("l0")) b.maxPartitionsContributed(small(o.get("l0")));
        if (o.containsKey("mc")) b.maxContributionsPerPartition(small(o.get("mc")));
        if (o.containsKey("lo")) b.lower(num(o.get("lo")));
        if (o.containsKey("hi")) b.upper(num(o.get("hi")));
        if (o.containsKey("h")) b.treeHeight(small(o.get("h")));
        if (o.containsKey("b")) b.branchingFactor(small(o.get("b")));
        BoundedQuantiles a = b.build();
        return new Agg() {
          @Override void add(Object v, long k) {
            for (long i = 0; i < k; i++) {
              a.addEntry(num(v));
            }
          }

          @Override void addAll(List<Object> vs) {
            a.addEntries(doubles(vs));
          }

          @Override byte[] enc() {
            return a.getSerializableSummary();
          }

          @Override void merge(byte[] x) {
            a.mergeWith(x);
          }

          @Override List<Object> res(Map<String, Object> op) {
            return List.of(text(a.computeResult(num(op.get("arg")))));
          }

          @Override ConfidenceInterval ci(double alpha, Map<String, Object> op) {
            return a.computeConfidenceInterval(num(op.get("rank")), alpha);
          }
        };
      }
      case "approx": {
        ApproximateBounds.Params.Builder b = ApproximateBounds.builder();
        if (o.containsKey("eps")) b.epsilon(num(o.get("eps")));
        if (o.containsKey("mc")) b.maxContributions(small(o.get("mc")));
        if (o.containsKey("input")) {
          b.inputType(ApproximateBounds.Params.InputType.valueOf((String) o.get("input")));
        }
        ApproximateBounds a = b.build();
        return new Agg() {
          @Override void add(Object v, long k) {
            for (long i = 0; i < k; i++) {
              a.addEntry(num(v));
            }
          }

          @Override void addAll(List<Object> vs) {
            a.addEntries(doubles(vs));
          }

          @Override byte[] enc() {
            return a.getSerializableSummary();
          }

          @Override void merge(byte[] x) {
            a.mergeWith(x);
          }

          @Override List<Object> res(Map<String, Object> op) {
            ApproximateBounds.Result r = a.computeResult();
            return List.of(text(r.lowerBound()), text(r.upperBound()));
          }
        };
      }
      case "sel": {
        PreAggSelectPartition.Params.Builder b = PreAggSelectPartition.builder();
        if (o.containsKey("eps")) b.epsilon(num(o.get("eps")));
        if (o.containsKey("delta")) b.delta(num(o.get("delta")));
        if (o.containsKey("l0")) b.maxPartitionsContributed(small(o.get("l0")));
        if (o.containsKey("pre")) b.preThreshold(small(o.get("pre")));
        PreAggSelectPartition a = b.build();
        return new Agg() {
          @Override void add(Object v, long k) {
            if (k == 1) {
              a.increment();
            } else {
              a.incrementBy(k);
            }
          }

          @Override byte[] enc() {
            return a.getSerializableSummary();
          }

          @Override void merge(byte[] x) {
            a.mergeWith(x);
          }

          @Override List<Object> res(Map<String, Object> op) {
            return List.of(a.shouldKeepPartition());
          }
        };
      }
      default:
        throw new IllegalArgumentException("harness: type " + type);
    }
  }

  private static byte[] hex(String s) {
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++) {
      b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    }
    return b;
  }

  /** The outermost fields of a message. */
  private static List<byte[]> fields(byte[] b) {
    List<byte[]> r = new ArrayList<>();
    int i = 0;
    while (i < b.length) {
      int start = i;
      int wire = b[i] & 7;
      i = varint(b, i);
      if (wire == 0) {
        i = varint(b, i);
      } else if (wire == 1) {
        i += 8;
      } else if (wire == 5) {
        i += 4;
      } else {
        long n = 0;
        int end = varint(b, i);
        for (int k = end - 1; k >= i; k--) {
          n = n << 7 | b[k] & 127;
        }
        i = end + (int) n;
      }
      r.add(java.util.Arrays.copyOfRange(b, start, i));
    }
    return r;
  }

  private static int varint(byte[] b, int i) {
    while (b[i] < 0) {
      i++;
    }
    return i + 1;
  }

  private static byte[] join(List<byte[]> fs) {
    java.io.ByteArrayOutputStream o = new java.io.ByteArrayOutputStream();
    for (byte[] f : fs) {
      o.write(f, 0, f.length);
    }
    return o.toByteArray();
  }

  @SuppressWarnings("unchecked")
  private static Map<String, Object> step(
      Map<String, Object> op, Map<Object, Agg> at, Map<Object, byte[]> slots) {
    Map<String, Object> rep = new LinkedHashMap<>();
    World.calls = new ArrayList<>();
    World.asked.clear();
    World.plan = op.containsKey("noise") ? (Map<String, Object>) op.get("noise") : Map.of();
    World.planned = 0;
    long before = World.draws;
    if (op.containsKey("seed")) {
      World.state = whole(op.get("seed"));
    }
    if (op.containsKey("faults")) {
      Map<String, Object> f = new HashMap<>();
      for (Map.Entry<String, Object> e :
          ((Map<String, Object>) op.get("faults")).entrySet()) {
        f.put(Long.toString(before + Long.parseLong(e.getKey())), e.getValue());
      }
      World.faults = f;
    }
    if (op.containsKey("unif")) {
      for (Object u : (List<Object>) op.get("unif")) {
        World.uniform(num(u));
      }
    }
    World.constant = op.containsKey("always") ? (Double) num(op.get("always")) : null;
    Object id = op.get("id");
    try {
      switch ((String) op.get("op")) {
        case "new":
          at.put(id, make((String) op.get("type"), (Map<String, Object>) op.get("opt")));
          break;
        case "add":
          at.get(id).add(op.get("v"), op.containsKey("n") ? whole(op.get("n")) : 1);
          break;
        case "adds":
          at.get(id).addAll((List<Object>) op.get("vs"));
          break;
        case "enc": {
          byte[] b = at.get(id).enc();
          slots.put(op.get("slot"), b);
          rep.put("len", b.length);
          break;
        }
        case "merge": {
          byte[] b = op.containsKey("hex") ? hex((String) op.get("hex"))
              : slots.get(op.get("slot")).clone();
          if (op.containsKey("drop")) {
            List<byte[]> f = fields(b);
            if (!f.isEmpty()) {
              f.remove(small(op.get("drop")) % f.size());
            }
            b = join(f);
          }
          if (op.containsKey("swap")) {
            List<byte[]> f = fields(b);
            List<byte[]> g = fields(slots.get(op.get("with")));
            int k = small(op.get("swap"));
            if (!f.isEmpty() && !g.isEmpty()) {
              f.set(k % f.size(), g.get(k % g.size()));
            }
            b = join(f);
          }
          if (op.containsKey("flip")) {
            int k = small(op.get("flip"));
            if (b.length > 0) {
              b[k / 8 % b.length] ^= 1 << k % 8;
            }
          }
          if (op.containsKey("cut")) {
            b = java.util.Arrays.copyOf(b, (int) (b.length * num(op.get("cut"))));
          }
          if (op.containsKey("tail")) {
            byte[] t = hex((String) op.get("tail"));
            int n = b.length;
            b = java.util.Arrays.copyOf(b, n + t.length);
            System.arraycopy(t, 0, b, n, t.length);
          }
          at.get(id).merge(b);
          break;
        }
        case "res":
          rep.put("val", at.get(id).res(op));
          break;
        case "ci": {
          ConfidenceInterval c = at.get(id).ci(num(op.get("arg")), op);
          rep.put("val", List.of(text(c.lowerBound()), text(c.upperBound())));
          break;
        }
        case "hard":
          rep.put("val", List.of(PreAggSelectPartition.getHardThreshold(
              num(op.get("eps")), num(op.get("delta")), small(op.get("l0")))));
          break;
        case "free":
          at.remove(id);
          break;
        case "law":
          rep.putAll(Law.run(op));
          break;
        default:
          rep.put("harness", "operation " + op.get("op"));
      }
    } catch (RuntimeException | StackOverflowError | OutOfMemoryError | AssertionError e) {
      if (e instanceof IllegalArgumentException && ("" + e.getMessage()).startsWith("harness")) {
        rep.put("harness", e.getMessage());
      }
      rep.put("err", e.getClass().getSimpleName() + ": " + e.getMessage());
    }
    if (!World.calls.isEmpty()) {
      rep.put("calls", World.calls);
    }
    World.script.clear();
    World.constant = null;
    World.faults = Map.of();
    if (World.draws != before) {
      rep.put("draws", World.draws - before);
    }
    return rep;
  }

  @SuppressWarnings("unchecked")
  public static void main(String[] args) throws Exception {
    World.install();
    PrintStream out = new PrintStream(System.out, false, StandardCharsets.UTF_8);
    BufferedReader in =
        new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
    String line;
    while ((line = in.readLine()) != null) {
      Map<String, Object> rep = new LinkedHashMap<>();
      try {
        Map<String, Object> req = (Map<String, Object>) Json.parse(line);
        World.reset(req.containsKey("seed") ? whole(req.get("seed")) : 1);
        Map<Object, Agg> at = new HashMap<>();
        Map<Object, byte[]> slots = new HashMap<>();
        List<Object> reps = new ArrayList<>();
        for (Object op : (List<Object>) req.get("ops")) {
          Map<String, Object> r = step((Map<String, Object>) op, at, slots);
          if (r.containsKey("harness")) {
            rep.put("harness", r.get("harness") + " " + r.get("err"));
          }
          reps.add(r);
        }
        rep.put("reps", reps);
        rep.put("faults", World.injected);
      } catch (RuntimeException e) {
        java.io.StringWriter w = new java.io.StringWriter();
        e.printStackTrace(new java.io.PrintWriter(w));
        rep.put("harness", w.toString());
      }
      StringBuilder b = new StringBuilder();
      Json.write(b, rep);
      out.println(b);
      out.flush();
    }
  }
}
