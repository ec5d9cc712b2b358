package com.google.privacy.differentialprivacy;

import java.security.Provider;
import java.security.ProviderException;
import java.security.SecureRandomSpi;
import java.security.Security;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** The simulated environment: entropy, its faults, and what was observed. */
public final class World {
  static long state;
  static long draws;
  static final ArrayDeque<byte[]> script = new ArrayDeque<>();
  static Map<String, Object> faults = Map.of();
  static final Map<String, Integer> injected = new LinkedHashMap<>();

  /** What every nextDouble() is, where that is set. */
  static Double constant;

  static Map<String, Object> plan = Map.of();
  static int planned;
  static List<Object> calls = new ArrayList<>();
  static final java.util.Set<String> asked = new java.util.HashSet<>();

  private World() {}

  /** The security provider that new SecureRandom() finds first. */
  public static final class SimProvider extends Provider {
    public SimProvider() {
      super("Sim", "1", "simulated entropy");
      put("SecureRandom.Sim", Spi.class.getName());
    }
  }

  /** Simulated entropy. */
  public static final class Spi extends SecureRandomSpi {
    public Spi() {}

    @Override
    protected void engineSetSeed(byte[] seed) {}

    @Override
    protected void engineNextBytes(byte[] b) {
      World.bytes(b);
    }

    @Override
    protected byte[] engineGenerateSeed(int n) {
      return new byte[n];
    }
  }

  static void install() {
    Security.insertProviderAt(new SimProvider(), 1);
  }

  static void reset(long seed) {
    state = seed;
    draws = 0;
    script.clear();
    faults = Map.of();
    injected.clear();
    constant = null;
    plan = Map.of();
    planned = 0;
    calls = new ArrayList<>();
  }

  private static long next() {
    long z = state += 0x9e3779b97f4a7c15L;
    z = (z ^ z >>> 30) * 0xbf58476d1ce4e5b9L;
    z = (z ^ z >>> 27) * 0x94d049bb133111ebL;
    return z ^ z >>> 31;
  }

  static void bytes(byte[] b) {
    long k = draws++;
    Object fault = faults.get(Long.toString(k));
    if (fault != null) {
      injected.merge((String) fault, 1, Integer::sum);
      if (fault.equals("entropy-fails")) {
        throw new ProviderException("simulated: no entropy");
      }
      java.util.Arrays.fill(b, (byte) (fault.equals("zeros") ? 0 : -1));
      return;
    }
    if (script.isEmpty() && constant != null) {
      uniform(constant);
    }
    if (!script.isEmpty()) {
      byte[] s = script.poll();
      System.arraycopy(s, 0, b, 0, Math.min(b.length, s.length));
      return;
    }
    long r = 0;
    for (int i = 0; i < b.length; i++) {
      if (i % 8 == 0) {
        r = next();
      }
      b[i] = (byte) (r >>> 8 * (i % 8));
    }
  }

  /** The next nextDouble() gives the largest multiple of 2^-53 that is at most u. */
  static void uniform(double u) {
    long m = (long) Math.floor(u * (1L << 53));
    m = Math.max(0, Math.min(m, (1L << 53) - 1));
    script.add(word((int) (m >>> 27) << 6));
    script.add(word((int) (m & (1 << 27) - 1) << 5));
  }

  private static byte[] word(int w) {
    return new byte[] {(byte) (w >>> 24), (byte) (w >>> 16), (byte) (w >>> 8), (byte) w};
  }
}
