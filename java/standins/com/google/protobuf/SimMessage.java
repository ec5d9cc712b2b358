package com.google.protobuf;

import java.io.ByteArrayOutputStream;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.function.Supplier;

/** Stand-in for generated messages: fields by number, the wire format of protobuf. */
public abstract class SimMessage {
  /** One field of a message type. */
  public static class Field {
    final int num;
    final char kind;       // o(ptional), r(epeated), m(ap)
    final String type;     // int, double, float, bool, string, bytes, enum, msg
    final Supplier<SimMessage> make;
    final java.util.function.IntFunction<Object> enumOf;
    final String key;
    final int oneof;

    public Field(int num, char kind, String type, Supplier<SimMessage> make,
        java.util.function.IntFunction<Object> enumOf, String key, int oneof) {
      this.num = num;
      this.kind = kind;
      this.type = type;
      this.make = make;
      this.enumOf = enumOf;
      this.key = key;
      this.oneof = oneof;
    }
  }

  /** An enum with a number. */
  public interface Numbered {
    int getNumber();
  }

  protected final TreeMap<Integer, Object> f = new TreeMap<>();
  protected final ByteArrayOutputStream unknown = new ByteArrayOutputStream();

  protected abstract Field[] fields();

  protected Object get(int n, Object otherwise) {
    return f.getOrDefault(n, otherwise);
  }

  @SuppressWarnings("unchecked")
  protected <T> List<T> list(int n) {
    return (List<T>) f.getOrDefault(n, new ArrayList<T>());
  }

  @SuppressWarnings("unchecked")
  protected <K, V> Map<K, V> map(int n) {
    return (Map<K, V>) f.getOrDefault(n, new LinkedHashMap<K, V>());
  }

  protected void put(int n, Object v) {
    if (v == null) {
      throw new NullPointerException();
    }
    for (Field d : fields()) {
      if (d.num == n && d.oneof >= 0) {
        for (Field e : fields()) {
          if (e.oneof == d.oneof) {
            f.remove(e.num);
          }
        }
      }
    }
    f.put(n, v);
  }

  protected List<Object> mutable(int n) {
    List<Object> l = new ArrayList<>(this.<Object>list(n));
    f.put(n, l);
    return l;
  }

  protected Map<Object, Object> mutableMap(int n) {
    Map<Object, Object> m = new LinkedHashMap<>(this.<Object, Object>map(n));
    f.put(n, m);
    return m;
  }

  protected void copy(SimMessage o) {
    f.putAll(o.f);
    unknown.writeBytes(o.unknown.toByteArray());
  }

  public boolean isInitialized() {
    return true;
  }

  public int getSerializedSize() {
    return toByteArray().length;
  }

  @Override
  public boolean equals(Object o) {
    return o != null && o.getClass() == getClass()
        && java.util.Arrays.equals(toByteArray(), ((SimMessage) o).toByteArray());
  }

  @Override
  public int hashCode() {
    return java.util.Arrays.hashCode(toByteArray());
  }

  private static void varint(ByteArrayOutputStream out, long v) {
    while ((v & ~0x7fL) != 0) {
      out.write((int) (v & 0x7f) | 0x80);
      v >>>= 7;
    }
    out.write((int) v);
  }

  private static int wire(String type) {
    switch (type) {
      case "double": return 1;
      case "float": return 5;
      case "string": case "bytes": case "msg": return 2;
      default: return 0;
    }
  }

  private static void value(ByteArrayOutputStream out, int num, String type, Object v) {
    varint(out, (long) num << 3 | wire(type));
    switch (type) {
      case "double": fixed(out, Double.doubleToRawLongBits((Double) v), 8); break;
      case "float": fixed(out, Float.floatToRawIntBits((Float) v), 4); break;
      case "bool": out.write((Boolean) v ? 1 : 0); break;
      case "enum": varint(out, ((Numbered) v).getNumber()); break;
      case "string": bytes(out, ((String) v).getBytes(StandardCharsets.UTF_8)); break;
      case "bytes": bytes(out, (byte[]) v); break;
      case "msg": bytes(out, ((SimMessage) v).toByteArray()); break;
      default: varint(out, ((Number) v).longValue());
    }
  }

  private static void fixed(ByteArrayOutputStream out, long v, int n) {
    for (int i = 0; i < n; i++) {
      out.write((int) (v >>> 8 * i));
    }
  }

  private static void bytes(ByteArrayOutputStream out, byte[] b) {
    varint(out, b.length);
    out.writeBytes(b);
  }

  public byte[] toByteArray() {
    ByteArrayOutputStream out = new ByteArrayOutputStream();
    for (Field d : fields()) {
      if (!f.containsKey(d.num)) {
        continue;
      }
      if (d.kind == 'r') {
        for (Object v : list(d.num)) {
          value(out, d.num, d.type, v);
        }
      } else if (d.kind == 'm') {
        for (Map.Entry<?, ?> e : map(d.num).entrySet()) {
          ByteArrayOutputStream pair = new ByteArrayOutputStream();
          value(pair, 1, d.key, e.getKey());
          value(pair, 2, d.type, e.getValue());
          varint(out, (long) d.num << 3 | 2);
          bytes(out, pair.toByteArray());
        }
      } else {
        value(out, d.num, d.type, f.get(d.num));
      }
    }
    out.writeBytes(unknown.toByteArray());
    return out.toByteArray();
  }

  /** Reads bytes. */
  private static class In {
    final byte[] b;
    int at;
    final int end;

    In(byte[] b, int at, int end) {
      this.b = b;
      this.at = at;
      this.end = end;
    }

    int next() throws InvalidProtocolBufferException {
      if (at >= end) {
        throw new InvalidProtocolBufferException("truncated");
      }
      return b[at++] & 0xff;
    }

    long varint() throws InvalidProtocolBufferException {
      long v = 0;
      for (int s = 0; s < 70; s += 7) {
        int x = next();
        v |= s < 64 ? (long) (x & 0x7f) << s : 0;
        if (x < 128) {
          return v;
        }
      }
      throw new InvalidProtocolBufferException("malformed varint");
    }

    long fixed(int n) throws InvalidProtocolBufferException {
      long v = 0;
      for (int i = 0; i < n; i++) {
        v |= (long) next() << 8 * i;
      }
      return v;
    }

    In sub() throws InvalidProtocolBufferException {
      long n = varint();
      if (n < 0 || n > end - at) {
        throw new InvalidProtocolBufferException("truncated");
      }
      In r = new In(b, at, at + (int) n);
      at += (int) n;
      return r;
    }

    byte[] rest() {
      byte[] r = java.util.Arrays.copyOfRange(b, at, end);
      at = end;
      return r;
    }

    void skip(int num, int w) throws InvalidProtocolBufferException {
      switch (w) {
        case 0: varint(); return;
        case 1: fixed(8); return;
        case 2: sub(); return;
        case 5: fixed(4); return;
        case 3:
          while (true) {
            long tag = varint();
            if ((tag & 7) == 4) {
              if (tag >>> 3 != num) {
                throw new InvalidProtocolBufferException("bad end group");
              }
              return;
            }
            skip((int) (tag >>> 3), (int) (tag & 7));
          }
        default: throw new InvalidProtocolBufferException("invalid wire type");
      }
    }
  }

  private Object read(In in, String type, Field d) throws InvalidProtocolBufferException {
    switch (type) {
      case "double": return Double.longBitsToDouble(in.fixed(8));
      case "float": return Float.intBitsToFloat((int) in.fixed(4));
      case "bool": return in.varint() != 0;
      case "enum": return d.enumOf.apply((int) in.varint());
      case "string": return new String(in.sub().rest(), StandardCharsets.UTF_8);
      case "bytes": return in.sub().rest();
      case "int": return (int) in.varint();
      case "long": return in.varint();
      default:
        SimMessage m = d.make.get();
        if (d.kind == 'o' && f.containsKey(d.num)) {
          m.copy((SimMessage) f.get(d.num));
        }
        m.parse(in.sub());
        return m;
    }
  }

  public void mergeBytes(byte[] b) throws InvalidProtocolBufferException {
    parse(new In(b, 0, b.length));
  }

  private void parse(In in) throws InvalidProtocolBufferException {
    while (in.at < in.end) {
      int start = in.at;
      long tag = in.varint();
      int num = (int) (tag >>> 3);
      int w = (int) (tag & 7);
      if (num == 0 || tag >>> 32 != 0) {
        throw new InvalidProtocolBufferException("invalid tag");
      }
      Field d = null;
      for (Field x : fields()) {
        if (x.num == num) {
          d = x;
        }
      }
      if (d != null && d.kind == 'm' && w == 2) {
        In pair = in.sub();
        Object k = d.key.equals("int") ? (Object) 0 : d.key.equals("long") ? (Object) 0L : "";
        Object v = d.type.equals("int") ? (Object) 0 : d.type.equals("long") ? (Object) 0L
            : d.type.equals("double") ? (Object) 0.0 : null;
        while (pair.at < pair.end) {
          long t = pair.varint();
          if (t == (1 << 3 | wire(d.key))) {
            k = read(pair, d.key, d);
          } else if (t == (2 << 3 | wire(d.type))) {
            v = read(pair, d.type, d);
          } else {
            pair.skip((int) (t >>> 3), (int) (t & 7));
          }
        }
        mutableMap(num).put(k, v);
        continue;
      }
      if (d != null && d.kind == 'r' && w == 2 && wire(d.type) != 2) {   // packed
        In all = in.sub();
        List<Object> l = mutable(num);
        while (all.at < all.end) {
          Object v = read(all, d.type, d);
          if (v != null) {
            l.add(v);
          }
        }
        continue;
      }
      if (d != null && d.kind != 'm' && w == wire(d.type)) {
        Object v = read(in, d.type, d);
        if (v == null) {   // an unknown number of an enum
          unknown.write(in.b, start, in.at - start);
        } else if (d.kind == 'r') {
          mutable(num).add(v);
        } else {
          put(num, v);
        }
        continue;
      }
      in.skip(num, w);
      unknown.write(in.b, start, in.at - start);
    }
  }
}
