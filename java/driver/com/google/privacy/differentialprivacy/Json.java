package com.google.privacy.differentialprivacy;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Just enough JSON. */
final class Json {
  private final String s;
  private int i;

  private Json(String s) {
    this.s = s;
  }

  static Object parse(String s) {
    return new Json(s).value();
  }

  private void space() {
    while (i < s.length() && s.charAt(i) <= ' ') {
      i++;
    }
  }

  private Object value() {
    space();
    char c = s.charAt(i);
    if (c == '{') {
      Map<String, Object> m = new LinkedHashMap<>();
      i++;
      for (space(); s.charAt(i) != '}'; space()) {
        String k = (String) value();
        space();
        i++;
        m.put(k, value());
        space();
        if (s.charAt(i) == ',') {
          i++;
        }
      }
      i++;
      return m;
    }
    if (c == '[') {
      List<Object> l = new ArrayList<>();
      i++;
      for (space(); s.charAt(i) != ']'; space()) {
        l.add(value());
        space();
        if (s.charAt(i) == ',') {
          i++;
        }
      }
      i++;
      return l;
    }
    if (c == '"') {
      StringBuilder b = new StringBuilder();
      for (i++; s.charAt(i) != '"'; i++) {
        if (s.charAt(i) == '\\') {
          i++;
        }
        b.append(s.charAt(i));
      }
      i++;
      return b.toString();
    }
    int from = i;
    while (i < s.length() && ",]} \n".indexOf(s.charAt(i)) < 0) {
      i++;
    }
    String w = s.substring(from, i);
    switch (w) {
      case "true": return true;
      case "false": return false;
      case "null": return null;
      default: return w;   // numbers stay text
    }
  }

  static void write(StringBuilder b, Object o) {
    if (o == null || o instanceof Boolean || o instanceof Integer || o instanceof Long) {
      b.append(o);
    } else if (o instanceof Map) {
      b.append('{');
      boolean first = true;
      for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
        b.append(first ? "" : ",");
        first = false;
        write(b, e.getKey());
        b.append(':');
        write(b, e.getValue());
      }
      b.append('}');
    } else if (o instanceof List) {
      b.append('[');
      boolean first = true;
      for (Object x : (List<?>) o) {
        b.append(first ? "" : ",");
        first = false;
        write(b, x);
      }
      b.append(']');
    } else {
      b.append('"');
      for (char c : o.toString().toCharArray()) {
        if (c == '"' || c == '\\') {
          b.append('\\').append(c);
        } else if (c < ' ' || c > '~') {
          b.append(String.format("\\u%04x", (int) c));
        } else {
          b.append(c);
        }
      }
      b.append('"');
    }
  }
}
