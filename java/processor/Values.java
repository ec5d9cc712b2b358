import java.io.Writer;
import java.util.ArrayList;
import java.util.List;
import java.util.Set;
import javax.annotation.processing.AbstractProcessor;
import javax.annotation.processing.RoundEnvironment;
import javax.annotation.processing.SupportedAnnotationTypes;
import javax.lang.model.SourceVersion;
import javax.lang.model.element.Element;
import javax.lang.model.element.ExecutableElement;
import javax.lang.model.element.Modifier;
import javax.lang.model.element.TypeElement;
import javax.lang.model.type.TypeKind;
import javax.lang.model.util.ElementFilter;
import javax.tools.Diagnostic;

/** Writes the AutoValue_ classes of value types, as AutoValue does. */
@SupportedAnnotationTypes("com.google.auto.value.AutoValue")
public class Values extends AbstractProcessor {
  @Override
  public SourceVersion getSupportedSourceVersion() {
    return SourceVersion.latest();
  }

  @Override
  public boolean process(Set<? extends TypeElement> annotations, RoundEnvironment round) {
    for (TypeElement a : annotations) {
      for (Element e : round.getElementsAnnotatedWith(a)) {
        try {
          write((TypeElement) e);
        } catch (Exception x) {
          processingEnv.getMessager().printMessage(Diagnostic.Kind.ERROR, "Values: " + x, e);
        }
      }
    }
    return true;
  }

  private static boolean isAbstract(ExecutableElement m) {
    return m.getModifiers().contains(Modifier.ABSTRACT);
  }

  private static String access(ExecutableElement m) {
    return m.getModifiers().contains(Modifier.PUBLIC)
        ? "public "
        : m.getModifiers().contains(Modifier.PROTECTED) ? "protected " : "";
  }

  private static String boxed(String t) {
    switch (t) {
      case "int": return "Integer";
      case "char": return "Character";
      case "double": case "long": case "float": case "short": case "byte": case "boolean":
        return Character.toUpperCase(t.charAt(0)) + t.substring(1);
      default: return t;
    }
  }

  private void write(TypeElement type) throws Exception {
    String pkg = processingEnv.getElementUtils().getPackageOf(type).getQualifiedName().toString();
    String full = type.getQualifiedName().toString();
    String name = "AutoValue_" + full.substring(pkg.length() + 1).replace('.', '_');
    TypeElement builder = null;
    for (TypeElement t : ElementFilter.typesIn(type.getEnclosedElements())) {
      if (t.getAnnotationMirrors().stream().anyMatch(m -> m.getAnnotationType().toString()
          .equals("com.google.auto.value.AutoValue.Builder"))) {
        builder = t;
      }
    }
    List<String> names = new ArrayList<>();
    List<String> types = new ArrayList<>();
    List<ExecutableElement> props = new ArrayList<>();
    ExecutableElement toBuilder = null;
    for (ExecutableElement m : ElementFilter.methodsIn(
        processingEnv.getElementUtils().getAllMembers(type))) {
      if (!isAbstract(m) || !m.getParameters().isEmpty()
          || m.getReturnType().getKind() == TypeKind.VOID) {
        continue;
      }
      if (builder != null && m.getReturnType().toString().equals(builder.asType().toString())) {
        toBuilder = m;
        continue;
      }
      names.add(m.getSimpleName().toString());
      types.add(m.getReturnType().toString());
      props.add(m);
    }
    StringBuilder s = new StringBuilder();
    s.append("package ").append(pkg).append(";\nfinal class ").append(name).append(" extends ")
        .append(full).append(" {\n");
    StringBuilder args = new StringBuilder();
    for (int i = 0; i < names.size(); i++) {
      s.append("private final ").append(types.get(i)).append(" ").append(names.get(i)).append(";\n");
      args.append(i == 0 ? "" : ", ").append(types.get(i)).append(" ").append(names.get(i));
    }
    s.append(builder != null ? "private " : "").append(name).append("(").append(args).append(") {\n");
    for (int i = 0; i < names.size(); i++) {
      boolean nullable = props.get(i).getAnnotationMirrors().toString().contains("Nullable");
      if (!props.get(i).getReturnType().getKind().isPrimitive() && !nullable) {
        s.append("if (").append(names.get(i)).append(" == null) throw new NullPointerException(\"Null ")
            .append(names.get(i)).append("\");\n");
      }
      s.append("this.").append(names.get(i)).append(" = ").append(names.get(i)).append(";\n");
    }
    s.append("}\n");
    for (int i = 0; i < names.size(); i++) {
      s.append("@Override ").append(access(props.get(i))).append(types.get(i)).append(" ")
          .append(names.get(i)).append("() { return ").append(names.get(i)).append("; }\n");
    }
    s.append("@Override public boolean equals(Object o) {\nif (!(o instanceof ").append(full)
        .append(")) return false;\n").append(full).append(" that = (").append(full)
        .append(") o;\nreturn true");
    StringBuilder hash = new StringBuilder("@Override public int hashCode() { return java.util.Objects.hash(");
    StringBuilder text = new StringBuilder("@Override public String toString() { return \"" + type.getSimpleName() + "{\"");
    for (int i = 0; i < names.size(); i++) {
      s.append(" && java.util.Objects.equals(this.").append(names.get(i)).append(", that.")
          .append(names.get(i)).append("())");
      hash.append(i == 0 ? "" : ", ").append(names.get(i));
      text.append(" + \"").append(i == 0 ? "" : ", ").append(names.get(i)).append("=\" + ")
          .append(names.get(i));
    }
    s.append(";\n}\n").append(hash).append("); }\n").append(text).append(" + \"}\"; }\n");
    if (toBuilder != null) {
      s.append("@Override ").append(access(toBuilder)).append(builder.asType()).append(" ")
          .append(toBuilder.getSimpleName()).append("() {\nBuilder b = new Builder();\n");
      for (String n : names) {
        s.append("b.").append(n).append(" = ").append(n).append(";\n");
      }
      s.append("return b;\n}\n");
    }
    if (builder != null) {
      s.append("static final class Builder extends ").append(builder.asType()).append(" {\n");
      for (int i = 0; i < names.size(); i++) {
        s.append("private ").append(boxed(types.get(i))).append(" ").append(names.get(i)).append(";\n");
      }
      s.append("Builder() {}\n");
      for (ExecutableElement m : ElementFilter.methodsIn(
          processingEnv.getElementUtils().getAllMembers(builder))) {
        if (!isAbstract(m)) {
          continue;
        }
        s.append("@Override ").append(access(m)).append(m.getReturnType()).append(" ")
            .append(m.getSimpleName());
        if (m.getParameters().size() == 1) {
          String p = m.getSimpleName().toString();
          if (!names.contains(p) && p.startsWith("set")) {
            p = Character.toLowerCase(p.charAt(3)) + p.substring(4);
          }
          if (!names.contains(p)) {
            throw new IllegalArgumentException("no property " + p);
          }
          s.append("(").append(m.getParameters().get(0).asType()).append(" v) {\n");
          int i = names.indexOf(p);
          boolean nullable = props.get(i).getAnnotationMirrors().toString().contains("Nullable");
          if (!m.getParameters().get(0).asType().getKind().isPrimitive() && !nullable) {
            s.append("if (v == null) throw new NullPointerException(\"Null ").append(p).append("\");\n");
          }
          s.append("this.").append(p).append(" = v;\nreturn this;\n}\n");
        } else if (m.getReturnType().toString().equals(type.asType().toString())) {
          s.append("() {\nStringBuilder missing = new StringBuilder();\n");
          StringBuilder call = new StringBuilder();
          for (int i = 0; i < names.size(); i++) {
            boolean nullable = props.get(i).getAnnotationMirrors().toString().contains("Nullable");
            if (!nullable) {
              s.append("if (").append(names.get(i)).append(" == null) missing.append(\" ")
                  .append(names.get(i)).append("\");\n");
            }
            call.append(i == 0 ? "" : ", ").append("this.").append(names.get(i));
          }
          s.append("if (missing.length() > 0) throw new IllegalStateException(")
              .append("\"Missing required properties:\" + missing);\n");
          s.append("return new ").append(name).append("(").append(call).append(");\n}\n");
        } else {   // a getter of the builder
          s.append("() { return ").append(m.getSimpleName()).append("; }\n");
        }
      }
      s.append("}\n");
    }
    s.append("}\n");
    try (Writer w = processingEnv.getFiler().createSourceFile(pkg + "." + name, type).openWriter()) {
      w.write(s.toString());
    }
  }
}
