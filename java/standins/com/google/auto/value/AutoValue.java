package com.google.auto.value;

import java.lang.annotation.ElementType;
import java.lang.annotation.Retention;
import java.lang.annotation.RetentionPolicy;
import java.lang.annotation.Target;

/** Stand-in for AutoValue; processor/Values.java implements it. */
@Retention(RetentionPolicy.CLASS)
@Target(ElementType.TYPE)
public @interface AutoValue {
  @Retention(RetentionPolicy.CLASS)
  @Target(ElementType.TYPE)
  @interface Builder {}

  @Retention(RetentionPolicy.CLASS)
  @Target(ElementType.TYPE)
  @interface CopyAnnotations {}
}
