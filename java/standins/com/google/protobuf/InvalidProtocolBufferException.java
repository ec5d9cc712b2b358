package com.google.protobuf;

/** Stand-in. */
public class InvalidProtocolBufferException extends java.io.IOException {
  public InvalidProtocolBufferException(String m) {
    super(m);
  }
}
