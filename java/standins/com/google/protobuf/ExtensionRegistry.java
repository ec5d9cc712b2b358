package com.google.protobuf;

/** Stand-in. */
public class ExtensionRegistry extends ExtensionRegistryLite {
  public static ExtensionRegistry newInstance() {
    return new ExtensionRegistry();
  }

  public static ExtensionRegistry getEmptyRegistry() {
    return new ExtensionRegistry();
  }
}
