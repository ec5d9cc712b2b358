package com.google.protobuf;

/** Stand-in. */
public class ExtensionRegistryLite {
  public static ExtensionRegistryLite newInstance() {
    return new ExtensionRegistryLite();
  }

  public static ExtensionRegistryLite getEmptyRegistry() {
    return new ExtensionRegistryLite();
  }
}
