package com.google.protobuf;

/** Stands in for the registry, which is always empty here. */
public class ExtensionRegistryLite {
  private static final ExtensionRegistryLite EMPTY = new ExtensionRegistryLite();

  public static ExtensionRegistryLite getEmptyRegistry() {
    return EMPTY;
  }

  public static ExtensionRegistryLite getGeneratedRegistry() {
    return EMPTY;
  }

  public static ExtensionRegistryLite newInstance() {
    return new ExtensionRegistryLite();
  }
}
