package com.google.protobuf;

/** The part of the protobuf runtime that the generated stand-ins implement. */
public interface MessageLite {
  byte[] toByteArray();
  int getSerializedSize();
  Builder toBuilder();
  Builder newBuilderForType();

  /** Builds a message. */
  interface Builder {
    MessageLite build();
    MessageLite buildPartial();
  }
}
