package com.google.protobuf;

import java.io.IOException;

/** Thrown for bytes that are no message. */
public class InvalidProtocolBufferException extends IOException {
  public InvalidProtocolBufferException(String message) {
    super(message);
  }
}
