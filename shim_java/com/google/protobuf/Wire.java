package com.google.protobuf;

import java.io.ByteArrayOutputStream;
import java.nio.charset.StandardCharsets;
import java.util.Arrays;

/** The wire format, as far as the stand-ins need it. */
public final class Wire {
  private Wire() {}

  /** Writes fields. */
  public static final class Out {
    private final ByteArrayOutputStream out = new ByteArrayOutputStream();

    public void putVarint(long v) {
      while ((v & ~0x7fL) != 0) {
        out.write((int) (v & 0x7f) | 0x80);
        v >>>= 7;
      }
      out.write((int) v);
    }

    public void putBytes(byte[] b) {
      putVarint(b.length);
      out.write(b, 0, b.length);
    }

    public void putString(String s) {
      putBytes(s.getBytes(StandardCharsets.UTF_8));
    }

    public byte[] bytes() {
      return out.toByteArray();
    }
  }

  /** Reads fields. */
  public static final class In {
    private final byte[] data;
    private int at = 0;

    public In(byte[] data) {
      this.data = data;
    }

    public boolean more() {
      return at < data.length;
    }

    public long getVarint() throws InvalidProtocolBufferException {
      long v = 0;
      for (int shift = 0; shift < 64; shift += 7) {
        if (at >= data.length) {
          throw new InvalidProtocolBufferException("truncated");
        }
        byte b = data[at++];
        v |= (long) (b & 0x7f) << shift;
        if (b >= 0) {
          return v;
        }
      }
      throw new InvalidProtocolBufferException("malformed varint");
    }

    public byte[] getBytes() throws InvalidProtocolBufferException {
      long n = getVarint();
      if (n < 0 || n > data.length - at) {
        throw new InvalidProtocolBufferException("truncated");
      }
      byte[] b = Arrays.copyOfRange(data, at, at + (int) n);
      at += (int) n;
      return b;
    }

    public String getString() throws InvalidProtocolBufferException {
      return new String(getBytes(), StandardCharsets.UTF_8);
    }

    public void skip(int tag) throws InvalidProtocolBufferException {
      switch (tag & 7) {
        case 0:
          getVarint();
          break;
        case 1:
          at += 8;
          break;
        case 2:
          getBytes();
          break;
        case 5:
          at += 4;
          break;
        default:
          throw new InvalidProtocolBufferException("bad tag");
      }
    }
  }
}
