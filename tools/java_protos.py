"""Writes Java classes for messages, in the style of the protobuf generator.

Usage: java_protos.py DESCRIPTORS OUT_DIR FILE.proto...
The runtime library of protobuf is not installed for Java; the classes written
here hold and serialize the kinds of fields that the HTTP bridge uses.
"""
import os
import sys

from google.protobuf import descriptor_pb2

F = descriptor_pb2.FieldDescriptorProto


def camel(name, first_upper):
  out = ''.join(p[:1].upper() + p[1:] for p in name.split('_'))
  return out if first_upper else out[:1].lower() + out[1:]


def main():
  fds = descriptor_pb2.FileDescriptorSet.FromString(open(sys.argv[1], 'rb').read())
  java = {}  # full name -> Java name
  todo = []
  for f in fds.file:
    pkg = f.options.java_package or f.package
    for m in f.message_type:
      java['.%s.%s' % (f.package, m.name)] = pkg + '.' + m.name
    for e in f.enum_type:
      java['.%s.%s' % (f.package, e.name)] = pkg + '.' + e.name
    if f.name in sys.argv[3:]:
      todo.append((f, pkg))
  for f, pkg in todo:
    d = os.path.join(sys.argv[2], *pkg.split('.'))
    os.makedirs(d, exist_ok=True)
    for e in f.enum_type:
      write(os.path.join(d, e.name + '.java'), enum(pkg, e))
    for m in f.message_type:
      write(os.path.join(d, m.name + '.java'), message(pkg, m, java))


def write(path, text):
  with open(path, 'w') as out:
    out.write(text)


def enum(pkg, e):
  o = ['package %s;' % pkg, 'public enum %s {' % e.name]
  o += ['  %s(%d),' % (v.name, v.number) for v in e.value]
  o.append('  UNRECOGNIZED(-1);')
  o += ['  public static final int %s_VALUE = %d;' % (v.name, v.number) for v in e.value]
  o.append('''  private final int value;
  %(n)s(int value) { this.value = value; }
  public final int getNumber() {
    if (this == UNRECOGNIZED) throw new IllegalArgumentException("unknown enum value");
    return value;
  }
  public static %(n)s forNumber(int value) {
    for (%(n)s v : values()) if (v != UNRECOGNIZED && v.value == value) return v;
    return null;
  }
}''' % {'n': e.name})
  return '\n'.join(o) + '\n'


def message(pkg, m, java):
  o = ['package %s;' % pkg, 'import com.google.protobuf.*;', 'import java.util.*;',
       'public final class %s implements MessageLite {' % m.name]
  b = ['  public static final class Builder implements MessageLite.Builder {', '    private %s m = new %s();' % (m.name, m.name)]
  ser, par, eq = [], [], []
  for f in m.field:
    kinds = {F.TYPE_STRING: ('String', '""'), F.TYPE_INT32: ('int', '0'), F.TYPE_INT64: ('long', '0L'), F.TYPE_BOOL: ('boolean', 'false'),
             F.TYPE_ENUM: (java.get(f.type_name), None), F.TYPE_MESSAGE: (java.get(f.type_name), None)}
    if f.type not in kinds or kinds[f.type][0] is None or f.type_name == '.google.protobuf.Any':
      continue
    t, zero = kinds[f.type]
    n, N = camel(f.name, False), camel(f.name, True)
    is_msg, is_enum = f.type == F.TYPE_MESSAGE, f.type == F.TYPE_ENUM
    boxed = {'int': 'Integer', 'long': 'Long', 'boolean': 'Boolean'}.get(t, t)
    if is_enum:
      zero = '0'
    field_t = 'int' if is_enum else t
    tag = f.number << 3 | (0 if f.type in (F.TYPE_INT32, F.TYPE_INT64, F.TYPE_BOOL, F.TYPE_ENUM) else 2)
    put = {F.TYPE_STRING: 'o.putString(%s)', F.TYPE_MESSAGE: 'o.putBytes(%s.toByteArray())', F.TYPE_BOOL: 'o.putVarint(%s ? 1 : 0)'}.get(
        f.type, 'o.putVarint(%s)')
    get = {F.TYPE_STRING: 'i.getString()', F.TYPE_MESSAGE: '%s.parseFrom(i.getBytes())' % t, F.TYPE_BOOL: 'i.getVarint() != 0',
           F.TYPE_INT64: 'i.getVarint()'}.get(f.type, '(int) i.getVarint()')
    if f.label == F.LABEL_REPEATED:
      o.append('  private List<%s> %s_ = new ArrayList<>();' % (boxed, n))
      o.append('  public List<%s> get%sList() { return Collections.unmodifiableList(%s_); }' % (boxed, N, n))
      o.append('  public int get%sCount() { return %s_.size(); }' % (N, n))
      o.append('  public %s get%s(int index) { return %s_.get(index); }' % (t, N, n))
      b.append('    public Builder add%s(%s v) { m.%s_.add(Objects.requireNonNull(v)); return this; }' % (N, t, n))
      if is_msg:
        b.append('    public Builder add%s(%s.Builder v) { return add%s(v.build()); }' % (N, t, N))
      b.append('    public Builder addAll%s(Iterable<? extends %s> vs) { for (%s v : vs) add%s(v); return this; }' % (N, boxed, t, N))
      b.append('    public Builder clear%s() { m.%s_.clear(); return this; }' % (N, n))
      b.append('    public List<%s> get%sList() { return m.get%sList(); }' % (boxed, N, N))
      b.append('    public int get%sCount() { return m.get%sCount(); }' % (N, N))
      ser.append('    for (%s v : %s_) { o.putVarint(%d); %s; }' % (t, n, tag, put % 'v'))
      par.append('        case %d: m.%s_.add(%s); break;' % (tag, n, get))
      eq.append('%s_.equals(x.%s_)' % (n, n))
      b.append('    private void copy%s(%s from) { m.%s_ = new ArrayList<>(from.%s_); }' % (N, m.name, n, n))
    else:
      o.append('  private %s %s_%s;' % (field_t, n, '' if is_msg else ' = ' + zero))
      if is_enum:
        o.append('  public int get%sValue() { return %s_; }' % (N, n))
        o.append('  public %s get%s() { %s v = %s.forNumber(%s_); return v == null ? %s.UNRECOGNIZED : v; }' % (t, N, t, t, n, t))
        b.append('    public Builder set%s(%s v) { m.%s_ = v.getNumber(); return this; }' % (N, t, n))
        b.append('    public Builder set%sValue(int v) { m.%s_ = v; return this; }' % (N, n))
      elif is_msg:
        o.append('  public boolean has%s() { return %s_ != null; }' % (N, n))
        o.append('  public %s get%s() { return %s_ == null ? %s.getDefaultInstance() : %s_; }' % (t, N, n, t, n))
        b.append('    public Builder set%s(%s v) { m.%s_ = Objects.requireNonNull(v); return this; }' % (N, t, n))
        b.append('    public Builder set%s(%s.Builder v) { return set%s(v.build()); }' % (N, t, N))
      else:
        o.append('  public %s get%s() { return %s_; }' % (t, N, n))
        v = 'Objects.requireNonNull(v)' if f.type == F.TYPE_STRING else 'v'
        b.append('    public Builder set%s(%s v) { m.%s_ = %s; return this; }' % (N, t, n, v))
      b.append('    public %s get%s() { return m.get%s(); }' % (t, N, N))
      b.append('    public Builder clear%s() { m.%s_ = %s; return this; }' % (N, n, 'null' if is_msg else zero))
      unset = 'null' if is_msg else zero
      cond = '!%s_.isEmpty()' % n if f.type == F.TYPE_STRING else '%s_ != %s' % (n, unset)
      ser.append('    if (%s) { o.putVarint(%d); %s; }' % (cond, tag, put % (n + '_')))
      par.append('        case %d: m.%s_ = %s; break;' % (tag, n, get))
      eq.append('Objects.equals(%s_, x.%s_)' % (n, n))
      b.append('    private void copy%s(%s from) { m.%s_ = from.%s_; }' % (N, m.name, n, n))
  copies = ' '.join(x.split('void ')[1].split('(')[0] + '(from);' for x in b if ' void copy' in x)
  b.append('''    public Builder mergeFrom(%(n)s from) { %(copies)s return this; }
    public %(n)s build() { return newBuilder(m).m; }
    public %(n)s buildPartial() { return build(); }
  }''' % {'n': m.name, 'copies': copies})
  o += b
  o.append('''  private static final %(n)s DEFAULT = new %(n)s();
  public static %(n)s getDefaultInstance() { return DEFAULT; }
  public %(n)s getDefaultInstanceForType() { return DEFAULT; }
  public static Builder newBuilder() { return new Builder(); }
  public static Builder newBuilder(%(n)s from) { return new Builder().mergeFrom(from); }
  public Builder toBuilder() { return newBuilder(this); }
  public Builder newBuilderForType() { return newBuilder(); }
  public int getSerializedSize() { return toByteArray().length; }
  public byte[] toByteArray() {
    Wire.Out o = new Wire.Out();
%(ser)s
    return o.bytes();
  }
  public static %(n)s parseFrom(byte[] data, ExtensionRegistryLite registry) throws InvalidProtocolBufferException { return parseFrom(data); }
  public static %(n)s parseFrom(byte[] data) throws InvalidProtocolBufferException {
    %(n)s m = new %(n)s();
    Wire.In i = new Wire.In(data);
    while (i.more()) {
      int tag = (int) i.getVarint();
      switch (tag) {
%(par)s
        default: i.skip(tag);
      }
    }
    return m;
  }
  @Override public boolean equals(Object other) {
    if (!(other instanceof %(n)s)) return false;
    %(n)s x = (%(n)s) other;
    return %(eq)s;
  }
  @Override public int hashCode() { return Arrays.hashCode(toByteArray()); }
}''' % {'n': m.name, 'ser': '\n'.join(ser), 'par': '\n'.join(par), 'eq': ' && '.join(eq) or 'true'})
  return '\n'.join(o) + '\n'


main()
