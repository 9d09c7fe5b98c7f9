package verif;

import com.google.fcp.client.CallFromNativeWrapper;
import com.google.fcp.client.http.HttpClientForNative;
import com.google.fcp.client.http.HttpClientForNativeImpl;
import com.google.fcp.client.http.HttpRequestHandleImpl;
import java.io.ByteArrayInputStream;
import java.io.ByteArrayOutputStream;
import java.io.DataInputStream;
import java.io.DataOutputStream;
import java.io.FileNotFoundException;
import java.io.IOException;
import java.io.InputStream;
import java.io.OutputStream;
import java.lang.reflect.Method;
import java.lang.reflect.Modifier;
import java.net.HttpURLConnection;
import java.net.SocketException;
import java.net.SocketTimeoutException;
import java.net.URL;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.TimeUnit;

/** A scripted network below the Java client. Called by the harness over JNI. */
public final class Fake {
  private Fake() {}

  // Points of a request, at which it can fail or wait. The read and write
  // points are passed more than once.
  static final int CREATE = 1;
  static final int OUT = 2;
  static final int WRITE = 3;
  static final int CONNECT = 4;
  static final int CODE = 5;
  static final int IN = 6;
  static final int READ = 7;

  static final class Script {
    int failPoint;
    int failNth;
    int failKind;
    int gatePoint;
    int gateNth;
    int code;
    String message;
    List<String[]> headers = new ArrayList<>();
    byte[] body;
    int piece;
    boolean statusLine;
    boolean noErrorStream;

    final int[] passed = new int[8];
    boolean waiting;
    boolean reached;
    boolean released;
    boolean done; // the task that ran the request has ended
    boolean failed; // the scripted failure happened
    int created;
    Connection connection;
    final StringBuilder problems = new StringBuilder();

    void problem(String what) {
      synchronized (problems) {
        problems.append(what).append('\n');
      }
    }

    /** Passes a point: waits and fails as scripted. */
    void pass(int point) throws IOException {
      synchronized (Fake.class) {
        int n = passed[point]++;
        if (gatePoint == point && gateNth == n) {
          reached = true;
          waiting = true;
          Fake.class.notifyAll();
          boolean interrupted = false;
          while (!released && !(connection != null && connection.disconnects > 0)) {
            try {
              Fake.class.wait();
            } catch (InterruptedException e) {
              interrupted = true; // sockets do not care
            }
          }
          waiting = false;
          Fake.class.notifyAll();
          if (interrupted) {
            Thread.currentThread().interrupt();
          }
        }
        if (point != CREATE && connection != null && connection.disconnects > 0) {
          throw new SocketException("Socket closed");
        }
        if (failPoint == point && failNth == n) {
          failed = true;
          if (failKind == 1) {
            throw new SocketTimeoutException("scripted timeout");
          }
          throw new IOException("scripted failure");
        }
      }
    }
  }

  /** A connection that follows a script. */
  static final class Connection extends HttpURLConnection {
    final Script s;
    int disconnects = 0;
    int connectTimeoutSet = -1;
    int readTimeoutSet = -1;
    final List<String[]> properties = new ArrayList<>();
    final ByteArrayOutputStream sent = new ByteArrayOutputStream();
    boolean outOpened;
    boolean outClosed;
    boolean inOpened;
    boolean inClosed;
    boolean inEnded;
    boolean answered;

    Connection(URL url, Script s) {
      super(url);
      this.s = s;
    }

    private void setup(String what) {
      if (connected) {
        s.problem(what + " after the connection was made");
      }
    }

    @Override
    public void setRequestMethod(String m) {
      setup("method set");
      method = m; // the base class refuses PATCH
    }

    @Override
    public void addRequestProperty(String k, String v) {
      setup("header added");
      properties.add(new String[] {k, v});
    }

    @Override
    public void setRequestProperty(String k, String v) {
      setup("header set");
      properties.removeIf(p -> p[0].equalsIgnoreCase(k));
      properties.add(new String[] {k, v});
    }

    @Override
    public void setConnectTimeout(int t) {
      connectTimeoutSet = t;
    }

    @Override
    public void setReadTimeout(int t) {
      readTimeoutSet = t;
    }

    private void dial() {
      connected = true;
    }

    @Override
    public void connect() throws IOException {
      if (connected) {
        return;
      }
      s.pass(CONNECT);
      dial();
    }

    @Override
    public OutputStream getOutputStream() throws IOException {
      s.pass(OUT);
      if (!doOutput) {
        s.problem("body sent without saying so");
      }
      dial();
      outOpened = true;
      long fixed = fixedContentLengthLong;
      return new OutputStream() {
        @Override
        public void write(int b) throws IOException {
          write(new byte[] {(byte) b}, 0, 1);
        }

        @Override
        public void write(byte[] b, int off, int len) throws IOException {
          s.pass(WRITE);
          if (outClosed) {
            s.problem("write after close");
          }
          if (fixed >= 0 && sent.size() + len > fixed) {
            throw new IOException("too many bytes written");
          }
          sent.write(b, off, len);
        }

        @Override
        public void close() throws IOException {
          if (outClosed) {
            return;
          }
          outClosed = true;
          if (fixed >= 0 && sent.size() < fixed) {
            throw new IOException("insufficient data written");
          }
        }
      };
    }

    private void answer() throws IOException {
      if (answered) {
        return;
      }
      if (outOpened && !outClosed) {
        s.problem("answer awaited before the body was finished");
      }
      s.pass(CODE);
      dial();
      answered = true;
    }

    @Override
    public int getResponseCode() throws IOException {
      answer();
      return s.code;
    }

    @Override
    public String getResponseMessage() throws IOException {
      answer();
      return s.message;
    }

    @Override
    public Map<String, List<String>> getHeaderFields() {
      try {
        answer();
      } catch (IOException e) {
        return new HashMap<>();
      }
      Map<String, List<String>> out = new LinkedHashMap<>();
      if (s.statusLine) {
        List<String> l = new ArrayList<>();
        l.add("HTTP/1.1 " + s.code + " " + s.message);
        out.put(null, l);
      }
      for (String[] h : s.headers) {
        out.computeIfAbsent(h[0], k -> new ArrayList<>()).add(h[1]);
      }
      return out;
    }

    @Override
    public String getHeaderField(String name) {
      String last = null;
      for (String[] h : s.headers) {
        if (h[0].equalsIgnoreCase(name)) {
          last = h[1];
        }
      }
      return last;
    }

    @Override
    public InputStream getErrorStream() {
      if (!connected || !answered || s.code < 400 || s.noErrorStream) {
        return null;
      }
      return stream();
    }

    @Override
    public InputStream getInputStream() throws IOException {
      answer();
      if (s.code >= 400) {
        throw s.code == 404 || s.code == 410
            ? new FileNotFoundException(url.toString())
            : new IOException("Server returned HTTP response code: " + s.code);
      }
      s.pass(IN);
      return stream();
    }

    private InputStream stream() {
      inOpened = true;
      inEnded = s.body.length == 0;
      return new InputStream() {
        int at = 0;

        @Override
        public int read() throws IOException {
          byte[] b = new byte[1];
          return read(b, 0, 1) < 0 ? -1 : b[0] & 0xff;
        }

        @Override
        public int read(byte[] b, int off, int len) throws IOException {
          if (len == 0) {
            return 0;
          }
          if (inClosed) {
            throw new IOException("stream is closed");
          }
          s.pass(READ);
          if (at >= s.body.length) {
            return -1;
          }
          int n = Math.min(Math.min(len, s.piece), s.body.length - at);
          System.arraycopy(s.body, at, b, off, n);
          at += n;
          inEnded = at >= s.body.length;
          return n;
        }

        @Override
        public void close() {
          inClosed = true;
        }
      };
    }

    @Override
    public void disconnect() {
      synchronized (Fake.class) {
        ++disconnects;
        Fake.class.notifyAll();
      }
    }

    int fixed() {
      return (int) fixedContentLengthLong;
    }

    int chunked() {
      return chunkLength;
    }

    boolean live() {
      return connected;
    }

    @Override
    public boolean usingProxy() {
      return false;
    }
  }

  private static Map<String, Script> scripts = new HashMap<>();
  private static List<Script> order = new ArrayList<>();
  private static ExecutorService threads;
  private static String uncaught = "";

  private static final ThreadLocal<Script> current = new ThreadLocal<>();
  private static int pending = 0; // tasks handed on that have not ended
  private static boolean returned = false;

  /** Hands a task on only once those before it have come to rest. */
  static final class Patient extends AbstractExecutorService {
    private final ExecutorService inner;
    private final boolean patient;

    Patient(ExecutorService inner, boolean patient) {
      this.inner = inner;
      this.patient = patient;
    }

    private static int moving() {
      int n = pending;
      for (Script s : order) {
        if (s.waiting) {
          --n;
        }
      }
      return n;
    }

    @Override
    public void execute(Runnable r) {
      synchronized (Fake.class) {
        long until = System.nanoTime() + 3_000_000_000L;
        while (patient && moving() > 0 && System.nanoTime() < until) {
          try {
            Fake.class.wait(100);
          } catch (InterruptedException e) {
            Thread.currentThread().interrupt();
            break;
          }
        }
        ++pending;
      }
      inner.execute(
          () -> {
            current.remove();
            try {
              r.run();
            } finally {
              synchronized (Fake.class) {
                --pending;
                if (current.get() != null) {
                  current.get().done = true;
                }
                Fake.class.notifyAll();
              }
            }
          });
    }

    @Override
    public void shutdown() {
      inner.shutdown();
    }

    @Override
    public List<Runnable> shutdownNow() {
      return inner.shutdownNow();
    }

    @Override
    public boolean isShutdown() {
      return inner.isShutdown();
    }

    @Override
    public boolean isTerminated() {
      return inner.isTerminated();
    }

    @Override
    public boolean awaitTermination(long t, TimeUnit u) throws InterruptedException {
      return inner.awaitTermination(t, u);
    }
  }

  /** Starts a case and makes its client. */
  public static HttpClientForNative start(
      int pool,
      boolean patient,
      int connectTimeoutMs,
      int readTimeoutMs,
      int requestChunk,
      int responseChunk,
      int gzipBuffer,
      boolean disconnectWhenCancelled,
      boolean acceptEncoding,
      double ratio) {
    synchronized (Fake.class) {
      scripts = new HashMap<>();
      order = new ArrayList<>();
      uncaught = "";
      pending = 0;
      returned = false;
      threads = new Patient(pool == 0 ? Executors.newCachedThreadPool() : Executors.newFixedThreadPool(pool), patient);
    }
    CallFromNativeWrapper wrapper =
        new CallFromNativeWrapper(
            (thread, error) -> {
              synchronized (Fake.class) {
                uncaught += error + "\n";
              }
            });
    ExecutorService executor = threads;
    return new HttpClientForNativeImpl(
        wrapper,
        request ->
            new HttpRequestHandleImpl(
                request,
                wrapper,
                executor,
                uri -> {
                  Script s;
                  synchronized (Fake.class) {
                    s = scripts.get(uri);
                  }
                  if (s == null) {
                    throw new IOException("no such host: " + uri);
                  }
                  synchronized (Fake.class) {
                    s.created++;
                  }
                  current.set(s);
                  s.pass(CREATE);
                  Connection c = new Connection(new URL(uri), s);
                  synchronized (Fake.class) {
                    s.connection = c;
                  }
                  return c;
                },
                connectTimeoutMs,
                readTimeoutMs,
                requestChunk,
                responseChunk,
                gzipBuffer,
                disconnectWhenCancelled,
                acceptEncoding,
                ratio));
  }

  /** Adds the script of a request; they start in this order. */
  public static void script(byte[] data) throws IOException {
    DataInputStream in = new DataInputStream(new ByteArrayInputStream(data));
    Script s = new Script();
    String uri = str(in);
    s.failPoint = in.readInt();
    s.failNth = in.readInt();
    s.failKind = in.readInt();
    s.gatePoint = in.readInt();
    s.gateNth = in.readInt();
    s.code = in.readInt();
    s.message = in.readInt() == 0 ? null : str(in);
    int n = in.readInt();
    for (int i = 0; i < n; ++i) {
      s.headers.add(new String[] {str(in), str(in)});
    }
    s.body = new byte[in.readInt()];
    in.readFully(s.body);
    s.piece = in.readInt();
    s.statusLine = in.readInt() != 0;
    s.noErrorStream = in.readInt() != 0;
    synchronized (Fake.class) {
      scripts.put(uri, s);
      order.add(s);
    }
  }

  private static String str(DataInputStream in) throws IOException {
    byte[] b = new byte[in.readInt()];
    in.readFully(b);
    return new String(b, StandardCharsets.UTF_8);
  }

  /** Waits for a request to stand at its gate, or to have ended. */
  public static boolean awaitGate(int index) throws InterruptedException {
    synchronized (Fake.class) {
      Script s = order.get(index);
      while (!s.reached && !s.done && !returned) {
        Fake.class.wait();
      }
      return s.reached;
    }
  }

  /** Says whether the call that performs requests is under way. */
  public static void performing(boolean now) {
    synchronized (Fake.class) {
      returned = !now;
      Fake.class.notifyAll();
    }
  }

  public static boolean begun(int index) {
    synchronized (Fake.class) {
      return order.get(index).created > 0;
    }
  }

  public static void release(int index) {
    synchronized (Fake.class) {
      order.get(index).released = true;
      Fake.class.notifyAll();
    }
  }

  /** Lets everything end. */
  public static boolean finish() throws InterruptedException {
    synchronized (Fake.class) {
      for (Script s : order) {
        s.released = true;
      }
      Fake.class.notifyAll();
    }
    threads.shutdown();
    return threads.awaitTermination(1, TimeUnit.HOURS);
  }

  public static String uncaught() {
    synchronized (Fake.class) {
      return uncaught;
    }
  }

  /** What the network saw of a request. */
  public static byte[] record(int index) throws IOException {
    ByteArrayOutputStream bytes = new ByteArrayOutputStream();
    DataOutputStream out = new DataOutputStream(bytes);
    synchronized (Fake.class) {
      Script s = order.get(index);
      Connection c = s.connection;
      out.writeInt(s.created);
      put(out, s.problems.toString());
      out.writeInt(s.failed ? 1 : 0);
      out.writeInt(c == null ? 0 : 1);
      if (c != null) {
        put(out, c.getRequestMethod());
        out.writeInt(c.properties.size());
        for (String[] p : c.properties) {
          put(out, p[0]);
          put(out, p[1]);
        }
        out.writeInt(c.getDoInput() ? 1 : 0);
        out.writeInt(c.getDoOutput() ? 1 : 0);
        out.writeInt(c.fixed());
        out.writeInt(c.chunked());
        out.writeInt(c.getUseCaches() ? 1 : 0);
        out.writeInt(c.getInstanceFollowRedirects() ? 1 : 0);
        out.writeInt(c.connectTimeoutSet);
        out.writeInt(c.readTimeoutSet);
        byte[] sent = c.sent.toByteArray();
        out.writeInt(sent.length);
        out.write(sent);
        out.writeInt(c.outOpened ? 1 : 0);
        out.writeInt(c.outClosed ? 1 : 0);
        out.writeInt(c.inOpened ? 1 : 0);
        out.writeInt(c.inClosed ? 1 : 0);
        out.writeInt(c.inEnded ? 1 : 0);
        out.writeInt(c.disconnects);
        out.writeInt(c.answered ? 1 : 0);
        out.writeInt(c.live() ? 1 : 0);
      }
    }
    return bytes.toByteArray();
  }

  private static void put(DataOutputStream out, String s) throws IOException {
    byte[] b = s.getBytes(StandardCharsets.UTF_8);
    out.writeInt(b.length);
    out.write(b);
  }

  /** The native methods of a class, one "name signature" per line. */
  public static String natives(Class<?> c) {
    StringBuilder out = new StringBuilder();
    for (Method m : c.getDeclaredMethods()) {
      if (Modifier.isNative(m.getModifiers())) {
        out.append(m.getName()).append(' ');
        StringBuilder sig = new StringBuilder("(");
        for (Class<?> p : m.getParameterTypes()) {
          sig.append(p.descriptorString());
        }
        out.append(sig).append(')').append(m.getReturnType().descriptorString()).append('\n');
      }
    }
    return out.toString();
  }
}
