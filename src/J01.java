package dev.brunsli.wrapper;

import java.io.IOException;
import java.io.PrintStream;
import java.nio.ByteBuffer;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.Arrays;
import java.util.Random;
import java.util.TreeMap;
import java.util.concurrent.atomic.AtomicInteger;

/** Monitor of the Java wrapper: J01 LIB DUMPDIR N SEED OUT THREADS. */
public class J01 {
  static PrintStream out;
  static final TreeMap<String, Long> events = new TreeMap<>();

  static synchronized void ev(String k) { events.merge(k, 1L, Long::sum); }
  static synchronized void fail(int i, String key, String detail) { out.println("V\t" + i + "\t" + key + "\t" + detail.replace('\n', ' ')); out.flush(); }
  static synchronized void step(int i, String s) { out.println("S\t" + i + "\t" + s); out.flush(); }

  static ByteBuffer direct(byte[] b) { ByteBuffer d = ByteBuffer.allocateDirect(b.length); d.put(b); return d; }

  interface Op { byte[] run() throws IOException; }

  /** Result, or null if the codec reported failure with its exception. */
  static byte[] call(int i, String what, Op op) {
    try {
      byte[] r = op.run();
      if (r == null) fail(i, what + "-returns-null", "");
      return r;
    } catch (IOException e) {
      return null;
    } catch (Throwable t) {
      fail(i, what + "-throws", t.toString());
      return null;
    }
  }

  /** All the ways to pass the same bytes. */
  static void all(int i, boolean enc, byte[] in, boolean ok, byte[] want, byte[] roundTrip, Random r) {
    String w = enc ? "encode" : "decode";
    byte[] copy = in.clone();
    for (int form = 0; form < 5; form++) {
      String what = w + "-form" + form;
      final int f = form;
      final ByteBuffer buf;
      ByteBuffer big = null;
      if (form == 0) {
        buf = null;
      } else if (form == 1) {
        buf = direct(in);
      } else if (form == 2) {
        buf = direct(in); buf.position(0);
      } else if (form == 3) {
        buf = direct(in).asReadOnlyBuffer();
      } else {
        int pre = 1 + r.nextInt(40), post = r.nextInt(40);
        big = ByteBuffer.allocateDirect(pre + in.length + post);
        for (int k = 0; k < big.capacity(); k++) big.put(k, (byte) 0x5A);
        big.position(pre); big.put(in); big.position(pre); big.limit(pre + in.length);
        buf = big.slice();
      }
      int pos = buf == null ? 0 : buf.position(), lim = buf == null ? 0 : buf.limit();
      byte[] res = call(i, what, () -> enc ? (f == 0 ? Codec.encode(in) : Codec.encode(buf)) : (f == 0 ? Codec.decode(in) : Codec.decode(buf)));
      ev(what + (res != null ? "-ok" : "-refused"));
      if ((res != null) != ok) { fail(i, w + "-verdict-differs", "form " + form + " library " + ok); continue; }
      if (!Arrays.equals(in, copy)) fail(i, w + "-modifies-input-array", "form " + form);
      if (buf != null) {
        if (buf.position() != pos || buf.limit() != lim) fail(i, w + "-moves-buffer", "form " + form);
        for (int k = 0; k < in.length; k++) if (buf.get(k) != in[k]) { fail(i, w + "-modifies-buffer", "form " + form + " at " + k); break; }
      }
      if (res != null && want != null && !Arrays.equals(res, want)) fail(i, w + "-output-differs", "form " + form);
      if (res != null && roundTrip != null) {
        final byte[] b = res;
        byte[] back = call(i, "decode-own", () -> Codec.decode(b));
        if (back == null || !Arrays.equals(back, roundTrip)) fail(i, "round-trip-differs", "form " + form);
        ev("round-trips");
      }
    }
    if (in.length > 0) {
      // a buffer that is not direct is refused as such, in all its forms
      ByteBuffer[] heap = {ByteBuffer.wrap(in), ByteBuffer.wrap(in).asReadOnlyBuffer(), ByteBuffer.wrap(in).slice(), ByteBuffer.wrap(in, in.length / 2, in.length - in.length / 2)};
      for (int k = 0; k < heap.length; k++) {
        try {
          if (enc) Codec.encode(heap[k]); else Codec.decode(heap[k]);
          fail(i, w + "-accepts-heap-buffer", "form " + k);
        } catch (IllegalArgumentException e) {
          ev("heap-buffer-refused");
        } catch (IOException e) {
          fail(i, w + "-heap-buffer-wrong-exception", "form " + k + " " + e);
        } catch (Throwable e) {
          fail(i, w + "-heap-buffer-throws", "form " + k + " " + e);
        }
      }
    }
  }

  static void one(Path d, int i, long seed) throws Exception {
    Random r = new Random(seed * 1000003L + i);
    String[] info = new String(Files.readAllBytes(d.resolve(i + ".info"))).split(" ");
    boolean enc = info[0].equals("1"), hok = info[2].equals("1");
    byte[] jpg = Files.readAllBytes(d.resolve(i + ".jpg"));
    byte[] brn = Files.readAllBytes(d.resolve(i + ".in.brn"));
    byte[] hostile = Files.readAllBytes(d.resolve(i + ".hostile.brn"));
    step(i, "encode");
    all(i, true, jpg, enc, null, jpg, r);
    step(i, "decode");
    all(i, false, brn, true, jpg, null, r);
    step(i, "hostile");
    all(i, false, hostile, hok, hok ? Files.readAllBytes(d.resolve(i + ".hostile.jpg")) : null, null, r);
    step(i, "native");
    // the native functions see a heap buffer only if called directly
    if (CodecJNI.nativeDecode(ByteBuffer.wrap(brn)) != null || CodecJNI.nativeEncode(ByteBuffer.wrap(jpg)) != null) fail(i, "native-accepts-heap-buffer", "");
    all(i, r.nextBoolean(), new byte[0], false, null, null, r);
    // one part of the stream, and not more, is read
    byte[] half = Arrays.copyOf(brn, r.nextInt(brn.length));
    all(i, false, half, false, null, null, r);
    step(i, "done");
  }

  public static void main(String[] a) throws Exception {
    out = new PrintStream(a[4]);
    System.load(a[0]);
    Path d = Paths.get(a[1]);
    int n = Integer.parseInt(a[2]), threads = Integer.parseInt(a[5]);
    long seed = Long.parseLong(a[3]);
    AtomicInteger next = new AtomicInteger(), inside = new AtomicInteger();
    Thread[] t = new Thread[threads];
    for (int k = 0; k < threads; k++) {
      t[k] = new Thread(() -> {
        while (true) {
          int i = next.getAndIncrement();
          if (i >= n) return;
          if (!Files.exists(d.resolve(i + ".info"))) continue;
          ev("overlap-" + inside.incrementAndGet());
          try { one(d, i, seed); } catch (Throwable e) { fail(i, "monitor-exception", e.toString()); }
          inside.decrementAndGet();
          ev("cases");
        }
      });
      t[k].start();
    }
    for (Thread x : t) x.join();
    for (String k : events.keySet()) out.println("E\t" + k + "\t" + events.get(k));
    out.println("D");
    out.close();
  }
}
