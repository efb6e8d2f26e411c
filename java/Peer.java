import org.pngquant.*;
import java.awt.Graphics;
import java.awt.image.*;
import java.io.*;
import java.util.*;

/** Executes commands read from stdin with the Java binding, one line each, and answers with one line each. */
public class Peer {
    /** objects of the C library and blocks of memory currently held by the JNI code */
    static native long[] live();

    static final ArrayList<PngQuant> attrs = new ArrayList<>();
    static final ArrayList<BufferedImage> bufs = new ArrayList<>();
    static final ArrayList<Image> images = new ArrayList<>();
    static final ArrayList<Result> results = new ArrayList<>();

    static int[] rgb(BufferedImage b) {
        return b.getRGB(0, 0, b.getWidth(), b.getHeight(), null, 0, b.getWidth());
    }
    static void put(StringBuilder s, int[] v) {
        for (int x : v) s.append(' ').append(x);
    }
    static String indexed(BufferedImage b) {
        if (b == null) return "null";
        StringBuilder s = new StringBuilder("image ");
        s.append(b.getWidth()).append(' ').append(b.getHeight());
        put(s, rgb(b));
        ColorModel m = b.getColorModel();
        if (!(m instanceof IndexColorModel)) return s + " notindexed";
        int n = ((IndexColorModel) m).getMapSize();
        int[] pal = new int[n];
        ((IndexColorModel) m).getRGBs(pal);
        s.append(' ').append(n);
        put(s, pal);
        put(s, b.getRaster().getPixels(0, 0, b.getWidth(), b.getHeight(), (int[]) null));
        return s.toString();
    }
    static volatile boolean stop;
    static BufferedImage r1(BufferedImage b) { return new PngQuant().getRemapped(b); }
    static BufferedImage r2(Result r, BufferedImage b) throws Exception { return r.getRemapped(new Image(b)); }
    static Result r3(PngQuant q, BufferedImage b) throws Exception { return q.quantize(new Image(new PngQuant(q), b)); }
    static BufferedImage r4(BufferedImage b) throws Exception { Image i = new Image(b); return new Result(new PngQuant(), i).getRemapped(i); }
    static int[] key(BufferedImage b) { return b == null ? null : rgb(b); }
    /** objects that only the binding refers to, while the collector runs all the time */
    static String race(BufferedImage b, int n) throws Exception {
        PngQuant q = new PngQuant();
        Result r = q.quantize(new Image(b));
        int[] first = key(r1(b)), of_r = null;
        stop = false;
        Thread t = new Thread(() -> { while (!stop) { System.gc(); System.runFinalization(); } });
        t.start();
        try {
            for (int k = 0; k < n; k++) {
                if (!Arrays.equals(first, key(r1(b)))) return "one-shot remapping differs in iteration " + k;
                int[] v = key(r2(r, b));
                if (of_r == null) of_r = v;
                if (!Arrays.equals(of_r, v)) return "remapping differs in iteration " + k;
                Result o = r3(q, b);
                if (o == null) return "quantization failed in iteration " + k;
                if (!Arrays.equals(first, key(r4(b)))) return "remapping with a new result differs in iteration " + k;
            }
        } finally {
            stop = true;
            t.join();
        }
        return "same";
    }
    static String nulls(int what, int a) throws Exception {
        PngQuant q = attrs.get(a);
        switch (what) {
            case 0: new PngQuant(null); break;
            case 1: new Image(q, null); break;
            case 2: new Image(null); break;
            case 3: q.quantize(null); break;
            case 4: q.getRemapped((Image) null); break;
            case 5: q.getRemapped((BufferedImage) null); break;
            case 6: new Image(null, new BufferedImage(2, 2, BufferedImage.TYPE_3BYTE_BGR)); break;
            case 7: new Image(null, new BufferedImage(2, 2, BufferedImage.TYPE_INT_RGB)); break;
            default: results.get(0).getRemapped(null);
        }
        return "returned";
    }
    static String exec(String[] t) throws Exception {
        int[] i = new int[t.length];
        for (int k = 1; k < t.length; k++) {
            try { i[k] = Integer.parseInt(t[k]); } catch (NumberFormatException e) { i[k] = 0; }
        }
        switch (t[0]) {
            case "attr": attrs.add(new PngQuant()); return "ok";
            case "copy": attrs.add(new PngQuant(attrs.get(i[1]))); return "ok";
            case "speed": return "" + attrs.get(i[1]).setSpeed(i[2]);
            case "colors": return "" + attrs.get(i[1]).setMaxColors(i[2]);
            case "posterize": return "" + attrs.get(i[1]).setMinPosterization(i[2]);
            case "quality": return "" + (t.length == 3 ? attrs.get(i[1]).setQuality(i[2]) : attrs.get(i[1]).setQuality(i[2], i[3]));
            case "buf": {
                // type w h x y right bottom seed pixels...
                int type = i[1], w = i[2], h = i[3], x = i[4], y = i[5], r = i[6], d = i[7];
                BufferedImage b;
                Random rnd = new Random(i[8]);
                if (x + y + r + d > 0) {
                    BufferedImage p = new BufferedImage(w + x + r, h + y + d, type);
                    for (int yy = 0; yy < p.getHeight(); yy++) for (int xx = 0; xx < p.getWidth(); xx++) p.setRGB(xx, yy, rnd.nextInt() | 0xFF000000);
                    b = p.getSubimage(x, y, w, h);
                } else {
                    b = new BufferedImage(w, h, type);
                }
                for (int k = 0; k < w * h; k++) b.setRGB(k % w, k / w, i[9 + k]);
                bufs.add(b);
                // what the pixels are, and what drawing it into an ABGR image makes of them
                StringBuilder s = new StringBuilder("pixels");
                put(s, rgb(b));
                BufferedImage c = new BufferedImage(w, h, BufferedImage.TYPE_4BYTE_ABGR);
                Graphics g = c.getGraphics();
                g.drawImage(b, 0, 0, null);
                g.dispose();
                put(s, rgb(c));
                return s.toString();
            }
            case "pixels": {
                StringBuilder s = new StringBuilder("pixels");
                put(s, rgb(bufs.get(i[1])));
                return s.toString();
            }
            case "repaint": {
                // the copy in Image must not follow
                BufferedImage b = bufs.get(i[1]);
                for (int y = 0; y < b.getHeight(); y++) for (int x = 0; x < b.getWidth(); x++) b.setRGB(x, y, 0xFF123456);
                StringBuilder s = new StringBuilder("pixels");
                put(s, rgb(b));
                return s.toString();
            }
            case "image":
                try {
                    images.add(i[1] < 0 ? new Image(bufs.get(i[2])) : new Image(attrs.get(i[1]), bufs.get(i[2])));
                    return "ok";
                } catch (PngQuantException e) { return "exception"; }
            case "fixed": {
                Image m = images.get(i[1]);
                return "" + (t.length == 5 ? m.addFixedColor(i[2], i[3], i[4]) : m.addFixedColor(i[2], i[3], i[4], i[5]));
            }
            case "size": return images.get(i[1]).getWidth() + " " + images.get(i[1]).getHeight();
            case "quantize": {
                Result r = attrs.get(i[1]).quantize(images.get(i[2]));
                if (r == null) return "null";
                results.add(r);
                return "ok";
            }
            case "result":
                try {
                    results.add(new Result(attrs.get(i[1]), images.get(i[2])));
                    return "ok";
                } catch (PngQuantException e) { return "null"; }
            case "dither": return "" + results.get(i[1]).setDitheringLevel(Float.intBitsToFloat(i[2]));
            case "gamma": return "" + results.get(i[1]).setGamma(Double.longBitsToDouble(Long.parseLong(t[2])));
            case "get": {
                Result r = results.get(i[1]);
                return Double.doubleToRawLongBits(r.getGamma()) + " " + Double.doubleToRawLongBits(r.getMeanSquareError()) + " " + r.getQuality();
            }
            case "remap": return indexed(results.get(i[1]).getRemapped(images.get(i[2])));
            case "once": return indexed(attrs.get(i[1]).getRemapped(images.get(i[2])));
            case "oncebuf": return indexed(attrs.get(i[1]).getRemapped(bufs.get(i[2])));
            case "closeattr": { PngQuant p = attrs.remove(i[1]); for (int k = 0; k < i[2]; k++) p.close(); return "ok"; }
            case "closeimage": { Image p = images.remove(i[1]); for (int k = 0; k < i[2]; k++) p.close(); return "ok"; }
            case "closeresult": { Result p = results.remove(i[1]); for (int k = 0; k < i[2]; k++) p.close(); return "ok"; }
            case "race": return race(bufs.get(i[1]), i[2]);
            case "null": return nulls(i[1], i[2]);
            case "gc": System.gc(); System.runFinalization(); return "ok";
            case "end": {
                for (PngQuant p : attrs) p.close();
                for (Result p : results) p.close();
                for (Image p : images) p.close();
                attrs.clear(); results.clear(); images.clear(); bufs.clear();
                long[] l = live();
                for (int k = 0; k < 60; k++) {
                    boolean none = true;
                    for (long x : l) none &= x == 0;
                    if (none) break;
                    // those dropped without close() belong to the finalizer
                    System.gc();
                    System.runFinalization();
                    if (k > 3) Thread.sleep(k);
                    l = live();
                }
                StringBuilder s = new StringBuilder("live");
                for (long x : l) s.append(' ').append(x);
                return s.toString();
            }
        }
        return "unknown " + t[0];
    }
    public static void main(String[] args) throws Exception {
        System.loadLibrary("imagequant");
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in), 1 << 16);
        PrintStream out = new PrintStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out), 1 << 16), false);
        String l;
        while ((l = in.readLine()) != null) {
            String r;
            try {
                r = exec(l.split(" "));
            } catch (Throwable e) {
                r = "thrown " + e.toString().replace('\n', ' ');
            }
            out.print(r + "\n");
            out.flush();
        }
    }
}
