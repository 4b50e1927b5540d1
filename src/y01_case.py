"""One interpreter: y01_case.py <contrib/py> <dump dir> <out> <tmp dir> <seed> <case>..."""
import io, json, os, random, shutil, subprocess, sys, types

repo, dump, out_path, tmp, seed = sys.argv[1:6]
cases = [int(x) for x in sys.argv[6:]]
out = open(out_path, "w")
events = {}
current = -1


def ev(k, n=1):
    events[k] = events.get(k, 0) + n


def bad(key, detail):
    out.write(json.dumps(["V", current, key, str(detail)[:1500]]) + "\n")
    out.flush()


def read(p):
    with open(p, "rb") as f:
        return f.read()


class LibraryError(Exception):
    pass


# ---- stand-ins for the libraries
calls = []           # what the library was really called with
fail_next = [False]


def library_open(name, args, kwargs):
    calls.append((name, args, kwargs))
    if fail_next[0]:
        raise LibraryError("library refuses")
    data = read(name)
    return ("image", data, args, tuple(sorted(kwargs.items())))


cv2 = types.ModuleType("cv2")
cv2.CV_32FC3 = 21
def imread(filename, *args, **kwargs):
    """cv2 doc"""
    return library_open(filename, args, kwargs)
cv2.imread = original_imread = imread
sys.modules["cv2"] = cv2
sys.modules["opencv_alias"] = cv2          # the same module under another name
fake_cv2 = types.ModuleType("cv2")          # calls itself cv2, but is not OpenCV
fake_cv2.imread = lambda f: "not opencv"
not_opencv = fake_cv2.imread
sys.modules["other_cv2"] = fake_cv2

magick = types.ModuleType("PythonMagick")
class Image(object):
    def __init__(self, *args, **kwargs):
        """magick doc"""
        if args and isinstance(args[0], str):
            self.value = library_open(args[0], args[1:], kwargs)
        else:
            self.value = ("memory", args, tuple(sorted(kwargs.items())))
magick.Image = Image
magick.DrawableCircle = object
sys.modules["PythonMagick"] = magick
magick_doc = Image.__init__.__doc__

pil = types.ModuleType("PIL")
pil.__path__ = []
pil_image = types.ModuleType("PIL.Image")
pil_file = types.ModuleType("PIL.ImageFile")
registered, extensions = {}, {}
class ImageFile(object):
    def __init__(self, fp):
        self.fp = fp
        self._open()
pil_file.ImageFile = ImageFile
class Opened(object):
    def __init__(self, data):
        self.data, self.mode, self.size, self.tile, self.fp = data, "RGB", (7, 5), [("jpeg", (0, 0, 7, 5), 0, ("RGB", ""))], io.BytesIO(data)
opened = []
def pil_open(fp):
    if fail_next[0]:
        raise LibraryError("library refuses")
    o = Opened(fp.read())
    opened.append(o)
    return o
pil_image.open = pil_open
pil_image.register_open = lambda f, c, *a: registered.__setitem__(f, c)
pil_image.register_extension = lambda f, e: extensions.__setitem__(e, f)
pil_image._plugins = ["JpegImagePlugin"]
pil.Image, pil.ImageFile = pil_image, pil_file
sys.modules["PIL"], sys.modules["PIL.Image"], sys.modules["PIL.ImageFile"] = pil, pil_image, pil_file

imageio = types.ModuleType("imageio")
imageio.__path__ = []
imageio.core = types.ModuleType("imageio.core")
class Format(object):
    class Reader(object):
        pass
    class Writer(object):
        pass
    def __init__(self, name, description, extensions=None, modes=None):
        self.name, self.extensions, self.modes = name, extensions, modes
imageio.core.Format = Format
class Formats(list):
    def add_format(self, f, overwrite=False):
        self.append(f)
imageio.formats = Formats()
imageio.imread = lambda name, *a, **k: library_open(name, a, k)
sys.modules["imageio"], sys.modules["imageio.core"] = imageio, imageio.core
sys.modules["none_module"] = None          # as left by some importers

sys.path.insert(0, repo)
import jxl_library_patches as patches
from jxl_library_patches import jxl_utils
if not os.path.realpath(patches.__file__).startswith(os.path.realpath(repo)):
    sys.exit(3)

if cv2.imread is original_imread:
    bad("cv2-not-patched", "")
if fake_cv2.imread is not not_opencv:
    bad("foreign-module-patched", "")
if len(registered) != 1 or list(extensions) != [".jxl"]:
    bad("pil-not-registered", (registered, extensions))
if len(imageio.formats) != 1:
    bad("imageio-not-registered", len(imageio.formats))
# patching again, as a second import of the package would, changes nothing
before = (cv2.imread, Image.__init__)
patches._try_patch_all(debug=False)
if (cv2.imread, Image.__init__) != before:
    bad("patched-twice", "")
if cv2.imread.__doc__ != "cv2 doc" or Image.__init__.__doc__ != magick_doc:
    bad("documentation-lost", "")
if fail_next[0] or calls:
    bad("library-called-while-patching", calls)
pil_class = list(registered.values())[0] if registered else None
pil_name = list(registered)[0] if registered else None
if pil_name and extensions.get(".jxl") != pil_name:
    bad("pil-extension", extensions)
fmt = imageio.formats[0] if imageio.formats else None
SIG = b"\x0a\x04B\xd2\xd5N"


class Request(object):
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.firstbytes = read(name)[:256]
    def get_local_filename(self):
        return self.name


def via_cv2(name, args, kwargs):
    return cv2.imread(name, *args, **kwargs)
def via_magick(name, args, kwargs):
    return magick.Image(name, *args, **kwargs).value
def via_imageio(name, args, kwargs):
    r = fmt.Reader()
    r.request = Request(name, "?i")
    r._open()
    if r._get_length() != 1:
        bad("imageio-length", r._get_length())
    v = r._get_data(0)
    for i in (-1, 1, 5):
        try:
            r._get_data(i)
            bad("imageio-index", i)
        except IndexError:
            pass
    r._close()
    return v[0]
def via_pil(name, args, kwargs):
    opened.clear()
    with open(name, "rb") as f:
        fp = f if args else io.BytesIO(f.read())
        im = pil_class(fp)
    if not opened:
        return None
    o = opened[-1]
    if (im.mode, im.size, im.tile, im.fp) != (o.mode, o.size, o.tile, o.fp):
        bad("pil-not-forwarded", (im.mode, im.size, im.tile))
    calls.append((None, (), {}))
    return ("image", o.data, args, tuple(sorted(kwargs.items())))


def leftovers(keep):
    return sorted(set(os.listdir(tmp)) - keep)


for current in cases:
    r = random.Random(seed + ":" + str(current))
    jpeg, brn = read("%s/%d.jpg" % (dump, current)), read("%s/%d.in.brn" % (dump, current))
    work = "%s/w%d" % (tmp, current)
    os.mkdir(work)
    # what the tool itself makes of the stream
    kind = r.choice(["stream", "stream", "stream", "jpeg", "damaged", "damaged", "prefix", "other", "missing", "directory"])
    data = brn
    if kind == "jpeg":
        data = jpeg
    elif kind == "damaged":
        b = bytearray(brn)
        for _ in range(1 + r.randrange(3)):
            p = r.randrange(6, len(b)) if len(b) > 6 else 0
            b[p] ^= 1 << r.randrange(8)
        data = bytes(b[:r.randrange(6, len(b) + 1)] if r.random() < 0.5 and len(b) > 6 else b)
    elif kind == "prefix":
        data = brn[:r.randrange(0, 6)]
    elif kind == "other":
        b = bytearray(brn[:200])
        b[r.randrange(6)] ^= 1 << r.randrange(8)
        data = bytes(b)
    name = work + "/" + r.choice(["a.jxl", "a b.jxl", "\u00e4\u00f6.j", "-x", "no_extension", "q'uote\".jpg"])
    if kind == "directory":
        os.mkdir(name)
    elif kind != "missing":
        with open(name, "wb") as f:
            f.write(data)
    if r.random() < 0.3 and "/-" not in name:
        os.chdir(work)
        name = os.path.basename(name)
    else:
        os.chdir(tmp)
    is_brn = kind not in ("missing", "directory") and data[:6] == SIG
    want = None
    if is_brn:
        rc = subprocess.call([os.environ["BIN_JPEG_FROM_JXL"], name, work + "/ref"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        want = read(work + "/ref") if rc == 0 else None
        if os.path.exists(work + "/ref"):
            os.unlink(work + "/ref")
    # The tools of this project print their messages; keep them out of ours.
    if jxl_utils.is_jpegxl_recompressed_jpeg_file(name) != is_brn:
        bad("recognised-wrongly", (kind, is_brn))
    for lib, f in (("cv2", via_cv2), ("magick", via_magick), ("imageio", via_imageio), ("pil", via_pil)):
        if lib == "imageio" and (kind in ("missing", "directory") or not fmt):
            continue
        if lib == "pil" and (kind in ("missing", "directory") or not pil_class):
            continue
        if lib == "imageio":
            for mode in ("?i", "rI", "??", "ri", "rv", "rV"):
                q = Request(name, mode)
                got = bool(fmt._can_read(q))
                if got != (is_brn and mode[1] in "iI?"):
                    bad("imageio-can-read", (kind, mode, got))
            if fmt._can_write(None):
                bad("imageio-can-write", "")
            if not is_brn:
                continue
        args, kwargs = (), {}
        if lib in ("cv2", "magick"):
            args = r.choice([(), (), (0,), (1,), ("RGB", 3)])
            kwargs = r.choice([{}, {}, {"flags": 0}]) if not args else {}
        if lib == "pil" and r.random() < 0.5:
            args = (1,)
        fail_next[0] = r.random() < 0.15
        calls.clear()
        keep = set(os.listdir(tmp))
        value, err = None, None
        try:
            value = f(name, args, kwargs)
        except Exception as e:  # pylint:disable=broad-except
            err = e
        failing, fail_next[0] = fail_next[0], False
        left = leftovers(keep)
        ev(lib + ":" + kind)
        what = "%s %s %s %s err=%r" % (lib, kind, args, kwargs, err)
        if left:
            bad("temporary-files-left:" + lib, "%s: %s" % (what, left))
            for n in left:
                shutil.rmtree(tmp + "/" + n, ignore_errors=True)
                if os.path.isfile(tmp + "/" + n):
                    os.unlink(tmp + "/" + n)
        if kind not in ("missing", "directory") and read(name) != data:
            bad("input-modified:" + lib, what)
        if is_brn and want is None:
            ev("conversion-failed")
            if not isinstance(err, RuntimeError):
                bad("failed-conversion-not-reported:" + lib, what)
            elif calls:
                bad("library-called-after-failed-conversion:" + lib, what)
        elif lib == "pil" and not is_brn:
            if not isinstance(err, SyntaxError):
                bad("pil-accepts-other-data", what)
        elif failing:
            ev("library-failed")
            if not isinstance(err, LibraryError):
                bad("library-error-lost:" + lib, what)
        elif kind in ("missing", "directory"):
            if not isinstance(err, (FileNotFoundError, IsADirectoryError)):
                bad("library-error-lost:" + lib, what)
            if calls and calls[0][0] != name:
                bad("name-changed:" + lib, what)
        else:
            expected = ("image", want if is_brn else data, args, tuple(sorted(kwargs.items())))
            if err is not None:
                bad("call-fails:" + lib, what)
            elif value != expected:
                bad("wrong-image:" + lib, what + " %d bytes, want %d, %s" % (len(value[1]) if value else -1, len(expected[1]), value and value[2:]))
            elif len(calls) != 1:
                bad("library-called-%d-times:%s" % (len(calls), lib), what)
            elif not is_brn and calls[0][0] != name:
                bad("name-changed:" + lib, what)
    # other ways to make an image pass through
    for a, k in (((), {}), ((b"blob",), {}), ((640, 480), {"color": "red"}), ((None,), {})):
        v = magick.Image(*a, **k).value
        if v != ("memory", a, tuple(sorted(k.items()))):
            bad("other-arguments-changed", v)
    if r.random() < 0.2:
        v = cv2.imread(filename=name) if kind not in ("missing", "directory") and (not is_brn or want is not None) else None
        if v is not None and v[1] != (want if is_brn else data):
            bad("keyword-call", kind)
    os.chdir(tmp)
    shutil.rmtree(work, ignore_errors=True)
    out.write(json.dumps(["S", "%s, %d bytes, %s" % (kind, len(data), "restores %d bytes" % len(want) if want is not None else "not restored")]) + "\n")

# without a converter the package refuses to load
for v in ("/nonexistent/tool",):
    p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); import jxl_library_patches" % repo],
                       env=dict(os.environ, BIN_JPEG_FROM_JXL=v), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode == 0 or b"BIN_JPEG_FROM_JXL" not in p.stderr:
        current = -1
        bad("missing-converter-not-reported", p.stderr[-300:])
for k in sorted(events):
    out.write(json.dumps(["E", k, events[k]]) + "\n")
out.write(json.dumps(["D"]) + "\n")
out.close()
