"""C16: the sensor size lookup behind a simulated network and a simulated disk."""
import io
import json
import os
import shutil

from .. import camlib
from ..disk import SimDisk, gen_fault
from ..kernel import World, Violation, Pristine
from .history_worlds import scratch_dir

MODELS = ["Canon EOS 50D", "Canon EOS 5D Mark II", "Canon EOS 50", "Nikon D90", "Nikon D9", "Sony DSC-W55", "GoPro HERO4 Black", "DJI FC330",
          "Panasonic DMC-FZ28", "Olympus E-510", "Pentax K-5", "Pentax K-5 II", "Apple iPhone 6", "Apple iPhone 6s Plus", "Fujifilm X-T1", "Leica M9"]
MISSING = ["Canon EOS 50X", "Nikon D", "Nobody Nowhere 1", "Canon EOS", "Leica M9 ;x"]
DBFILE = "sensor_database_detailed.csv"
NET = ["refused", "dns", "connect-timeout", "read-timeout", "ssl", "404", "403", "429", "500", "503", "cut", "reset", "body-timeout", "bad-gzip", "interrupt"]


def size_of(model, n):
    """sensor sizes with many digits: a cut number is still a number"""
    i = MODELS.index(model)
    return (round(4.0 + 1.7345 * i + 0.0071 * n, 4), round(3.0 + 1.2345 * i + 0.0053 * n, 4))


def make_db(db):
    """text of the database: the models of the run among filler lines, in seeded order"""
    lines = ["CameraMaker;CameraModel;CameraSensor;CameraSensorWidth(mm);CameraSensorHeight(mm);CameraSensorWidth(pixels);CameraSensorHeight(pixels)"]
    order = list(db["order"])
    for i in range(db["filler"]):
        lines.append("Maker%d;Model %d;APS-C (22.3 x 14.9 mm);%.4f;%.4f;%d;%d" % (i % 17, i, 5 + i * 0.013, 3 + i * 0.011, 4752 + i, 3168 + i))
    step = max(1, len(lines) // (len(order) + 1))
    for k, m in enumerate(order):
        w, h = size_of(m, db["n"])
        lines.insert(min(len(lines), 1 + k * (step + 1)), "%s;Sensor;%.4f;%.4f;4752;3168" % (m.replace(" ", ";", 1), w, h))
    return "\n".join(lines) + ("\n" if db["newline"] else "")


def answer(db, model):
    return list(size_of(model, db["n"])) if model in db["order"] else None


class Body(io.RawIOBase):
    """a connection that ends, breaks or stalls after some bytes"""

    def __init__(self, data, stop, how):
        self.data, self.stop, self.how, self.pos = data, stop, how, 0

    def readable(self):
        return True

    def readinto(self, b):
        end = len(self.data) if self.stop is None else self.stop
        n = min(len(b), end - self.pos, 700)
        if n <= 0:
            if self.stop is not None:
                if self.how == "reset":
                    raise ConnectionResetError(104, "Connection reset by peer")
                if self.how == "body-timeout":
                    raise TimeoutError("timed out")
            return 0
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Net:
    """stands for the network below requests: answers each request as the plan says"""

    def __init__(self):
        self.count, self.plan, self.data = 0, None, b""

    def install(self):
        import requests
        import requests.adapters
        net = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return net.send(adapter, request)

        requests.adapters.HTTPAdapter.send = send

    def send(self, adapter, request):
        import requests.exceptions as ex
        import urllib3
        self.count += 1
        p = self.plan
        k = p["kind"] if p else None
        if k == "refused":
            raise ex.ConnectionError("[Errno 111] Connection refused", request=request)
        if k == "dns":
            raise ex.ConnectionError("Temporary failure in name resolution", request=request)
        if k == "connect-timeout":
            raise ex.ConnectTimeout("connect timed out", request=request)
        if k == "read-timeout":
            raise ex.ReadTimeout("read timed out", request=request)
        if k == "ssl":
            raise ex.SSLError("certificate verify failed", request=request)
        if k == "interrupt":
            raise KeyboardInterrupt()
        data, status, reason = self.data, 200, "OK"
        headers = {"Content-Type": "text/plain; charset=utf-8"}
        stop = None
        if k and k.isdigit():
            status, reason = int(k), "Error"
            data = data[:int(p["frac"] * len(data))] if p["frac"] > 0.5 else b"%s: Not available\n" % k.encode()
        elif k in ("cut", "reset", "body-timeout"):
            stop = min(len(data) - 1, int(p["frac"] * len(data)))
        elif k == "bad-gzip":
            headers["Content-Encoding"] = "gzip"
        headers["Content-Length"] = str(len(data))
        r = urllib3.HTTPResponse(body=io.BufferedReader(Body(data, stop, k)), headers=headers, status=status, reason=reason, version=11,
                                 preload_content=False, decode_content=False, request_method="GET", request_url=request.url)
        return adapter.build_response(request, r)


NETWORK = Net()


def make_jpeg(fn, model, focal, size, res):
    from PIL import Image
    from PIL.TiffImagePlugin import IFDRational
    im = Image.new("L", (8, 6))
    e = Image.Exif()
    e[0x0110] = model
    e[0x920A] = IFDRational(round(focal * 100), 100)
    e[0xA002], e[0xA003] = size
    e[0xA20E], e[0xA20F] = IFDRational(round(res[0] * 1000), 1000), IFDRational(round(res[1] * 1000), 1000)
    im.save(fn, exif=e)


def lookup(op, d):
    """-> ("value", answer) or ("raises", type name)"""
    import cameratransform.camera as cam
    try:
        if op["how"] == "direct":
            v = cam._getSensorFromDatabase(op["model"])
            return ("value", None if v is None else [float(x) for x in v])
        f, s, im = cam.getCameraParametersFromExif(os.path.join(d, "pics", op["pic"]), **({"sensor_from_database": False} if op["how"] == "exif-off" else {}))
        return ("value", [float(f), [float(x) for x in s], [int(x) for x in im]])
    except (Exception, KeyboardInterrupt) as e:
        return ("raises", type(e).__name__)


def elsewhere(arg):
    """in a new process: one lookup without disk faults"""
    op, d, data, plan = arg
    os.chdir(os.path.join(d, "cwd"))
    NETWORK.plan, NETWORK.data, NETWORK.count = plan, data, 0
    return lookup(op, d), NETWORK.count


class C16(World):
    prop = "C16"

    def setup(self):
        camlib.setup()
        import requests, PIL.Image, PIL.ExifTags, PIL.TiffImagePlugin, PIL.JpegImagePlugin  # noqa
        PIL.Image.init()
        import cameratransform  # noqa
        NETWORK.install()

    def gen_lookup(self, rng, order):
        how = rng.choice(["direct", "direct", "direct", "exif", "exif", "exif-off"])
        op = dict(op="lookup", how=how, model=rng.choice(order) if rng.random() < 0.7 else rng.choice(MISSING + MODELS))
        if how != "direct":
            op["pic"] = "p%d.jpg" % rng.randrange(2)
        return op

    def gen(self, rng, tier):
        order = rng.sample(MODELS, rng.randint(3, len(MODELS)))
        db = dict(order=order, filler=rng.choice([0, 5, 40, 200]), n=rng.randrange(50), newline=rng.random() < 0.7)
        pics = []
        for i in range(2):
            pics.append(dict(model=rng.choice(order) if rng.random() < 0.7 else rng.choice(MISSING), focal=round(rng.uniform(4, 400), 2),
                             size=[rng.randint(600, 6000), rng.randint(400, 4000)], res=[round(rng.uniform(1000, 6000), 3), round(rng.uniform(1000, 6000), 3)]))
        ops = []
        for _ in range(rng.randint(2, 7 if tier == "quick" else 16)):
            op = self.gen_lookup(rng, order)
            r = rng.random()
            if r < 0.45:
                op["net"] = dict(kind=rng.choice(NET), frac=round(rng.random(), 4))
            elif r < 0.8:
                op["disk"] = gen_fault(rng, most=12)
            if rng.random() < 0.3 and "disk" not in op:
                op["fresh"] = True
            ops.append(op)
            if rng.random() < 0.3:
                # time passes (or the clock is set back)
                op["age"] = round(rng.choice([-1, 1, 1, 1]) * 10 ** rng.uniform(0, 8.5))
        ops.append(self.gen_lookup(rng, order))          # the faults stop
        ops.append(dict(self.gen_lookup(rng, order), fresh=rng.random() < 0.6))
        ops.append(dict(self.gen_lookup(rng, order), net=dict(kind=rng.choice(NET), frac=0.5), fresh=rng.random() < 0.5))
        return dict(db=db, pics=pics, ops=ops)

    def simplifications(self, program):
        for i, op in enumerate(program["ops"]):
            for k in ("disk", "net", "fresh", "age"):
                if k in op:
                    q = json.loads(json.dumps(program))
                    q["ops"][i].pop(k)
                    yield q
            if op["how"] != "direct":
                q = json.loads(json.dumps(program))
                q["ops"][i].update(how="direct", model=program["pics"][int(op["pic"][1])]["model"])
                yield q
        for f in (0, 5):
            q = json.loads(json.dumps(program))
            q["db"]["filler"] = f
            yield q

    def execute(self, program, ctx):
        d = scratch_dir()
        pristine = Pristine(elsewhere)
        try:
            cwd = os.path.join(d, "cwd")
            os.makedirs(cwd)
            os.makedirs(os.path.join(d, "pics"))
            for i, p in enumerate(program["pics"]):
                make_jpeg(os.path.join(d, "pics", "p%d.jpg" % i), p["model"], p["focal"], p["size"], p["res"])
            os.chdir(cwd)
            disk = SimDisk(cwd, ctx)
            disk.known = (DBFILE, ".")
            try:
                self.run(program, ctx, disk, d, cwd, pristine)
                disk.check_internal()
            finally:
                disk.stop()
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)

    def want(self, program, op):
        """-> (right answer, does it need the database?)"""
        if op["how"] == "direct":
            return answer(program["db"], op["model"]), True
        p = program["pics"][int(op["pic"][1])]
        s = answer(program["db"], p["model"])
        if s is None or op["how"] == "exif-off":
            s = [p["size"][i] / p["res"][i] * 25.4 for i in range(2)]
        return [p["focal"], s, p["size"]], op["how"] != "exif-off"

    def run(self, program, ctx, disk, d, cwd, pristine):
        data = make_db(program["db"]).encode()
        stored = False                    # True: certainly, None: perhaps (a fault hit the storing), False: certainly not
        failed = 0
        for k, op in enumerate(program["ops"]):
            want, needs = self.want(program, op)
            net = op.get("net")
            f = op.get("disk")
            seen = {}
            fired = crashed = dead = False
            if op.get("fresh"):
                disk.busy = True
                kind, val = pristine.call((op, d, data, net))
                disk.busy = False
                if kind != "ok":
                    raise RuntimeError(val)
                got, count = val
                ctx.ev("lookup in another process")
            else:
                NETWORK.plan, NETWORK.data, NETWORK.count = net, data, 0

                def reader():
                    try:
                        with open(os.path.join(cwd, DBFILE), "rb") as fp:
                            seen.setdefault(fp.read(), disk.calls)
                    except FileNotFoundError:
                        pass

                disk.reset(f)
                disk.watch = reader
                got = lookup(op, d)
                disk.watch = None
                count = NETWORK.count
                fired, crashed = disk.fired is not None, disk.frozen
                dead = crashed                 # the process did not live to give an answer
                if f and f["kind"] == "power":
                    disk.power_loss(f["keep_meta"], f["keep_data"])
                    crashed = True
                disk.check_internal()
                disk.reset()
            if op.get("age"):
                disk.busy = True
                for n in os.listdir(cwd):
                    st = os.stat(os.path.join(cwd, n))
                    os.utime(os.path.join(cwd, n), (st.st_atime - op["age"], st.st_mtime - op["age"]))
                disk.busy = False
                ctx.fault("clock jump")
                ctx.ev("time passes", op["age"])
            if net and count:
                ctx.fault("network: " + net["kind"])
            what = "lookup %d (%s of %s%s%s%s)" % (k, op["how"], op["model"] if op["how"] == "direct" else program["pics"][int(op["pic"][1])]["model"],
                                                   ", network: %s" % net["kind"] if net else "", ", %s at disk call %d" % (f["kind"], f["at"]) if f else "",
                                                   ", in a new process" if op.get("fresh") else "")
            ctx.ev("lookup", k, op["how"], got, count, stored)
            ctx.state(op["how"], net["kind"] if net else None, f["kind"] if f else None, disk.fired, stored, got[0])
            ctx.check()
            if not dead and got[0] == "value" and not equal(got[1], want):
                raise Violation("wrong-answer", "%s answers %r, the database says %r" % (what, got[1], want))
            for b, at in seen.items():
                if b != data and not same_lines(b, data):
                    raise Violation("reader-saw-partial-file", "%s: at disk call %d another process finds %d of %d bytes of the database" % (what, at, len(b), len(data)))
            if dead:
                pass
            elif not needs:
                if count:
                    raise Violation("needless-request", "%s made %d requests" % (what, count))
                if got[0] == "raises" and not fired and not crashed:
                    raise Violation("lookup-fails", "%s raises %s" % (what, got[1]))
            elif stored is True:
                if count:
                    raise Violation("needless-request", "%s made %d requests although the database was stored" % (what, count))
                if got[0] == "raises" and not fired and not crashed:
                    raise Violation("lookup-fails", "%s raises %s although the database was stored" % (what, got[1]))
            else:
                if net and count and got[0] == "value":
                    raise Violation("failure-hidden", "%s answers although the download failed" % what)
                if stored is False and got[0] == "value" and not count:
                    raise Violation("failure-hidden", "%s answers %r without database and network" % (what, got[1]))
                if net is None and not fired and not crashed and got[0] == "raises":
                    raise Violation("lookup-fails", "%s raises %s with a working connection" % (what, got[1]))
            failed += got[0] == "raises"
            # what is known about the stored file now
            if needs:
                if got[0] == "value" and not fired and not crashed:
                    stored = True
                elif (fired or crashed) and stored is False and not (net and count):
                    stored = None
                elif crashed and stored is not True:
                    stored = None
                # a database once stored and left alone stays stored
        ctx.interesting = failed > 0
        ctx.ev("end", failed)


def same_lines(a, b):
    return a.replace(b"\r\n", b"\n") == b.replace(b"\r\n", b"\n")


def equal(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return abs(a - b) <= 1e-6 * max(1, abs(b))
