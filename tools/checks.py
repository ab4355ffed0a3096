"""One function per property."""
import json, os, random, re
from vlib import Broken, SPEC, CORE, HARN
CHECKS = {}


def check(p):
    def d(f):
        CHECKS[p] = f
        return f
    return d


BUF = ["sim.c", "gluelog.c", "drv_buffer.c"]


def cover_paths(nodes, edges, inits, maxlen=80):
    """action sequences from an initial state that together take every edge"""
    import collections
    out = collections.defaultdict(list)
    for a, b, x in edges:
        out[a].append((b, x))
    for a in out:
        out[a] = sorted(set(out[a]))
    par, dq = {}, collections.deque()
    for i in sorted(inits):
        par[i] = None
        dq.append(i)
    while dq:
        u = dq.popleft()
        for v, x in out[u]:
            if v not in par:
                par[v] = (u, x)
                dq.append(v)
    todo = {a: list(out[a]) for a in out}
    paths = []
    for start in par:
        while todo.get(start):
            p, x = [], start
            while par[x] is not None:
                p.append(par[x][1])
                x = par[x][0]
            p.reverse()
            cur = start
            while len(p) < maxlen or (cur == start and todo.get(cur)):
                if todo.get(cur):
                    v, x = todo[cur].pop()
                else:
                    nx = [(v, x) for v, x in out[cur] if todo.get(v)]
                    if not nx:
                        break
                    v, x = nx[0]
                p.append(x)
                cur = v
                if len(p) > 4 * maxlen:
                    break
            paths.append(p)
    return paths


def buf_scripts(c, cfgs):
    """edge-cover scripts of the buffer model, one file"""
    names = {"NewWith(FALSE)": "new", "NewWith(TRUE)": "newmf", "New": "new", "NewMf": "newmf", "Commit": "commit", "Abort": "abort", "Get": "get",
             "GetTo": "getto", "Release": "release", "Put": "put", "Flush": "flush", "Gc": "gc"}
    f = os.path.join(c.work, "buf.script")
    n = 0
    with open(f, "w") as o:
        for cfg in cfgs:
            k = {m[0]: int(m[1]) for m in re.findall(r"(StatN|DynN|MaxPools|GcLevel) = (\d+)",
                 open(os.path.join(SPEC, cfg)).read())}
            nodes, edges, inits = c.graph("MCBuffer", cfg)
            for p in cover_paths(nodes, edges, inits):
                o.write("%d %d %d %d %d|%s\n" % (k["StatN"], k["DynN"], max(1, k["MaxPools"]),
                        k["MaxPools"] > 0, k["GcLevel"], " ".join(names[x] for x in p)))
                n += 1
    return f, n


def buf_cover(c, b, cfgs):
    f, n = buf_scripts(c, cfgs)
    c.conform("BufferSeq", b, ["--n", 1, "--script", f],
              what="every transition of the model %s replayed on the real buffer" % "/".join(cfgs))


@check("B01")
def b01(c):
    c.model("MCBuffer", c.pick("MCBuffer.cfg", "MCBufferT.cfg"))
    b = c.build("buf", BUF)
    buf_cover(c, b, c.pick(["MCBufferG0.cfg", "MCBufferG.cfg"], ["MCBufferG0.cfg", "MCBufferG2.cfg"]))
    c.conform("BufferSeq", b, ["--n", c.pick(200, 4000), "--extra", "seq"], what="random sequential histories")
    c.conform("BufferConc", b, ["--n", c.pick(250, 4000), "--extra", "conc"],
              what="concurrent histories, random schedules")
    m = c.build("buf", BUF, flavor="mem")
    c.conform("BufferConc", m, ["--n", c.pick(150, 3000), "--extra", "conc,mem"],
              what="concurrent histories, preemption at memory accesses")


@check("B02")
def b02(c):
    c.model("MCBuffer", c.pick("MCBuffer.cfg", "MCBufferT.cfg"))
    b = c.build("buf", BUF)
    buf_cover(c, b, c.pick(["MCBufferG0.cfg", "MCBufferG.cfg"],
                           ["MCBufferG0.cfg", "MCBufferG.cfg", "MCBufferG2.cfg"]))
    c.conform("BufferSeq", b, ["--n", c.pick(800, 15000), "--extra", "seq"],
              what="random sequential histories with allocation failures, complete statistics")


@check("B03")
def b03(c):
    c.model("MCBuffer", c.pick("MCBuffer.cfg", "MCBufferT.cfg"))
    b = c.build("buf", BUF)
    buf_cover(c, b, c.pick(["MCBufferG.cfg"], ["MCBufferG.cfg", "MCBufferG2.cfg"]))
    c.conform("BufferSeq", b, ["--n", c.pick(1000, 15000), "--extra", "seq"],
              what="random histories with automatic and manual collection, allocation accounting")
    c.conform("BufferConc", b, ["--n", c.pick(60, 1500), "--extra", "conc"],
              what="collection concurrent to producer and consumer")


@check("B04")
def b04(c):
    c.model("MCBuffer")
    b = c.build("buf", BUF)
    c.conform("BufferConc", b, ["--n", c.pick(300, 5000), "--extra", "conc"],
              what="waiting, timeouts, cancellation, spurious wake-ups; random schedules")
    m = c.build("buf", BUF, flavor="mem")
    c.conform("BufferConc", m, ["--n", c.pick(150, 3000), "--extra", "conc,mem"],
              what="the same with preemption at memory accesses")
    p = c.build("buf", BUF, flavor="plain")
    c.conform("BufferConc", p, ["--n", 0, "--dfs", c.pick(400, 6000), "--bound", c.pick(2, 3),
                                "--extra", "conc,dfs"], what="schedules with few preemptions, systematically")


NET = ["sim.c", "simnet.c", "netwrap.c", "gluelog.c", "drv_net.c"]


@check("N01")
def n01(c):
    c.model("MCNet", c.pick("MCNet.cfg", "MCNetT.cfg"))
    b = c.build("net", NET)
    c.conform("NetTrace", b, ["--n", c.pick(60, 1500)],
              what="senders, receiver and connector against a hostile peer: partial and failing transfers")
    m = c.build("net", NET, flavor="mem")
    c.conform("NetTrace", m, ["--n", c.pick(20, 500), "--extra", "mem"],
              what="the same with preemption at memory accesses")


@check("N02")
def n02(c):
    c.model("MCNet", c.pick("MCNet.cfg", "MCNetT.cfg"))
    b = c.build("net", NET)
    c.conform("NetTrace", b, ["--n", c.pick(50, 1200)],
              what="losses, failing connects, stop and restart; random schedules")
    c.conform("NetTrace", b, ["--n", 0, "--dfs", c.pick(150, 3000), "--bound", c.pick(2, 3), "--extra", "dfs"],
              what="few deviations (preemptions, faults) from the default schedule, systematically")
    m = c.build("net", NET, flavor="mem")
    c.conform("NetTrace", m, ["--n", c.pick(15, 500), "--extra", "mem"],
              what="preemption at memory accesses")


@check("N03")
def n03(c):
    c.model("MCNet", c.pick("MCNet.cfg", "MCNetT.cfg"))
    b = c.build("net", NET)
    c.conform("NetTrace", b, ["--n", c.pick(70, 2000)],
              what="resolution and connection failures in virtual time, statistics at quiescent moments")


STACK = ["sim.c", "simnet.c", "netwrap.c", "gluelog.c", "drv_stack.c"]


def stack(c, flavor="asan", opt="-O1"):
    return c.build("stack" + opt, STACK, repo=CORE + ["src/dump1090/req-serial.c"], flavor=flavor,
                   cflags=['-DLOCALSTATEDIR="sv"', opt], version="26.282.6", exclude=["serial_eth.c"])


def feed(c, what, q, t, extra, kf=None):
    """the feed under random schedules: with ASan, preemption at memory accesses, and as shipped (-O2)"""
    for flavor, opt, ex, f in (("asan", "-O1", extra, 1), ("mem", "-O1", extra + ",mem", 0.4),
                               ("plain", "-O2", extra, 0.6)):
        b = stack(c, flavor, opt)
        c.conform("FeedTrace", b, ["--n", max(2, int(c.pick(q, t) * f)), "--extra", ex], kf=kf,
                  what=what + {"asan": "", "mem": ", preemption at memory accesses", "plain": ", optimised build"}[flavor],
                  also=("NetTrace",) if flavor == "plain" and "gps" not in extra else ())


@check("N04")
def n04(c):
    feed(c, "login on every connection, exact messages", 24, 400, "x")
    feed(c, "login after a serial request", 10, 200, "req")


@check("N05")
def n05(c):
    feed(c, "relaying under losses, with and without history", 36, 500, "x")


@check("N06")
def n06(c):
    feed(c, "stopping at any moment, starting again", 30, 500, "x")
    b = c.build("net", NET)
    c.conform("NetTrace", b, ["--n", c.pick(30, 600)], what="stopping the network alone")


@check("S01")
def s01(c):
    feed(c, "serial number request, persistence, restart", 24, 400, "req")
    feed(c, "configured serial number", 8, 100, "x")


@check("I04")
def i04(c):
    feed(c, "input frames to relay queue, synchronization, input failures", 34, 500, "x")


@check("G02")
def g02(c):
    kf = ("G02-transition", {"KF": "1"})
    feed(c, "position updates from another thread, no network faults", 10, 200, "gps,nofault", kf)
    feed(c, "position updates from another thread, network faults", 24, 400, "gps", kf)


COMP = ["sim.c", "gluelog.c", "drv_comp.c"]
COMPR = CORE


@check("C01")
def c01(c):
    c.model("MCComp", c.pick("MCComp.cfg", "MCCompT.cfg"))
    b = c.build("comp", COMP, repo=COMPR)
    c.conform("CompTrace", b, ["--n", c.pick(4, 60), "--extra", "enum"],
              what="every dependency relation and set of enabled components on three components")
    c.conform("CompTrace", b, ["--n", c.pick(250, 5000)], what="random sets of up to six components")


@check("C02")
def c02(c):
    c.model("MCComp", c.pick("MCCompS.cfg", "MCCompT.cfg"))
    b = c.build("comp", COMP, repo=COMPR)
    c.conform("CompTrace", b, ["--n", c.pick(3, 60), "--extra", "enum"],
              what="failing construction and start, deferred stops on every set of three components")
    c.conform("CompTrace", b, ["--n", c.pick(400, 8000)],
              what="failing construction, start and thread creation, slow threads, deferred stops, repeated life cycles")


TB = ["sim.c", "gluelog.c", "drv_tb.c"]


def tb(c):
    return c.build("tb", TB, repo=["src/core/tb.c", "src/core/filter.c", "src/util/*.c", "src/util/port/*.c",
                                   "src/radarcape/tb-misc.c", "src/radarcape/tb-rshell.c"],
                   cflags=['-DWITH_SYSTEMD="/usr/bin"', "-DWITH_PACMAN"])


def tb_cover(c, b, cfg):
    """every transition of MCTb replayed: reads of every size, losses"""
    nodes, edges, inits = c.graph("MCTb", cfg)
    def tup(n, v):
        return tuple(int(x) for x in re.search(r"%s = <<(.*?)>>" % v, nodes[n]).group(1).split(",") if x.strip())
    pos = {n: int(re.search(r"pos = (\d+)", t).group(1)) for n, t in nodes.items()}
    lost = {n: int(re.search(r"lost = (\d+)", t).group(1)) for n, t in nodes.items()}
    out = {i: (n, tup(n, "stream")) for i, n in enumerate(nodes)}
    stream = {n: st for n, st in out.values()}
    es = [(a, b2, (stream[a], pos[a], pos[b2], lost[b2] - lost[a])) for a, b2, _ in edges]
    f = os.path.join(c.work, "tb.script")
    with open(f, "w") as o:
        for p in cover_paths(nodes, es, inits):
            for st, a, z, ls in p:
                o.write("/" if ls else " ".join(map(str, st[a:z])) + "|")
            o.write("\n")
    c.conform("TbTrace", b, ["--n", 1, "--extra", "script", "--script", f],
              what="every transition of the model %s replayed on the real receiver" % cfg)


@check("T01")
def t01(c):
    c.model("MCTb", c.pick("MCTb.cfg", "MCTbT.cfg"))
    b = tb(c)
    tb_cover(c, b, c.pick("MCTbG.cfg", "MCTb.cfg"))
    c.conform("TbTrace", b, ["--n", c.pick(250, 5000)],
              what="streams of valid, unknown, malformed and truncated packets, random segmentation and losses")
    s = stack(c)
    c.conform("FeedTrace", s, ["--n", c.pick(8, 200), "--extra", "x"], what="talkback within the whole feed")


@check("T02")
def t02(c):
    c.model("MCTb", c.pick("MCTb.cfg", "MCTbT.cfg"))
    b = tb(c)
    c.conform("TbTrace", b, ["--n", c.pick(1, 1), "--extra", c.pick("filter", "filter,all")],
              what="filter packets: " + c.pick("masks and settings over the used bits", "all masks and settings"))
    c.conform("TbTrace", b, ["--n", c.pick(350, 6000)],
              what="registered, unregistered and unknown types of all lengths; processes with failing steps")


GPS = ["sim.c", "gluelog.c", "drv_gps.c"]
GPSR = ["src/core/gps.c", "src/core/beast.c", "src/util/*.c", "src/util/port/*.c"]


@check("G01")
def g01(c):
    c.model("MCGps")
    b = c.build("gps", GPS, repo=GPSR)
    c.conform("GpsTrace", b, ["--n", 1, "--extra", c.pick("enum4", "enum6")],
              what="all sequences of %d operations with accepted and refused messages" % c.pick(4, 6))
    c.conform("GpsTrace", b, ["--n", c.pick(250, 5000)], what="updating and requesting threads, slow and failing network")
    m = c.build("gps", GPS, repo=GPSR, flavor="mem")
    c.conform("GpsTrace", m, ["--n", c.pick(150, 3000), "--extra", "mem"],
              what="the same with preemption at memory accesses")
    s = stack(c)
    c.conform("FeedTrace", s, ["--n", c.pick(6, 150), "--extra", "x"], what="positions within the whole feed")


RC = ["sim.c", "gluelog.c", "drv_rc.c"]
RCR = ["src/radarcape/rc-parser.c", "src/core/beast.c", "src/core/filter.c", "src/util/*.c", "src/util/port/*.c"]


def rc_cover(c, b):
    nodes, edges, inits = c.graph("MCRcG")
    via = {n: re.search(r"via = <<(.*?)>>", t).group(1).replace(" ", "") for n, t in nodes.items()}
    f = os.path.join(c.work, "rc.script")
    with open(f, "w") as o:
        for p in cover_paths(nodes, [(a, x, via[x]) for a, x, _ in edges], inits, maxlen=400):
            o.write(" ".join("/" if v == "" else v.split(",")[0] + ("|" if v.endswith("1") else "") for v in p) + "\n")
    c.conform("RcTrace", b, ["--n", 1, "--extra", "script", "--script", f],
              what="every transition of the reader (byte class and end of read in every state) replayed on the real one")


@check("I01")
def i01(c):
    c.model("MCRc", c.pick("MCRc.cfg", "MCRcT.cfg"))
    b = c.build("rc", RC, repo=RCR)
    rc_cover(c, b)
    c.conform("RcTrace", b, ["--n", c.pick(1, 4), "--extra", c.pick("enum", "enum6")],
              what="all strings of %d bytes over a small alphabet in front of two frames, behind a complete and a truncated frame"
              % c.pick(5, 6))
    c.conform("RcTrace", b, ["--n", c.pick(150, 4000)], what="random streams of frames, garbage, truncated and corrupted frames")


@check("I02")
def i02(c):
    c.model("MCEsc", c.pick("MCEsc.cfg", "MCEscT.cfg"))
    c.model("MCRc", c.pick("MCRc.cfg", "MCRcT.cfg"))
    b = c.build("rc", RC, repo=RCR)
    c.conform("RcTrace", b, ["--n", c.pick(4, 100), "--extra", "enc"],
              what="all strings up to length 7 over three bytes and random longer ones; round trips through the reader")
    s = stack(c)
    c.conform("FeedTrace", s, ["--n", c.pick(6, 100), "--extra", "x"], what="every message of the whole feed")


FIL = ["sim.c", "gluelog.c", "drv_filter.c"]


@check("I03")
def i03(c):
    c.model("MCFilter")
    b = c.build("fil", FIL, repo=["src/core/filter.c", "src/util/*.c", "src/util/port/*.c"])
    nodes, edges, inits = c.graph("MCFilter")
    lab = {n: re.search(r"last = <<(.*?)>>", t).group(1).replace('"', "").replace(",", "") for n, t in nodes.items()}
    val = {n: re.findall(r"(sync|ext) \|-> (TRUE|FALSE)", t) for n, t in nodes.items()}
    f = os.path.join(c.work, "fil.script")
    ini = {a: a for a in inits}
    with open(f, "w") as o:
        for i in sorted(inits):
            v = dict(val[i])
            for p in cover_paths(nodes, [(a, x, lab[x]) for a, x, _ in edges], [i], maxlen=120):
                o.write("%d %d %s\n" % (v["sync"] == "TRUE", v["ext"] == "TRUE", " ".join(p)))
    c.conform("FilterTrace", b, ["--n", 1, "--extra", "script", "--script", f],
              what="every transition of the model MCFilter replayed on the real filter")
    c.conform("FilterTrace", b, ["--n", 1, "--extra", "all"], what="all settings, frame types and first bytes")
    c.conform("FilterTrace", b, ["--n", c.pick(200, 5000)], what="random histories with complete statistics")
    t = tb(c)
    c.conform("TbTrace", t, ["--n", 1, "--extra", "filter"], what="settings changed by the server")


TR = ["sim.c", "gluelog.c", "drv_tr.c"]
TRR = ["src/trimble/trimble_parser.c", "src/trimble/trimble_recv.c", "src/util/*.c", "src/util/port/*.c"]


@check("M01")
def m01(c):
    c.model("MCTr", c.pick("MCTr.cfg", "MCTrT.cfg"))
    b = c.build("tr", TR, repo=TRR)
    nodes, edges, inits = c.graph("MCTrG")
    via = {n: re.search(r"via = <<(.*?)>>", t).group(1).replace(" ", "") for n, t in nodes.items()}
    f = os.path.join(c.work, "tr.script")
    with open(f, "w") as o:
        for p in cover_paths(nodes, [(a, x, via[x]) for a, x, _ in edges], inits, maxlen=400):
            o.write(" ".join("/" if v == "" else v.split(",")[0] + ("|" if v.endswith("1") else "") for v in p) + "\n")
    c.conform("TrTrace", b, ["--n", 1, "--extra", "script", "--script", f],
              what="every transition of the reader (byte class and end of read in every state, buffer of six bytes) "
                   "replayed on the real one")
    c.conform("TrTrace", b, ["--n", c.pick(3, 6), "--extra", c.pick("enum", "enum7")],
              what="all strings of %d bytes over a small alphabet in front of two packets" % c.pick(6, 7))
    c.conform("TrTrace", b, ["--n", c.pick(150, 3000)],
              what="random streams of packets (also as large as the buffer), garbage, truncated and corrupted packets; "
                   "buffers of 2 to 1024 bytes")


@check("M02")
def m02(c):
    c.model("MCTr")
    b = c.build("tr", TR, repo=TRR)
    c.conform("TrTrace", b, ["--n", c.pick(2, 10), "--extra", "fields"],
              what="every value of every status field, every length, every other type")
    c.conform("TrTrace", b, ["--n", c.pick(150, 3000), "--extra", "loop"],
              what="random connections: positions, garbage, failures, refused configuration, the end of the component")


INP = ["sim.c", "simnet.c", "gluelog.c", "drv_input.c"]
INR = {"rc": ["src/radarcape/rc-parser.c", "src/core/recv.c", "src/core/filter.c", "src/core/beast.c"],
       "tr": ["src/trimble/trimble_parser.c", "src/trimble/trimble_recv.c"]}
IND = {"rcnet": ("src/radarcape/network.c", ["-DINPUT_RADARCAPE_NETWORK", "-DDRV_NET"]),
       "rcuart": ("src/radarcape/uart.c", ["-DINPUT_RADARCAPE_UART"]),
       "trnet": ("src/trimble/trimble_input_network.c", ["-DDRV_TR", "-DDRV_NET"]),
       "truart": ("src/trimble/trimble_input_uart.c", ["-DDRV_TR"])}


def inputs(c, k, flavor="asan"):
    src, fl = IND[k]
    return c.build("in" + k, INP, repo=INR[k[:2]] + [src, "src/util/*.c", "src/util/port/*.c"], cflags=fl, flavor=flavor)


@check("I05")
def i05(c):
    c.model("MCIn")
    for k, what in (("rcuart", "receiver at the UART"), ("rcnet", "receiver by network"),
                    ("truart", "GPS receiver at the UART"), ("trnet", "GPS receiver by network")):
        b = inputs(c, k)
        c.conform("InTrace", b, ["--n", c.pick(60, 2000), "--extra", "x"],
                  what=k + ": " + what + ", devices and connections which fail at every call, end at any moment")
        c.conform("InTrace", b, ["--n", c.pick(40, 1500), "--extra", "other"],
                  what=k + ": the same with another part of the program using descriptors")
    b = inputs(c, "rcuart")
    c.conform("InTrace", b, ["--n", c.pick(120, 5000), "--extra", "set,other"],
              what="rcuart: settings changed at any moment")
    b = inputs(c, "rcnet")
    c.conform("InTrace", b, ["--n", c.pick(30, 1000), "--extra", "set,other"],
              what="rcnet: settings changed at any moment")


@check("I06")
def i06(c):
    c.model("MCDummy")
    fl = ["-ftrivial-auto-var-init=pattern"]
    b = c.build("dummyrc", ["sim.c", "gluelog.c", "drv_dummy.c"], repo=INR["rc"] + ["src/radarcape/dummy.c", "src/util/*.c", "src/util/port/*.c"],
                cflags=["-DD_RC", "-DINPUT_RADARCAPE_DUMMY"] + fl)
    c.conform("DummyTrace", b, ["--n", c.pick(60, 3000), "--extra", "raw"],
              what="simulated receiver: every frame read, at any time of the day, until the component is stopped at any moment")
    c.conform("DummyTrace", b, ["--n", c.pick(60, 3000), "--extra", "x"],
              what="simulated receiver: what passes the filter in front of the queue")
    b = c.build("dummytr", ["sim.c", "gluelog.c", "drv_dummy.c"], repo=INR["tr"] + ["src/trimble/trimble_input_dummy.c", "src/util/*.c", "src/util/port/*.c"],
                cflags=fl)
    c.conform("DummyTrace", b, ["--n", c.pick(30, 1000), "--extra", "x"], what="simulated GPS receiver: nothing until it is stopped")


def cfg(c):
    return c.build("cfg", ["sim.c", "gluelog.c", "drv_cfg.c"],
                   repo=["src/util/cfgfile.c", "src/util/util.c", "src/util/port/*.c"])


@check("F01")
def f01(c):
    c.model("MCCfg", c.pick("MCCfg", "MCCfg4"))
    b = cfg(c)
    c.conform("CfgTrace", b, ["--n", 1, "--extra", c.pick("enum4", "enum5")],
              what="all files of %d bytes of []=a#1, space, LF and CR, alone and behind a section" % c.pick(4, 5))
    c.conform("CfgTrace", b, ["--n", c.pick(500, 20000), "--extra", "read"],
              what="random files of known and unknown sections and options, values of all types, good and bad")


@check("F02")
def f02(c):
    c.model("MCCfg", c.pick("MCCfg", "MCCfg4"))
    b = cfg(c)
    c.conform("CfgTrace", b, ["--n", c.pick(500, 15000), "--extra", "x"],
              what="random values written (all sections or one) and read back, failing writes, directories, setters")


MAINS = {"rc-uart": ["RC", "INPUT_RADARCAPE_UART", "STANDALONE", "WITH_SYSTEMD", "WITH_PACMAN"],
         "rc-net": ["RC", "INPUT_RADARCAPE_NETWORK"], "rc-dummy": ["RC", "INPUT_RADARCAPE_DUMMY"],
         "dump": [], "donated": ["DUMP1090_DONATED"], "kit": ["DUMP1090_KIT"]}


def mainbin(c, v):
    src = ["src/radarcape/main.c"] if v.startswith("rc") else ["src/dump1090/dump1090.c", "src/dump1090/position.c"]
    if v == "dump":
        src.append("src/dump1090/devtype.c")
    return c.build("main-" + v, ["sim.c", "gluelog.c", "drv_main.c"],
                   repo=src + ["src/util/component.c", "src/util/cfgfile.c", "src/util/util.c", "src/util/port/*.c"],
                   cflags=["-D" + d for d in MAINS[v]] + ["-Dmain=prog_main", '-DSYSCONFDIR="etc"', '-DLOCALSTATEDIR="var"',
                                                          '-DVARIANT="%s"' % v])


@check("D01")
def d01(c):
    c.model("MCStart")
    for v in MAINS:
        c.conform("StartTrace", mainbin(c, v), ["--n", c.pick(80, 4000)],
                  what=v + ": main() with random configurations, arguments and failing parts")


@check("P01")
def p01(c):
    c.model("MCPkg")
    # the options the daemon of each package reads: as recorded from the real code
    key = lambda o: (bytes(o["sec"]).lower(), bytes(o["name"]).lower())
    serial = {"sec": list(b"DEVICE"), "name": list(b"serial"), "type": "int", "max": 0, "giv": 1, "def": [48]}    # see S02
    f = {}
    for p, v in (("opensky-feeder", "dump"), ("opensky-feeder-donated", "donated"), ("opensky-feeder-kit", "kit")):
        metas = (json.loads(l)["meta"] for l in open(c.run(mainbin(c, v), "--n", 20)[1]))
        opts = next(m["opts"] for m in metas if "opts" in m)
        f[p] = opts + [serial][:key(serial) not in map(key, opts)]
    os.environ["PKG_META"] = json.dumps(f)
    c.conform("PkgTrace", os.path.join(HARN, "pkg.py"), ["--n", c.pick(1000, 20000)],
              what="histories of installing, upgrading, reconfiguring and removing with administrators who make mistakes")


@check("S02")
def s02(c):
    c.model("MCSer")
    for k, f in (("ser", []), ("serl", ["-DLOCAL_FILES"])):
        b = c.build(k, ["sim.c", "gluelog.c", "drv_ser.c"], cflags=f,
                    repo=["src/util/serial_eth.c", "src/util/cfgfile.c", "src/util/util.c", "src/util/component.c",
                          "src/util/port/*.c", "src/core/login.c", "src/core/beast.c"])
        c.conform("SerTrace", b, ["--n", c.pick(400, 20000)],
                  what=k + ": lookups, configurations, restarts and logins with every failure of the lookups")
    for v in ("rc-uart", "rc-net"):
        c.conform("StartTrace", mainbin(c, v), ["--n", c.pick(80, 4000)],
                  what=v + ": main() with and without a serial number")


LIB = ["sim.c", "gluelog.c", "lib_shim.cc", "drv_lib.c"]


@check("L01")
def l01(c):
    for v, src in (("Gp", "src/gplib/opensky.cc"), ("Rc", "src/radarcape/lib/opensky.cc")):
        b = c.build("lib" + v, LIB, repo=[src, "src/core/filter.c", "src/core/buffer.c", "src/core/gps.c", "src/core/beast.c",
                                          "src/util/*.c", "src/util/port/*.c"], cflags=["-D" + v.upper()], cxx=True)
        c.model("MCLib", "MCLib%s.cfg" % v)
        nodes, edges, inits = c.graph("MCLib", "MCLib%s.cfg" % v)
        lab = {n: re.search(r'last = "(\w+)"', t).group(1) for n, t in nodes.items()}
        f = os.path.join(c.work, "lib%s.script" % v)
        with open(f, "w") as o:
            for p in cover_paths(nodes, [(a, x, lab[x]) for a, x, _ in edges], inits, maxlen=200):
                o.write(" ".join(p) + "\n")
        c.conform("LibTrace", b, ["--n", 1, "--extra", "script", "--script", f],
                  what="every transition of the model MCLib replayed on the real library (%s)" % v)
        c.conform("LibTrace", b, ["--n", c.pick(100, 3000)], what="random histories of calls (%s)" % v)
        if v == "Gp":
            c.conform("LibTrace", b, ["--n", 1, "--extra", c.pick("times", "timesx")], what="time stamps of the whole day")


LIST = ["sim.c", "gluelog.c", "drv_list.c"]


@check("U01")
def u01(c):
    c.model("MCList", c.pick("MCListD.cfg", "MCListDT.cfg"))
    c.model("MCList", "MCListS.cfg")
    bins = [c.build("list", LIST, repo=["src/core/beast.c"]),
            c.build("listc", LIST, repo=["src/core/beast.c"], cflags=["-DNOGENERIC"])]
    for g in ("MCListGD", "MCListGS"):
        rc, out, (gen, dist) = c.tlc("MCList", g + ".cfg", workers=1)
        if rc:
            raise Broken("model %s fails:\n%s" % (g, out[-3000:]))
        edges = sorted(set(re.findall(r'"EDGE\|(.*?)\|(.*?)\|(.*?)"', out)))
        ids = {}
        e = [(ids.setdefault(a, len(ids)), ids.setdefault(b, len(ids)), o) for a, o, b in edges]
        ini = [i for a, i in ids.items() if not re.search(r"\d|TRUE", a)]
        c.cov["models"].append({"model": "MCList", "cfg": g + ".cfg", "distinct_states": dist, "transitions": gen, "graph_edges": len(e)})
        f = os.path.join(c.work, g + ".script")
        with open(f, "w") as o:
            for p in cover_paths(ids, e, ini, maxlen=100):
                o.write(" ".join(p) + "\n")
        for b, x in zip(bins, ("every flavour", "without generic selection")):
            c.conform("ListTrace", b, ["--n", 1, "--extra", "script,dbl" if g == "MCListGD" else "script", "--script", f],
                      what="every transition of the model MCList (%s) replayed on the real lists, %s" % (g, x))
    for b, x in zip(bins, ("every flavour", "without generic selection")):
        c.conform("ListTrace", b, ["--n", c.pick(100, 4000)], what="random histories on three lists, %s" % x)


@check("W01")
def w01(c):
    c.model("MCGpio")
    b = c.build("gpio", ["sim.c", "gluelog.c", "drv_gpio.c"], flavor="mem", cflags=["-Dmain=wd_main"],
                repo=["src/radarcape/gpio.c", "src/radarcape/watchdog.c", "src/radarcape/wd-main.c", "src/util/util.c", "src/util/port/*.c"])
    c.conform("GpioTrace", b, ["--n", c.pick(100, 3000)], what="pins, watchdog and its daemon on simulated controllers")
    c.conform("GpioTrace", b, ["--n", c.pick(200, 4000), "--extra", "x,mem"], what="the same with preemption at every access of a register")
    c.conform("GpioTrace", b, ["--n", c.pick(1, 20), "--extra", "x,all"], what="every operation on every pin")


@check("W02")
def w02(c):
    b = c.build("fpga", ["sim.c", "gluelog.c", "drv_fpga.c"], cflags=['-DFWDIR="fw"'],
                repo=["src/radarcape/fpga.c", "src/util/cfgfile.c", "src/util/util.c", "src/util/port/*.c"])
    f = os.path.join(c.work, "fpga.script")
    with open(f, "w") as o:
        for g in ("MCFpga.cfg", "MCFpgaG.cfg"):
            nodes, edges, inits = c.graph("MCFpga", g)
            lab = {n: re.search(r'last = "(.)"', t).group(1) for n, t in nodes.items()}
            for p in cover_paths(nodes, [(a, x, lab[x]) for a, x, _ in edges], inits, maxlen=300):
                o.write("".join(x for x in p if x != "-") + "\n")
    c.conform("FpgaTrace", b, ["--n", 1, "--extra", "script", "--script", f],
              what="every transition of the model MCFpga replayed against the real code")
    c.conform("FpgaTrace", b, ["--n", c.pick(60, 2000)], what="random devices, files and firmware directories")


STDIO = ["-U_GNU_SOURCE", "-D_DEFAULT_SOURCE", "-D__NO_INLINE__", "-U_FORTIFY_SOURCE"]


@check("R01")
def r01(c):
    c.model("MCLog", c.pick("MCLog.cfg", "MCLogT.cfg"))
    for n, h, r, fl in (("log", ["sim.c", "drv_log.c"], "src/util/log_stdio.c", STDIO),
                        ("logGp", ["sim.c", "log_shim.cc", "drv_log.c"], "src/gplib/log_lib.cc", ["-DLIB", "-DGP", "-U_FORTIFY_SOURCE"]),
                        ("logRc", ["sim.c", "log_shim.cc", "drv_log.c"], "src/radarcape/lib/log_lib.cc", ["-DLIB", "-U_FORTIFY_SOURCE"])):
        b = c.build(n, h, repo=[r], cflags=fl, cxx=r.endswith(".cc"))
        c.conform("LogTrace", b, ["--n", c.pick(150, 4000)], what="threads logging and being cancelled, %s" % r)


@check("R02")
def r02(c):
    b = c.build("stat", ["sim.c", "drv_stat.c"], repo=["src/util/statistics.c", "src/util/util.c"], cflags=STDIO)
    c.conform("StatTrace", b, ["--n", c.pick(100, 3000)], what="reports of changing counters in virtual time")


@check("T03")
def t03(c):
    c.model("MCFd")
    for k, src in (("uart", ["src/radarcape/uart.c", "src/trimble/trimble_input_uart.c"]),
                   ("net", ["src/radarcape/network.c", "src/trimble/trimble_input_network.c"])):
        b = c.build("fd-" + k, ["sim.c", "gluelog.c", "drv_fd.c"],
                    repo=src + ["src/util/net_common-posix.c", "src/util/cfgfile.c", "src/util/component.c", "src/util/serial_eth.c",
                                "src/util/proc.c", "src/util/util.c", "src/util/port/*.c", "src/radarcape/gpio.c",
                                "src/radarcape/fpga.c", "src/radarcape/tb-misc.c", "src/radarcape/tb-rshell.c"],
                    cflags=['-DFWDIR="fw"', '-DWITH_SYSTEMD="/usr/bin"', "-DWITH_PACMAN"])
        c.conform("FdTrace", b, ["--n", c.pick(400, 20000)],
                  what=k + ": everything that opens descriptors, programs started at any of its system calls")


BUFT = "TLA+ specification (Buffer.tla) model checked with TLC; "
NETT = "TLA+ model of the network algorithm (MCNet.tla) checked with TLC against the promises of Net.tla; "
FEEDT = ("TLA+ specification of the feed (Feed.tla, FeedTrace.tla): recorded executions of the whole real feed on a "
         "simulated network and input, in virtual time, with random schedules and faults, validated with TLC")
FEEDN = "sampled schedules, faults, life cycles and configurations of the real code under a deterministic scheduler"
NOTES = {
    "N01": (NETT + "recorded executions of the real code on a simulated network in virtual time validated against "
            "Net.tla with TLC (NetTrace.tla)",
            "exhaustive for the model within its constants; sampled schedules, transfers and faults for the code"),
    "N02": (NETT + "recorded executions of the real code (random, preemption at memory accesses, systematic with "
            "few deviations) validated against Net.tla with TLC",
            "exhaustive for the model within its constants; sampled and deviation-bounded schedules for the code"),
    "N03": (NETT + "recorded executions of the real code in virtual time validated against Net.tla with TLC",
            "exhaustive for the model within its constants; sampled faults for the code"),
    "B01": (BUFT + "edge-cover behaviours of the model replayed on the real buffer and recorded sequential and "
            "concurrent executions validated against the specification (linearizability) with TLC",
            "exhaustive for the model within its constants; sampled and systematically enumerated schedules for the code"),
    "B02": (BUFT + "edge-cover behaviours replayed, recorded histories with complete statistics validated with TLC",
            "exhaustive for the model within its constants; sampled histories for the code"),
    "B03": (BUFT + "recorded histories with allocation accounting and automatic collection validated with TLC",
            "exhaustive for the model within its constants; sampled histories for the code"),
    "B04": (BUFT + "recorded concurrent executions in virtual time (random and preemption-bounded schedules, "
            "cancellation) validated with TLC",
            "sampled and preemption-bounded schedules of the real code under a deterministic scheduler"),
    **{p: ("TLA+ model of the component manager (MCComp.tla) checked with TLC against the rules of Comp.tla; recorded "
           "life cycles of the real manager validated against them with TLC (CompTrace.tla)",
           "exhaustive for the model within its constants; all component sets of size three and sampled larger sets, "
           "faults and histories for the code") for p in ("C01", "C02")},
    "T01": ("TLA+ model of the receive loop (MCTb.tla) checked with TLC against the meaning of the bytes of a connection; "
            "its transitions replayed on the real code, recorded executions validated with TLC (TbTrace.tla, FeedTrace.tla)",
            "exhaustive for the model within its constants and replayed completely; sampled longer streams"),
    "T02": ("TLA+ trace specification of the dispatcher, the filter packet and the started processes (TbTrace.tla); "
            "recorded executions of the real code, process calls recorded, validated with TLC",
            "all settings of the filter packet; sampled packets and process failures"),
    "G01": ("TLA+ model of the position algorithm (MCGps.tla) checked with TLC; all short histories and random concurrent "
            "histories of the real code validated (linearizability) with TLC (GpsTrace.tla, FeedTrace.tla)",
            "all sequential histories up to the bound; sampled schedules for the code"),
    "I01": ("TLA+ specification of the byte stream (Rc.tla), consequences model checked with TLC (MCRc.tla); the control "
            "states of the reader with real lengths (MCRcG.tla) replayed completely, recorded executions validated with TLC",
            "exhaustive for the model within its bounds and for the control states of the code; sampled longer streams"),
    "I02": ("TLA+ specification of escaping, reversibility model checked with TLC (MCEsc.tla, MCRc.tla); outputs of the "
            "real encoder and round trips through the real reader validated with TLC",
            "all short strings over a small alphabet, sampled longer ones"),
    "I03": ("TLA+ specification of filter and statistics (Filter.tla), model checked with TLC, its transitions replayed on "
            "the real filter, recorded histories validated with TLC (FilterTrace.tla)",
            "all settings, frame types and first bytes; sampled histories"),
    "M01": ("TLA+ specification of the GPS receiver's byte stream (Tr.tla), model checked with TLC, its transitions replayed "
            "on the real reader and recorded reads validated with TLC (TrTrace.tla)",
            "exhaustive for the model within its bounds; all short strings over a small alphabet, sampled streams and reads"),
    "M02": ("TLA+ specification of the timing packet and the receiver's loop (Tr.tla, TrTrace.tla): recorded executions of "
            "the real loop validated with TLC", "all values of each field on its own, sampled combinations and histories"),
    "I06": ("TLA+ model of source, filter and queue (MCDummy.tla) checked with TLC; TLA+ trace specification of the simulated receivers "
            "(Dummy.tla, DummyTrace.tla) accepting or rejecting recorded executions of the real reader and receiving loop on the real "
            "simulated inputs in virtual time",
            "exhaustive for the model; sampled histories for the code; random numbers are replaced by the driver's (also extreme ones); uninitialized memory is made recognizable by the compiler"),
    "I05": ("TLA+ model of the loop, the settings and the descriptors (MCIn.tla) checked with TLC; TLA+ trace specification of "
            "the inputs (InTrace.tla): recorded executions of the real loops and devices on a simulated terminal and network "
            "in virtual time validated with TLC",
            "exhaustive for the model; sampled faults, schedules and moments of the end for the code"),
    "F01": ("TLA+ specification of the meaning of a configuration file (Cfg.tla), its laws checked with TLC over all files of a "
            "pool of lines (MCCfg.tla); recorded reads of the real code validated against it with TLC (CfgTrace.tla)",
            "exhaustive for the model's files and for the enumerated files of few bytes; sampled larger files"),
    "F02": ("TLA+ specification of configuration files (Cfg.tla) with what is written being read back checked with TLC "
            "(MCCfg.tla); recorded writes, reads, failures and directories of the real code validated with TLC (CfgTrace.tla)",
            "exhaustive for the model within its constants; sampled values, directories and failures for the code"),
    "D01": ("TLA+ model of coming up and going down (Start.tla) checked with TLC (MCStart.tla); recorded runs of the real main() of "
            "all six variants with random configurations and failures validated against it with TLC (StartTrace.tla)",
            "exhaustive for the model; sampled configurations and failures for the code, the parts are stubs"),
    "S02": ("TLA+ model of the serial number over lookups, failures, configurations and restarts (SerEth.tla, MCSer.tla) checked "
            "with TLC; recorded histories of the real lookup, configuration and login validated with TLC (SerTrace.tla, StartTrace.tla)",
            "exhaustive for the model within its constants; sampled histories for the code with the kernel interfaces replaced"),
    "L01": ("TLA+ model of the feeder libraries (MCLib.tla) checked with TLC, all its transitions replayed on both real libraries; "
            "recorded histories validated with TLC (Lib.tla, LibTrace.tla: queued bytes, time stamps, positions)",
            "exhaustive for the model within its constants and replayed completely; sampled frames, time stamps and histories"),
    "U01": ("TLA+ model of the list algorithms on links (MCList.tla) checked with TLC against sequences (List.tla), all its "
            "transitions replayed on every flavour of the real lists, recorded random histories validated with TLC (ListTrace.tla)",
            "exhaustive for the model within its constants and replayed completely; sampled longer histories"),
    "W01": ("TLA+ specification of the GPIO controllers (Gpio.tla, model MCGpio.tla checked with TLC); recorded accesses of the real "
            "code to simulated controllers validated against it with TLC (GpioTrace.tla)",
            "exhaustive for the model and for single operations on every pin; sampled schedules, failures and histories"),
    "W02": ("TLA+ model of programming the FPGA (MCFpga.tla) checked with TLC against the device's view (Fpga.tla), all its "
            "transitions replayed on the real code, recorded random programming validated with TLC (FpgaTrace.tla)",
            "exhaustive for the model within its constants and replayed completely; sampled files, devices and failures"),
    "R01": ("TLA+ model of threads sharing a log (MCLog.tla) checked with TLC; recorded executions of the three real logs, every "
            "piece of output being a scheduling and cancellation point, validated with TLC (Log.tla, LogTrace.tla)",
            "exhaustive for the model within its constants; sampled messages, schedules and cancellations for the code"),
    "R02": ("TLA+ specification of the report (Stat.tla: every line and number as a function of the counters and of time); recorded "
            "executions of the real component in virtual time validated with TLC (StatTrace.tla)",
            "sampled counters, intervals and cancellations"),
    "T03": ("TLA+ model of threads opening descriptors while another one starts programs (MCFd.tla) checked with TLC; recorded "
            "executions of all real openers and starters, the descriptor table being read after every system call, validated with "
            "TLC (Fd.tla, FdTrace.tla)",
            "exhaustive for the model within its constants; sampled histories, failures and moments for the code"),
    "P01": ("TLA+ specification of the questionnaire (Pkg.tla, model MCPkg.tla checked with TLC, including that it ends) and of the "
            "packages' life (PkgTrace.tla, what is written read back with Cfg.tla); recorded histories of the real maintainer "
            "scripts with a simulated debconf and administrator validated with TLC",
            "exhaustive for the model; sampled answers and histories for the scripts, account commands are stand-ins"),
    **{p: (FEEDT, FEEDN) for p in ("N04", "N05", "N06", "S01", "I04", "G02")},
}
