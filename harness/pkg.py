#!/usr/bin/env python3
"""Runs the packages' real maintainer scripts (debian/*.config, *.postinst, *.postrm) and plays debconf, dpkg and the
administrator. The scripts run as an unprivileged user, /var/lib is a scratch directory, and the programs which would change
accounts are stand-ins that only record what they were told. One JSON object per history is written."""
import argparse, json, os, random, re, select, shutil, signal, subprocess, tempfile, time
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get("OSK_REPO", "/repo")
UID = GID = 65534
FLAVOURS = ["opensky-feeder", "opensky-feeder-donated", "opensky-feeder-kit"]
Q = ["latitude", "longitude", "altitude", "dump1090branch", "username", "serial", "port", "host"]
PRIO = {"low": 4, "medium": 3, "high": 2, "critical": 1}
GOOD = {
    "latitude": ["48.1234", "-48.1234", "+90", "90", "-90.0", "0", ".5", "48.", "007.5", "89.999999", "-0", "-.25", "90."],
    "longitude": ["8.1234", "-8.1234", "+180", "180", "-180.000", "0", ".5", "179.", "007.5", "-179.999999", "91", "100"],
    "altitude": ["123", "-12.5", "0", "8848.86", "+3", "100000", "5.", "-.5"],
    "dump1090branch": ["default", "hptoa"],
    "username": ["", "user", "resu", "User", "a" * 40, "b" * 40, "a" * 39, "a b", "x#y;z=[q]", "\u00fcmlaut", "$HOME", "`id`", "a\\b", "a'b\"c", "0"],
    "serial": ["", "0", "1", "4294967295", "0010", "+7", "-0", "1234567", "089", "00", "2147483648", "017"],
    "port": ["", "1", "65535", "30005", "+30005", "0080", "08080", "010"],
    "host": ["", "localhost", "192.168.1.2", "::1", "my-host.example.org", "host name", "$HOST", "a\\nb"],
}
BAD = {
    "latitude": ["", "91", "-90.1", "abc", "48,5", "48.5.6", "1e1", "+", ".", " 48", "--4", "1000", "nan", "inf", "90.0001",
                 "0x10", "N48", "-", "-91", "48d"],
    "longitude": ["", "181", "-180.1", "abc", "8,5", "8.5.6", "1e1", "+.", ".", " 8", "--4", "1000", "nan", "180.001", "-181"],
    "altitude": ["", "12m", "1e3", "-", "abc", "1,5", "0x5", "1.2.3", "inf"],
    "dump1090branch": ["default"],
    "username": ["a" * 41, "b" * 64, "\u00fc" * 21],
    "serial": ["-1", "4294967296", "99999999999", "12a", "0x10", "1.5", " 5", "abc", "-", "+", "18446744073709551617"],
    "port": ["0", "65536", "-1", "80a", "1.5", "-30005", "00", "100000", "x", "0x50", "+"],
    "host": [""],
}


def b(s):
    return list(s.encode("utf8", "surrogateescape"))


def templates(path):
    """name -> (type, default)"""
    t, cur = {}, None
    for l in open(path, encoding="utf8"):
        m = re.match(r"(Template|Type|Default):\s*(.*?)\s*$", l)
        if m and m.group(1) == "Template":
            cur = m.group(2)
            t[cur] = ["string", ""]
        elif m and cur:
            t[cur][0 if m.group(1) == "Type" else 1] = m.group(2)
    return t


class History:
    def __init__(self, seed, scen, root):
        self.r = random.Random(seed)
        self.fl = self.r.choice(FLAVOURS)
        self.d = os.path.join(root, "h%d" % scen)
        self.home = self.d + "/var/lib/openskyd"
        self.ev = []
        for p in ("var/lib", "bin", "st"):
            os.makedirs(os.path.join(self.d, p))
        for k in ("config", "postinst", "postrm"):
            s = open("%s/debian/%s.%s" % (REPO, self.fl, k), encoding="utf8", errors="surrogateescape").read()
            s = s.replace("/var/lib/", self.d + "/var/lib/")
            self.put("scr." + k, s)
        self.stubs()
        os.chmod(self.d, 0o755)
        for x, ds, fs in os.walk(self.d):
            os.chown(x, UID, GID)
            for f in fs:
                os.chown(os.path.join(x, f), UID, GID)
        self.t = templates("%s/debian/%s.templates" % (REPO, self.fl))
        self.forget()
        self.questions = [q for q in Q if "openskyd/" + q in self.t and (q != "dump1090branch" or self.fl == FLAVOURS[0])]

    def forget(self):
        self.val = {n: x[1] for n, x in self.t.items()}
        self.seen = {n: False for n in self.t}

    def put(self, name, text):
        p = os.path.join(self.d, name)
        with open(p, "w", encoding="utf8", errors="surrogateescape") as o:
            o.write(text)
        os.chmod(p, 0o755)

    def stubs(self):
        st, log = self.d + "/st", self.d + "/st/log"
        rec = 'printf "%%s\\0" "${0##*/}" "$@" >> %s; printf "\\1" >> %s\n' % (log, log)
        name = 'for x; do case "$x" in openskyd) l=openskyd;; esac; done; [ -n "$l" ] || exit 1\n'
        for n, body in (
                ("addgroup", name + ": > %s/group.$l" % st), ("adduser", name + ": > %s/passwd.$l" % st),
                ("groupadd", name + ": > %s/group.$l" % st), ("useradd", name + ": > %s/passwd.$l" % st),
                ("deluser", name + "rm -f %s/passwd.$l" % st), ("delgroup", name + "rm -f %s/group.$l" % st),
                ("userdel", name + "rm -f %s/passwd.$l" % st), ("groupdel", name + "rm -f %s/group.$l" % st),
                ("id", 'for x; do case "$x" in -*) ;; *) if [ -e %s/passwd.$x ]; then echo 999; exit 0; else exit 1; fi;; esac; done\n' % st +
                 'exec /usr/bin/id "$@"'),
                ("usermod", ":"), ("chown", ":"), ("chgrp", ":"), ("systemctl", ":"),
                ("dpkg-statoverride", "[ -e %s/override ] && echo openskyd adm 2750 %s" % (st, self.home)),
                ("getent", 'if [ -n "$2" ]; then [ -e %s/$1.$2 ] && echo "$2:x:1:" || exit 2\n' % st +
                 'else echo root:x:0:; echo daemon:x:1:; echo xopenskyd:x:2:; for f in %s/$1.*; do [ -e "$f" ] && echo "${f##*.}:x:9:"; '
                 'done; echo nogroup:x:65534:; fi; exit 0' % st)):
            self.put("bin/" + n, "#!/bin/sh\n" + (rec if n not in ("getent", "id") else "") + body + "\n")

    def calls(self):
        p = self.d + "/st/log"
        if not os.path.exists(p):
            return []
        x = open(p, "rb").read().decode("utf8", "replace")
        os.unlink(p)
        return [c.split("\0")[:-1] for c in x.split("\1")[:-1]]

    # ---- debconf's side of the protocol
    def talk(self, script, args, thr, ni, reshow, answer, kill=0):
        env = {"PATH": self.d + "/bin:/usr/bin:/bin", "DEBIAN_HAS_FRONTEND": "1", "LC_ALL": "C", "HOME": self.d}
        if reshow:
            env["DEBCONF_RECONFIGURE"] = "1"
        p = subprocess.Popen([self.d + "/scr." + script] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=env, cwd=self.d + "/var", user=UID, group=GID, extra_groups=[],
                             start_new_session=True)
        # the debconf of a maintainer script which is given away to the shell's library has its second stream at 5
        busy, shown, gos, end = [], set(), 0, time.monotonic() + 300
        asked = set()
        why, buf = None, b""
        while why is None:
            if not select.select([p.stdout], [], [], max(0, end - time.monotonic()))[0]:
                why = "hang"
                break
            x = os.read(p.stdout.fileno(), 4096)
            if not x:
                break
            buf += x
            while b"\n" in buf and why is None:
                l, buf = buf.split(b"\n", 1)
                w = l.decode("utf8", "surrogateescape").split(" ")
                c, a = w[0].upper(), w[1:]
                rc, txt = 0, ""
                n = a[0] if a else ""
                if c == "STOP":
                    why = "stop"
                    break
                elif c == "VERSION":
                    txt = "2.0"
                elif c == "CAPB":
                    txt = "multiselect"
                elif c == "INPUT":
                    n = a[1] if len(a) == 2 else ""
                    if n not in self.t or a[0] not in PRIO:
                        rc, txt = 10, "bad"
                    else:
                        vis = not ni
                        if self.t[n][0] != "error":
                            vis = vis and PRIO[a[0]] <= thr and (reshow or not self.seen[n])
                        rc, txt = (0, "question will be asked") if vis else (30, "question skipped")
                        if vis and n not in busy:
                            busy.append(n)
                elif c == "GO":
                    gos += 1
                    if gos > 60:
                        why = "loop"
                        break
                    if busy:
                        if kill and gos == kill:
                            why = "killed"
                            break
                        answer([x for x in busy if self.t[x][0] != "error"], gos)
                        shown |= set(busy)
                        self.screen(busy)
                        busy = []
                    txt = "ok"
                elif c in ("GET", "RESET", "SET", "FSET", "FGET", "TITLE", "SETTITLE", "METAGET", "BEGINBLOCK", "ENDBLOCK",
                           "PURGE", "INFO", "SUBST", "REGISTER", "UNREGISTER", "X_LOADTEMPLATEFILE"):
                    if c in ("GET", "RESET", "SET", "FSET", "FGET", "METAGET") and n not in self.t:
                        rc, txt = 10, "doesn't exist"
                    elif c == "GET":
                        txt = self.val[n]
                    elif c == "RESET":
                        self.val[n] = self.t[n][1]
                        self.seen[n] = False
                    elif c == "SET":
                        self.val[n] = " ".join(a[1:])
                    elif c == "FSET" and len(a) == 3:
                        if a[1] == "seen":
                            self.seen[n] = a[2] == "true"
                        txt = a[2]
                    elif c == "FGET":
                        txt = "true" if self.seen[n] else "false"
                    elif c == "PURGE":
                        self.purged = True
                else:
                    rc, txt = 20, "unsupported"
                try:
                    p.stdin.write(("%d %s\n" % (rc, txt)).encode("utf8", "surrogateescape"))
                    p.stdin.flush()
                except BrokenPipeError:
                    break
        if why in ("hang", "loop", "killed"):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        try:
            rc = p.wait(timeout=300)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            rc, why = p.wait(), "hang"
        p.stdin.close() if not p.stdin.closed else None
        p.stdout.close()
        if why not in ("hang", "loop", "killed"):
            for x in shown:
                self.seen[x] = True
            why = "end"
        return why, rc

    def db(self):
        return {q: b(self.val["openskyd/" + q]) for q in self.questions}

    def sn(self):
        return [q for q in self.questions if self.seen["openskyd/" + q]]

    def screen(self, busy):
        q = [x[9:] for x in busy]
        self.ev.append({"e": "screen", "q": [x for x in q if self.t["openskyd/" + x][0] != "error"],
                        "err": [x for x in q if self.t["openskyd/" + x][0] == "error"], "db": self.db()})

    # ---- the administrator
    def pool(self, q, good):
        return self.r.choice((GOOD if good else BAD)[q])

    def answer(self, qs, rnd):
        for x in qs:
            q = x[9:]
            if q not in GOOD:
                continue
            if self.r.random() < .25 and rnd < 6:
                continue        # takes what is offered
            self.val[x] = self.pool(q, rnd > 6 or self.r.random() < .75)

    def files(self):
        cd = self.home + "/conf.d"
        r = {}
        for f in sorted(os.listdir(cd)) if os.path.isdir(cd) else []:
            r[f] = list(open(os.path.join(cd, f), "rb").read())
        return r

    def state(self):
        st = self.d + "/st/"
        f = self.files()
        return {"dir": int(os.path.isdir(self.home)), "mode": os.stat(self.home).st_mode & 0o7777 if os.path.isdir(self.home) else 0,
                "conf": f.pop("10-debconf.conf", []), "hasconf": int(os.path.exists(self.home + "/conf.d/10-debconf.conf")),
                "s10": f.pop("10-serial.conf", []), "s05": f.pop("05-serial.conf", []),
                "other": [{"f": k, "b": v} for k, v in sorted(f.items())],
                "user": int(os.path.exists(st + "passwd.openskyd")), "group": int(os.path.exists(st + "group.openskyd"))}

    def own(self):
        """0: nobody was given anything; 1: everything below the home directory was given to openskyd:adm; 2: something else"""
        u = g = None
        r = 0
        for c in self.calls():
            if c[0] not in ("chown", "chgrp"):
                continue
            r = 2
            rec = any(x == "--recursive" or re.match(r"-\w*R", x) for x in c[1:])
            a = [x for x in c[1:] if not x.startswith("-")]
            if not a or not all(x.rstrip("/") == self.home or x.startswith(self.home + "/") for x in a[1:]):
                return 2
            if not rec or self.home not in [x.rstrip("/") for x in a[1:]]:
                continue
            w = a[0].replace(".", ":").split(":") if c[0] == "chown" else ["", a[0]]
            u = w[0] or u
            g = w[1] if len(w) > 1 and w[1] else g
        return 1 if (u, g) == ("openskyd", "adm") else r

    def run(self):
        r, installed, version = self.r, False, ""
        if r.random() < .3:
            for f in ("passwd", "group"):
                if r.random() < .7:
                    open(self.d + "/st/%s.openskyd" % f, "w").close()
        over = int(r.random() < .25)
        if over:
            open(self.d + "/st/override", "w").close()
        self.ev.append(dict({"e": "begin", "over": over, "db": self.db(), "seen": self.sn()}, **self.state()))
        for _ in range(r.randint(1, 6)):
            ops = ["reconf", "upgrade", "upgrade", "remove", "purge", "daemon", "daemon", "preseed"] if installed else \
                ["install", "install", "install", "preseed"] + (["purge"] if version else [])
            op = r.choice(ops)
            if op == "preseed":
                for q in self.questions:
                    if r.random() < .5:
                        self.val["openskyd/" + q] = self.pool(q, r.random() < .8)
                        self.seen["openskyd/" + q] = r.random() < .8
                self.ev.append({"e": "preseed", "db": self.db(), "seen": self.sn()})
            elif op == "daemon":
                # the daemon stores the serial number it was given, the administrator adds files
                n = r.choice(["10-serial.conf", "10-serial.conf", "05-serial.conf", "05-serial.conf", "99-mine.conf", "00-mine.conf"])
                p = self.home + "/conf.d/" + n
                with open(p, "wb") as o:
                    o.write(b"[Device]\nserial = %d\n" % r.randint(1, 99))
                os.chown(p, UID, GID)
                self.ev.append(dict({"e": "daemon"}, **self.state()))
            elif op in ("remove", "purge"):
                self.purged = False
                self.calls()
                why, rc = self.talk("postrm", [op], 1, True, False, self.answer)
                if self.purged:
                    self.forget()
                self.calls()
                self.ev.append(dict({"e": op, "why": why, "rc": rc, "purged": int(self.purged)}, **self.state()))
                installed = False
                if op == "purge":
                    version = ""
                if why != "end":
                    break
            else:
                thr, ni, re_ = r.choice([1, 2, 2, 2, 3, 4]), r.random() < .15, op == "reconf"
                self.ev.append({"e": "run", "op": op, "thr": thr, "ni": int(ni), "reshow": int(re_), "from": int(version != "")})
                save = (dict(self.val), dict(self.seen))
                why, rc = self.talk("config", ["reconfigure" if re_ else "configure", version], thr, ni, re_, self.answer,
                                    r.randint(1, 3) if r.random() < .07 else 0)
                if why == "killed":
                    self.val, self.seen = save
                self.ev.append({"e": why, "rc": rc, "db": self.db(), "seen": self.sn()})
                if why in ("loop", "hang"):
                    break
                if why == "killed":
                    continue
                self.calls()
                why, rc = self.talk("postinst", ["configure", version], thr, ni, re_, self.answer)
                self.ev.append(dict({"e": "post", "why": why, "rc": rc, "own": self.own(), "db": self.db(),
                                     "up": int(version != "")}, **self.state()))
                if why != "end" or rc:
                    break
                installed, version = True, "1.%d" % r.randint(0, 9)
        return self.fl, self.ev


def one(x):
    t, root, meta = x
    h = History(int(t[1]), t[0], root)
    try:
        fl, ev = h.run()
    finally:
        shutil.rmtree(h.d, ignore_errors=True)
    return {"scen": t[0], "name": h.fl, "mode": "random", "xseed": t[1], "meta": {"kind": fl, "opts": meta.get(fl, [])}, "ev": ev}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out", required=True)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--only", type=int)
    ap.add_argument("--xseed")
    a = ap.parse_args()
    meta = json.loads(os.environ.get("PKG_META", "{}"))
    root = tempfile.mkdtemp(prefix="oskpkg-")
    os.chmod(root, 0o755)
    todo = [(a.only, a.xseed)] if a.only is not None else [(i, "%d" % (a.seed * 1000003 + i * 7919)) for i in range(a.n)]

    try:
        # processes, not threads: a script must not be open for writing in a child of another one
        with ProcessPoolExecutor(a.jobs) as ex, open(a.out, "w") as o:
            n = 0
            for x in ex.map(one, [(t, root, meta) for t in todo]):
                o.write(json.dumps(x) + "\n")
                n += len(x["ev"])
        print(json.dumps({"executions": len(todo), "events": n}))
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
