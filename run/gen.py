"""Scripts for the executor: blocks of lines (see harness/exec.cpp)."""
import itertools
import random

SUB = b"!$&'()*+,;="
UNRES = b"abcxyzABCXYZ0189-._~"
REG = UNRES + SUB


def hx(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() if b else "-"


def P(b):
    return ["P " + hx(b)]


def S(b):
    return ["S " + hx(b)]


def H(b, flags="-"):
    return "H %s %s" % (hx(b) if b is not None else "D", flags)


def O(op, arg=b"", i=0, j=0, inj=0, slot=1):
    return "O %d %s %s %d %d %d" % (slot, op, hx(arg), i, j, inj)


def OF(op, fill, inj=0, slot=1):
    """argument sized relative to the capacity (see fill() in exec.cpp)"""
    return "O %d %s F%s 0 0 %d" % (slot, op, fill, inj)


# ------------------------------------------------------------------ pools
SCHEMES = [None, "s", "HTTP"]
AUTHS = [None, "", "h", "1.2.3.4", "[::1]", "[v1.x]", "u@h", "u:@h", "u:p@h", ":p@h", "@h",
         ":@h", "h:", "h:80", "u@", "@", "u:p@", ":1", ":", "u@:1", "u:p@h:80", "@:", ":p@:",
         "%41@%42:9", "u:p:q@h", "1.2.3.256", "h%2fx", "u:p@[::1]:8"]
PATHS = ["", "/", "/a", "/a/b", "/a/", "//", "//a", "/a//b", "/.//x", "a", "a/b", "a/", "a:b",
         "./a:b", "a//b", ".", "%41", ".//x", "/a/b/c", "/:", "a/b:c", ":", "x:/"]
QUERIES = [None, "", "k", "k=v", "k=v&a=b", "&", "=", "a&a=1&%61=2&=x", "?/:@"]
FRAGS = [None, "", "f", "?/x%20"]


def mk(sch, au, path, q, f):
    if au is not None and path and path[0] != "/":
        return None
    if au is None and path.startswith("//"):
        return None
    if sch is None and au is None and ":" in path.split("/")[0]:
        return None
    t = ""
    if sch is not None:
        t += sch + ":"
    if au is not None:
        t += "//" + au
    t += path
    if q is not None:
        t += "?" + q
    if f is not None:
        t += "#" + f
    return t


def bases(schemes=SCHEMES, auths=AUTHS, paths=PATHS, queries=QUERIES, frags=FRAGS):
    out = []
    for c in itertools.product(schemes, auths, paths, queries, frags):
        t = mk(*c)
        if t is not None:
            out.append(t)
    return out


def bases_small():
    """scheme x authority x path, with query and fragment varied alongside"""
    out = []
    qf = [(None, None), ("k=v&a", "f"), ("", None), (None, ""), ("q", None), ("", "")]
    n = 0
    for c in itertools.product([None, "s"], AUTHS, PATHS):
        q, f = qf[n % len(qf)]
        t = mk(*c, q, f)
        if t is not None:
            n += 1
            out.append(t)
    return out


def bases_tiny():
    out = []
    qf = [(None, None), ("k=v&a", "f"), ("", None), (None, "")]
    n = 0
    for c in itertools.product(
            [None, "s"],
            [None, "", "h", "u:p@h:80", "@", ":", "u@", ":p@", "[::1]", "1.2.3.4:"],
            ["", "/", "/a/b", "//x", "a", "a:b/c", "/.//x", "./a:b", "/a//"]):
        q, f = qf[n % len(qf)]
        t = mk(*c, q, f)
        if t is not None:
            n += 1
            out.append(t)
    return out


V6 = ["::", "::1", "1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:1.2.3.4", "::1.2.3.4", "1::1.2.3.4",
      "fE80::aBcD", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2::7:8", "ffff:0:0:0:0:0:0:1"]
V6BAD = ["", ":", ":::", "1", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::1::", "12345::", "g::",
         "1.2.3.4", "::1.2.3", "::1.2.3.256", "::01.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "1:",
         "1::2:", ":1", "::1.2.3.4:5", "1:2:3:4:5:6:7:8::", "::1.2.3.4.5", "fe80::1%25eth0"]
VF = ["v1.a", "VfF.a:b", "v0.~!$", "v1..", "v12ab.x"]
VFBAD = ["v.a", "v1.", "vg.a", "v1a", "v1.a%41", "w1.a", "v1.[", "v1.a/b", "v1.@"]
V4 = ["0.0.0.0", "1.2.3.4", "255.255.255.255", "99.100.199.200", "9.10.249.250"]
V4NO = ["1.2.3", "1.2.3.4.5", "256.1.1.1", "1.1.1.256", "01.1.1.1", "1.1.1.01", "1.2.3.", ".1.2.3",
        "1..2.3", "300.1.1.1", "1.2.3.4a", "00.0.0.0", "1.2.3.1000", "1.2.3.-", "999", "0", "1.2"]

HOSTS_OK = (["h", "a.b", "%41", "%e4", "-", "h%2F", "~!$&'()*+,;=", "H"] + V4 + V4NO +
            ["[%s]" % x for x in V6 + VF])
HOSTS_BAD = (["[%s]" % x for x in V6BAD + VFBAD] +
             ["[", "]", "[]", "[::1", "::1]", "[::1]x", "x[::1]", "a b", "%", "%4", "%4g", "a/b",
              "a:b", "a@b", "a?b", "a#b", "\x00", "\xff", "[[::1]]", "h[", "<", "\\", "^", "|"])

ARGS = {
    "set_encoded_url": ["", "s:", "x", "//h", "s://u:p@h:1/p?q#f", "/p", "?", "#", "s:a:b", "//",
                        "a:b/c", "1:b", "%", "//[::1]", "//1.2.3.4", "?a=b&c", "/a/b", "a b", ":"],
    "set_encoded_origin": ["", "s:", "x://h", "s://u:p@h:1", "s:/x", "s:x", "s://h/p", "s://h?q",
                           "//h", "x", "s://[::1]", "s://[", "s:a:b", "s://", "HTTPS://1.2.3.4",
                           "s://h#f", "1s://h", "s:?", "s://@:", "s://h:x", "s://%41"],
    "set_scheme": ["", "x", "HTTP", "a1+-.", "1a", "a:", "a b", "+", "a/", "a%41", "a_", "\xe4",
                   "longerscheme", "-", ".", "a?", "a#", "a@", "https"],
    "set_encoded_authority": [a for a in AUTHS if a is not None] +
        ["h/x", "h:x", "[::1", "a@b@c", "h?", "h#", "%zz", "1.2.3.4:5", "[::1]x", "[::1]:", "a b",
         "h:1:2", "u:p@h:80a", "u%40:%3a@h", "//h", "/", "a:b@c:1"],
    "set_encoded_userinfo": ["", "u", "u:p", "u:", ":", "::", "u:p:q", "%3a:%40", "a@", "a/", "%g0",
                             "%1", "u p", "@", "[", "?", ":p", "longuser:longpassword"],
    "set_userinfo_part": ["", "@", "u@", "u:p@", ":@", "u", "u@@", "a/@", "%41:%3A@", "u:", ":p@",
                          "%@", "u:p:q@", "@u"],
    "set_user": ["", "u", "a:b", "%", "\x00\xff", "joe @", "u@h", "/", "[", "%41", "longer user"],
    "set_encoded_user": ["", "u", "u:", "%41", "%", "a@", "%4", "%g0", "a b", "longuser", "~!$", "/"],
    "set_password": ["", "p", ":p", "p:q", "%", "\x00\xff", "@", "a b", "/?#[]", ":"],
    "set_encoded_password": ["", "p", ":p", "p:q", "%41", "%", "a@", ":", "a/", "p:", "%4", "longpassword"],
    "set_password_part": ["", ":", ":p", "p", "::", ":p:q", ":%41", ":%", ":@", ":a/", "@"],
    "set_host": ["", "h", "1.2.3.4", "[::1]", "[v1.a]", "a b", "%41", "[", "[::g]", "1.2.3.4.5",
                 "256.1.1.1", "a:b", "/", "\x00", "[]", "long.host.name.example", "1.2.3.4 ", "@"],
    "set_encoded_host": ["", "h", "1.2.3.4", "[::1]", "[v1.a]", "%41", "[", "[::g]", "1.2.3.4.5",
                         "a:b", "/", "%", "a@b", "h%2f", "[::1]:1", "1.2.3.4:", "long.host.name"],
    "set_port": ["", "0", "80", "00080", "65536", "x", "8x", ":", ":80", "-1", " 1", "+1", "99999999999"],
    "set_port_n": ["0", "1", "80", "9", "10", "65535", "99", "100", "65536", "65537", "99999", "100000", "1000000",
                   "999999999", "1000000000", "2147483647", "2147483648", "4294967295"],
    "set_port_part": ["", ":", ":0", ":80", "80", ":x", "::", ":8x", ":00080", "x", "/"],
    "set_encoded_path": ["", "/", "/a", "/a/b/c", "//", "//a", "a", "a:b", "a/b", "./a:b", ":", "/:",
                         "%41", "%", "a?", "a#", "/a//b/", "a b", "/%2f", "/[", "/@", ":/a", "a//b"],
    "set_query": ["", "q", "a=b&c", "#", "?", "%", "\x00\xff", "a b", "[", "&", "+"],
    "set_encoded_query": ["", "q", "a=b&c=d&e", "?", "#", "%41", "%", "a#b", "[", "&&", "=", "/:@!$"],
    "set_query_part": ["", "?", "?q", "q", "?a=b&c", "??", "?#", "#", "?%", "?%41&%42", "&"],
    "set_fragment": ["", "f", "#", "?", "%", "\x00\xff", "a b", "[", "f#g"],
    "set_encoded_fragment": ["", "f", "?", "#", "%41", "%", "[", "/:@!$", "longfragment"],
    "set_fragment_part": ["", "#", "#f", "f", "##", "#?", "#%", "#%41", "?"],
    "normalize": [""],
    "normalize_scheme": [""],
    "seg_insert": ["", "a", "x/y", "%", "a:b", ".", "..", "\x00\xff", "a b", "?", "long segment"],
    "seg_insert_encoded": ["", "a", "x/y", "%41", "a:b", ".", "%", "a?", "@", "[", "longsegment"],
    "seg_replace": ["", "a", "x/y", "%", "a:b", ".", "..", "\x00\xff", "#"],
    "seg_replace_encoded": ["", "a", "x/y", "%41", "a:b", ".", "%", "a#", ":", "longsegment"],
    "seg_erase": [""],
    "seg_erase_range": [""],
}
SEGOPS = [o for o in ARGS if o.startswith("seg_")]
SETOPS = [o for o in ARGS if o.startswith("set_")]
PLAIN = ["set_user", "set_password", "set_host", "set_query", "set_fragment",
         "seg_insert", "seg_replace"]
CLEARS = [o for o in SETOPS if o != "set_port_n"]
HOSTOPS = ["set_host", "set_encoded_host", "set_encoded_authority", "set_encoded_origin",
           "set_encoded_url", "set_port", "set_user", "set_encoded_userinfo"]


# ------------------------------------------------------------------ random text
def pick(rng, chars, n):
    return bytes(rng.choice(chars) for _ in range(n))


def esc(rng, b=None):
    b = rng.randrange(256) if b is None else b
    return ("%%%02x" % b if rng.random() < .5 else "%%%02X" % b).encode()


def text(rng, chars, lo=0, hi=6, pe=.2):
    out = b""
    if rng.random() < .05:
        hi *= 5
    for _ in range(rng.randint(lo, hi)):
        out += esc(rng) if rng.random() < pe else bytes([rng.choice(chars)])
    return out


PCH = REG + b":@"
QCH = PCH + b"/?"


def r_host(rng):
    r = rng.random()
    if r < .45:
        return text(rng, REG, 0, 6)
    if r < .6:
        return ".".join(str(rng.choice([0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255, 256, 300,
                                        rng.randrange(260)])) for _ in range(4)).encode()
    if r < .65:
        return rng.choice(V4 + V4NO + WHOST).encode()
    if r < .9:
        return ("[%s]" % r_v6(rng)).encode()
    return b"[" + rng.choice(b"vV").to_bytes(1, "big") + pick(rng, b"09afAF", rng.randint(1, 3)) + \
        b"." + pick(rng, REG + b":", rng.randint(1, 4)) + b"]"


def r_v6(rng):
    def g():
        return "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.randint(1, 4)))

    def v4():
        return ".".join(str(rng.choice([0, 9, 10, 99, 100, 255])) for _ in range(4))
    tail4 = rng.random() < .3
    if rng.random() < .25:
        return ":".join([g() for _ in range(6)] + [v4()]) if tail4 else ":".join(g() for _ in range(8))
    t = 2 if tail4 else 0
    nl = rng.randint(0, 7 - t)
    nr = rng.randint(0, 7 - t - nl)
    right = [g() for _ in range(nr)] + ([v4()] if tail4 else [])
    return ":".join(g() for _ in range(nl)) + "::" + ":".join(right)


def r_userinfo(rng):
    return text(rng, REG, 0, 4) + (b":" + text(rng, REG + b":", 0, 4) if rng.random() < .6 else b"")


def r_auth(rng):
    t = b""
    if rng.random() < .5:
        t += r_userinfo(rng) + b"@"
    t += r_host(rng)
    if rng.random() < .5:
        t += b":" + (rng.choice(WPORT).encode() if rng.random() < .25 else pick(rng, b"0123456789", rng.randint(0, 6)))
    return t


def r_scheme(rng):
    if rng.random() < .3:
        return rng.choice([b"http", b"HTTPS", b"ftp", b"WS", b"wss", b"File"])
    return pick(rng, b"abzABZ", 1) + pick(rng, b"abzABZ019+-.", rng.randint(0, 5 if rng.random() < .9 else 20))


def r_seg(rng, lo=0):
    if rng.random() < .1:
        return rng.choice([b".", b"..", b"a:b", b"%2f", b"%2F%3a"])
    return text(rng, PCH, lo, 4)


def r_path(rng, sch, au):
    n = rng.randint(0, 5)
    segs = [r_seg(rng) for _ in range(n)]
    if au:
        return b"".join(b"/" + s for s in segs)
    p = b"/".join(segs)
    if rng.random() < .5:
        p = b"/" + p
    if p.startswith(b"//"):
        p = b"/." + p[1:]
    if not sch and not p.startswith(b"/") and b":" in p.split(b"/")[0]:
        p = b"./" + p
    return p


def r_query(rng):
    ps = []
    for _ in range(rng.randint(1, 4)):
        k = text(rng, QCH.replace(b"&", b"").replace(b"=", b""), 0, 3)
        ps.append(k + (b"=" + text(rng, QCH.replace(b"&", b""), 0, 4) if rng.random() < .6 else b""))
    return b"&".join(ps)


def r_url(rng, pq=.5, pf=.4):
    t = b""
    sch = rng.random() < .6
    au = rng.random() < .6
    if sch:
        t += r_scheme(rng) + b":"
    if au:
        t += b"//" + r_auth(rng)
    t += r_path(rng, sch, au)
    if rng.random() < pq:
        t += b"?" + r_query(rng)
    if rng.random() < pf:
        t += b"#" + text(rng, QCH, 0, 5)
    return t


DELIM = b":/?#@[]%&=.aA0fFgGvV-+ \x00\x7f\x80\xff\"<>\\^`{|}"


def mutate(rng, s):
    s = bytearray(s)
    for _ in range(rng.randint(1, 2)):
        r = rng.random()
        p = rng.randint(0, len(s))
        if r < .35 or not s:
            s.insert(p, rng.choice(DELIM))
        elif r < .6:
            del s[min(p, len(s) - 1)]
        elif r < .9:
            s[min(p, len(s) - 1)] = rng.choice(DELIM)
        else:
            q = rng.randint(0, len(s))
            s[p:p] = s[q:q + 3]
    return bytes(s)


def r_bytes(rng, hi=8):
    n = rng.randint(0, hi)
    r = rng.random()
    if r < .4:
        return bytes(rng.randrange(256) for _ in range(n))
    if r < .7:
        return pick(rng, DELIM, n)
    return text(rng, QCH, 0, hi)


def r_arg(rng, op, wild=.25):
    """a mostly valid argument for op"""
    r = rng.random()
    if op == "set_port_n":
        return str(rng.choice([0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535, 65536, 123456, 1234567890, 4294967295,
                               rng.randrange(1 << 32),
                               rng.randrange(65536)])).encode()
    if op in ("normalize", "normalize_scheme", "seg_erase", "seg_erase_range"):
        return b""
    if r < .08:
        return b""
    if r > .9:
        return w_arg(rng, op)
    if r < .08 + wild / 2:
        return rng.choice(ARGS[op]).encode("latin-1")
    if r < .08 + wild * .7:
        return r_bytes(rng)
    v = {
        "set_encoded_url": lambda: r_url(rng),
        "set_encoded_origin": lambda: r_scheme(rng) + b":" + (b"//" + r_auth(rng) if rng.random() < .8 else b"")
        + (r_path(rng, True, True) if rng.random() < .2 else b""),
        "set_scheme": lambda: r_scheme(rng),
        "set_encoded_authority": lambda: r_auth(rng),
        "set_encoded_userinfo": lambda: r_userinfo(rng),
        "set_userinfo_part": lambda: r_userinfo(rng) + b"@",
        "set_user": lambda: r_bytes(rng),
        "set_encoded_user": lambda: text(rng, REG),
        "set_password": lambda: r_bytes(rng),
        "set_encoded_password": lambda: text(rng, REG) + (b":" if rng.random() < .2 else b""),
        "set_password_part": lambda: b":" + text(rng, REG + b":"),
        "set_host": lambda: r_host(rng) if rng.random() < .4 else r_bytes(rng),
        "set_encoded_host": lambda: r_host(rng),
        "set_port": lambda: pick(rng, b"0123456789", rng.randint(1, 6)),
        "set_port_part": lambda: b":" + pick(rng, b"0123456789", rng.randint(0, 6)),
        "set_encoded_path": lambda: r_path(rng, rng.random() < .5, rng.random() < .5),
        "set_query": lambda: r_bytes(rng),
        "set_encoded_query": lambda: r_query(rng),
        "set_query_part": lambda: b"?" + r_query(rng),
        "set_fragment": lambda: r_bytes(rng),
        "set_encoded_fragment": lambda: text(rng, QCH),
        "set_fragment_part": lambda: b"#" + text(rng, QCH),
        "seg_insert": lambda: r_bytes(rng, 4),
        "seg_replace": lambda: r_bytes(rng, 4),
        "seg_insert_encoded": lambda: r_seg(rng),
        "seg_replace_encoded": lambda: r_seg(rng),
    }[op]()
    if rng.random() < .04:
        v = v * rng.randint(5, 40)
    return v


ALLOPS = list(ARGS)
WEIGHTED = ALLOPS + SEGOPS + ["set_encoded_path"] * 2 + ["set_encoded_host", "set_port", "set_user"]


def hist(rng, n, start=None, ops=WEIGHTED, inj=0.0, fills=0.05, lookups=0.05, walks=0.05, flags="-"):
    if start is None:
        start = None if rng.random() < .15 else r_url(rng)
    b = [H(start, flags)]
    keys = [b"a", b"k", b"", b"b", b"%61", b"k=v"]
    for _ in range(n):
        r = rng.random()
        if r < lookups:
            b.append("L 1 " + hx(rng.choice(keys) if rng.random() < .5 else r_bytes(rng, 3)))
        elif r < lookups + walks:
            b.append("W 1 %d %d %s" % (rng.randint(0, 1), rng.randint(0, 6),
                                       "".join(rng.choice("+-") for _ in range(rng.randint(1, 8)))))
        elif r < lookups + walks + fills:
            op, pre = rng.choice(FILLS)
            b.append(OF(op, "%s:%d" % (pre, rng.randint(-3, 3)), rng.choice([0, 1]) if rng.random() < inj else 0))
        else:
            op = rng.choice(ops)
            b.append(O(op, r_arg(rng, op), rng.randint(0, 7), rng.randint(0, 7),
                       rng.randint(1, 3) if rng.random() < inj else 0))
    return b


FILLS = [("set_encoded_fragment", ""), ("set_fragment_part", "h"), ("set_encoded_query", ""),
         ("set_query_part", "q"), ("set_query", ""), ("set_fragment", ""), ("set_user", ""),
         ("set_encoded_user", ""), ("set_password", ""), ("set_password_part", "c"),
         ("set_encoded_host", ""), ("set_host", ""), ("set_encoded_authority", ""),
         ("set_encoded_userinfo", ""), ("set_scheme", ""), ("seg_insert", ""),
         ("seg_insert_encoded", ""), ("seg_replace", ""), ("seg_replace_encoded", ""),
         ("set_encoded_path", "/"), ("set_encoded_url", "")]


def one_step(bs, ops, args=None, flags="-", inj=0):
    """every base x op x argument, as one-step histories"""
    out = []
    for b in bs:
        for op in ops:
            for a in (args(op) if args else ARGS[op]):
                for (i, j) in positions(b, op):
                    out.append([H(b, flags), O(op, a, i, j, inj)])
    return out


def nsegs(b):
    t = b if isinstance(b, str) else b.decode("latin-1")
    t = t.split("#")[0].split("?")[0]
    k = t.find(":")
    s = t.find("/")
    if k >= 0 and (s < 0 or k < s):
        t = t[k + 1:]
    if t.startswith("//"):
        p = t.find("/", 2)
        t = "" if p < 0 else t[p:]
    if not t:
        return 0
    return t.count("/") + (0 if t[0] == "/" else 1)


def positions(b, op):
    if not op.startswith("seg_"):
        return [(0, 0)]
    n = nsegs(b)
    if op in ("seg_insert", "seg_insert_encoded"):
        return [(i, 0) for i in range(n + 1)]
    if op == "seg_erase_range":
        return [(i, j) for i in range(n + 1) for j in range(i, n + 1)]
    return [(i, 0) for i in range(n)]


# ------------------------------------------------------------------ the names and numbers of real urls
WSCH = [None, "http", "https", "ws", "wss", "ftp", "file", "HTTP", "HTTPS", "Https", "WS", "Wss", "FTP", "File",
        "mailto", "urn", "data", "about", "javascript", "ssh", "ldap"]
WHOST = ["", "localhost", "LOCALHOST", "127.0.0.1", "0.0.0.0", "255.255.255.255", "example.com", "www.Example.COM", "h.",
         "example.com.", "[::1]", "[::]", "[::ffff:1.2.3.4]", "[fe80::1]", "xn--p1ai", "8.8.8.8", "host_name", "a-b.c",
         "%6cocalhost", "127.1", "0x7f.0.0.1", "2130706433"]
WPORT = ["", "80", "443", "21", "22", "8080", "8443", "080", "0", "0443", "00", "65535", "65536", "000000080", "00000443"]
WUSER = ["", "user", "root", "anonymous", "user%40example.com", "User", "a%3Ab", "admin"]
WPASS = ["", "pass", "secret", "p%40ss", "p:w", "%3a", ":", "guest%40h"]
WAPATH = ["", "/", "/index.html", "/./", "/../a", "/a/../b", "/a/./b", "/C:/x", "/c|/x", "/%7Euser", "/~user", "//x", "/.", "/..",
          "/a/.", "/a/..", "/a//", "/%2e/%2E%2e", "/a;v=1,2", "/a+b", "/%E4%B8%AD", "///", "/a//b", "/%2F", "/.//a", "/...", "/*",
          "/.well-known/x", "/a%20b", "/a:b", "/:80", "/a@b"]
WRPATH = ["user@example.com", "isbn:0451450523", "text/plain,hi", "C:/x", "..", ".", "../a", "./a", "blank", "../../a/b", "index.html",
          "a/..", "a/../b", "*", "80", "h:80", "http", "./http:", "%2e", "%2e%2e/a", "...", "./", "../"]
WQUERY = ["", "q=1", "a=1&b=2", "a+b=c+d", "q=a%20b&amp;c", "utm_source=x&utm_medium=", "a;b", "url=http://h/p?x", "a=1;b=2",
          "a=b=c", "a&a", "%3D=%26", "a=1&a=2&A=3", "q=%2B", "x=%00", "lang=en-US,en;q=0.5"]
WFRAG = ["", "top", "!/route", "L10", "%20", "a/b?c", ":~:text=x", "%23", "a=1&b=2"]


def w_auth(rng):
    t = ""
    r = rng.random()
    if r < .3:
        t += rng.choice(WUSER) + (":" + rng.choice(WPASS) if rng.random() < .6 else "") + "@"
    t += rng.choice(WHOST)
    if rng.random() < .5:
        t += ":" + rng.choice(WPORT)
    return t


def w_url(rng):
    for _ in range(20):
        au = w_auth(rng) if rng.random() < .75 else None
        t = mk(rng.choice(WSCH), au, rng.choice(WAPATH if au is not None or rng.random() < .4 else WRPATH),
               rng.choice(WQUERY) if rng.random() < .4 else None, rng.choice(WFRAG) if rng.random() < .3 else None)
        if t is not None:
            return t.replace("|", "%7c")
    return "http://example.com/"


def w_dec(rng, xs):
    """plain text: what one would type, escapes and all"""
    x = rng.choice(xs)
    return x if rng.random() < .5 else "".join(re_unesc(x))


def re_unesc(x):
    i = 0
    while i < len(x):
        if x[i] == "%":
            yield chr(int(x[i + 1:i + 3], 16))
            i += 3
        else:
            yield x[i]
            i += 1


def w_arg(rng, op):
    c = rng.choice
    path = lambda: c(WAPATH + WRPATH).replace("|", "%7C")
    seg = lambda: c([x for p in WAPATH + WRPATH for x in p.replace("|", "%7c").split("/") if x] + [".", ".."])
    v = {
        "set_encoded_url": lambda: w_url(rng),
        "set_encoded_origin": lambda: (c(WSCH[1:]) + ":" + ("//" + w_auth(rng) if rng.random() < .85 else "")),
        "set_scheme": lambda: c(WSCH[1:]),
        "set_encoded_authority": lambda: w_auth(rng),
        "set_encoded_userinfo": lambda: c(WUSER) + c(["", ":" + c(WPASS)]),
        "set_userinfo_part": lambda: c(WUSER) + c(["", ":" + c(WPASS)]) + "@",
        "set_user": lambda: w_dec(rng, WUSER),
        "set_encoded_user": lambda: c(WUSER),
        "set_password": lambda: w_dec(rng, WPASS),
        "set_encoded_password": lambda: c(WPASS),
        "set_password_part": lambda: ":" + c(WPASS),
        "set_host": lambda: w_dec(rng, WHOST),
        "set_encoded_host": lambda: c(WHOST),
        "set_port": lambda: c(WPORT),
        "set_port_n": lambda: str(int(c(WPORT[1:]))),
        "set_port_part": lambda: ":" + c(WPORT),
        "set_encoded_path": path,
        "set_query": lambda: w_dec(rng, WQUERY),
        "set_encoded_query": lambda: c(WQUERY),
        "set_query_part": lambda: "?" + c(WQUERY),
        "set_fragment": lambda: w_dec(rng, WFRAG),
        "set_encoded_fragment": lambda: c(WFRAG),
        "set_fragment_part": lambda: "#" + c(WFRAG),
        "normalize": lambda: "", "normalize_scheme": lambda: "", "seg_erase": lambda: "", "seg_erase_range": lambda: "",
        "seg_insert": seg, "seg_replace": seg, "seg_insert_encoded": seg, "seg_replace_encoded": seg,
    }[op]()
    return v.encode("latin-1")


def world(rng, n, ops, flags="-", steps=(1, 1, 1, 2, 3, 5), empties=.08):
    """changes to urls as people write them: their schemes, default ports, hosts, dot segments"""
    out = []
    for _ in range(n):
        b = [H(w_url(rng) if rng.random() < .9 else None, flags)]
        for _ in range(rng.choice(steps)):
            op = rng.choice(ops)
            b.append(O(op, b"" if rng.random() < empties and op != "set_port_n" else w_arg(rng, op), rng.randint(0, 3), rng.randint(0, 3)))
        out.append(b)
    return out


# scheme by default port, spelled every way, on an url of that scheme
def ports_world(flags="-"):
    out = []
    for s, p in (("http", 80), ("https", 443), ("ws", 80), ("wss", 443), ("ftp", 21), ("HTTP", 80), ("Https", 443)):
        for h in ("example.com", "", "u@127.0.0.1", "[::1]:8080"):
            for t in (str(p), "0%d" % p, "000%d" % p):
                base = "%s://%s/x" % (s, h)
                out.append([H(base, flags), O("set_port", t)])
                out.append([H(base, flags), O("set_port_part", ":" + t)])
                out.append([H(base, flags), O("set_encoded_authority", "h:" + t)])
                out.append([H(base, flags), O("set_encoded_origin", "%s://h:%s" % (s, t))])
                out.append([H("//h:%s" % t, flags), O("set_scheme", s), O("normalize")])
            out.append([H(base, flags), O("set_port_n", str(p)), O("set_port"), O("set_port_n", str(p))])
    return out


def sample(rng, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else rng.sample(xs, n)


def strings(alpha, n):
    """all strings over alpha (list of byte strings) of 0..n tokens"""
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield b"".join(t)


def group(blocks_of_ops, base, flags="-"):
    return [H(base, flags)] + blocks_of_ops


def near(rng, u):
    """u with one or two letters or digits changed: same length, same shape"""
    b = bytearray(u)
    idx = [i for i, c in enumerate(b) if chr(c).isalnum() and not (i and b[i - 1] == 37) and not (i > 1 and b[i - 2] == 37)]
    for i in rng.sample(idx, min(len(idx), rng.choice([1, 1, 2]))):
        b[i] = rng.choice(b"xyz") if chr(b[i]).isalpha() else rng.choice(b"0123")
    return bytes(b)


# ------------------------------------------------------------------ long texts
LENGTHS = [2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257,
           300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]
LONGEST = [32767, 32768, 65534, 65535, 65536, 65537, 66000]


def stretch(rng, block):
    """the same history with some letters standing for long runs ("x<n>" in
    harness/exec.cpp); None if it does not lend itself to that"""
    if any(" F" in ln for ln in block) or block[0][0] not in "PHB":
        return None
    many = {c: c if rng.random() < .4 else ord("z") for c in rng.sample(b"abdfhkpqsuvx", 6)}
    done = [0]

    def text(h, plain):
        if h in ("-", "D"):
            return h
        b = bytes.fromhex(h).replace(b"y", b"x").replace(b"Z", b"W").replace(b"%79", b"%78").replace(b"%25", b"%24")
        for x in (b"%7a", b"%7A", b"%7c"):
            b = b.replace(x, b"%7C")
        if plain:
            b = b.replace(b"%7C", b"|")
        b = bytes(many.get(c, c) for c in b)
        done[0] += b.count(b"z") + b.count(b"|") + b.count(b"%7C")
        # an escape that the change of a letter made
        if b.replace(b"%7C", b"").lower().count(b"%7a") or b.count(b"%7c"):
            return None
        return b.hex()

    out = []
    for ln in block:
        f = ln.split()
        if f[0] in "PHB":
            f[1] = text(f[1], False)
        elif f[0] == "O" and f[2] != "set_port_n":
            f[3] = text(f[3], f[2] in PLAIN)
        elif f[0] == "L":
            f[2] = text(f[2], True)
        if None in f:
            return None
        out.append(f)
    if not done[0]:
        return None
    # a url of a few megabytes at most
    n = rng.choice(LONGEST) if done[0] <= 4 and len(block) < 12 and rng.random() < .12 else rng.choice(LENGTHS)
    if done[0] * n > 300000:
        n = rng.choice(LENGTHS[:16])
    if out[0][0] == "H":
        out[0][2] = (out[0][2] if out[0][2] != "-" else "") + "x%d" % n
    else:
        out[0] = out[0][:2] + ["x%d" % n]
    return [" ".join(f) for f in out]


def stretched(rng, blocks, n):
    out = []
    cand = [b for b in blocks if sum(len(x) for x in b) < 1500 and " m" not in b[0]
            and not (b[0][0] == "H" and "m" in b[0].split()[2])]
    for _ in range(8 * n):
        if len(out) >= n or not cand:
            break
        s = stretch(rng, rng.choice(cand))
        if s:
            out.append(s)
    return out


# arguments with one part that can have any length ("z", "|", "%7C": see harness/exec.cpp)
SIZED = {
    "set_encoded_url": ["z:", "//z", "//z@", "//u:z@h", "/z", "z", "?z", "#z", "?k=z", "s://u:p@h:1/a?q#z", "%7C"],
    "set_encoded_origin": ["z:", "z://h", "s://z", "s://z@h", "s://u:z@h"],
    "set_scheme": ["z"],
    "set_encoded_authority": ["z", "z@", "u:z@h", "z:1", "[v1.z]", "%7C", "%7C@h"],
    "set_encoded_userinfo": ["z", "z:p", "u:z", ":z", "%7C:"],
    "set_userinfo_part": ["z@", "z:@", "u:z@", "%7C@"],
    "set_user": ["z", "|"], "set_encoded_user": ["z", "%7C"],
    "set_password": ["z", "|"], "set_encoded_password": ["z", "%7C"], "set_password_part": [":z", ":%7C"],
    "set_host": ["z", "|", "[v1.z]", "1.2.3.4z"], "set_encoded_host": ["z", "%7C", "[v1.z]"],
    "set_encoded_path": ["/z", "z", "/a/z", "/z/", "/%7C", "/z/b", "z:b", "z:b/c", "a/z:b", "./z:b"],
    "set_query": ["z", "|", "k=z", "z=v"], "set_encoded_query": ["z", "%7C", "k=z", "z=v"], "set_query_part": ["?z", "?k=%7C"],
    "set_fragment": ["z", "|"], "set_encoded_fragment": ["z", "%7C"], "set_fragment_part": ["#z", "#%7C"],
    "seg_insert": ["z", "|", "z:b"], "seg_insert_encoded": ["z", "%7C", "z:b"],
    "seg_replace": ["z", "|", "z:b"], "seg_replace_encoded": ["z", "%7C", "z:b"],
}
SIZED_URL = ["z:", "z://h/p", "//z@h", "//u:z@h/a", "//z/a", "//z:1", "//[v1.z]", "/z", "z", "/a/z/b", "?z", "?a&z=v&b", "?a&k=z&b",
             "#z", "s://u:p@h:1/a/b?k=v#z", "//%7C@h", "//u:%7C@h", "//%7C", "/%7C", "?%7C=%7C", "#%7C", "s:a/%7C?z"]
SIZED_ON = ["", "s://u:p@h:1/a/b?k=v#f", "//h", "s:", "/a", "//u@h/", "z://z", "//z:z@z/z?z#z", "/z/z?z", "s:z", "?z", "#z", None]


def sized(rng, ops, flags="-", rep=1):
    """every call with arguments of every length at which a buffer, a counter or a table might end"""
    out = []
    fl = "" if flags == "-" else flags
    todo = []
    for op in ops:
        for t in SIZED.get(op, ()):
            rest = len(t) - (3 if "%7C" in t else 1)
            for n in LENGTHS:
                todo += [(op, t, n)] * rep
                if rest and n > rest:
                    todo.append((op, t, n - rest))
    for op, t, m in todo:
        b = rng.choice(SIZED_ON)
        blk = [H(b, fl + "x%d" % m), O(op, t, rng.randint(0, 2))]
        r = rng.random()
        if r < .3:
            blk.append(O(rng.choice(CLEARS)))
        elif r < .6:
            o = rng.choice(list(SIZED))
            blk.append(O(o, rng.choice(SIZED[o])))
        out.append(blk)
    return out


def sized_clears(rng, flags="-"):
    """clearing one component next to another of any length"""
    out = []
    fl = "" if flags == "-" else flags
    for b in SIZED_URL + ["s:z:b/c", "s:z:b", "s:a/z:b", "./z:b", "//h//z", "s:////z", "s://h//z?q", "s://h/z:b", "//z:z@z:1/z?z#z"]:
        for n in LENGTHS:
            out.append([H(b, fl + "x%d" % n), O(rng.choice(CLEARS)), O(rng.choice(["set_scheme", "set_encoded_authority", "set_encoded_origin", "set_host"])),
                        O(rng.choice(CLEARS))])
            out.append([H(b, fl + "x%d" % n), O(rng.choice(["set_scheme", "set_encoded_authority", "set_encoded_path", "set_query", "set_port"]))])
    return out


def sized_urls(rng):
    return [["P %s x%d" % (hx(u), n)] for u in SIZED_URL for n in LENGTHS]


def sized_lookups():
    out = []
    for n in LENGTHS:
        for u in ("?z=v", "?a&z&z=2", "?%7C=z", "?zz=1&z=2", "?a=z&b"):
            out.append([H(u, "nx%d" % n)] + ["L 1 " + hx(k) for k in ("z", "|", "zz", "a", "za")])
    return out


def sized_lists(rng):
    """every number of segments and parameters at which a count might end"""
    out = []
    for n in LENGTHS:
        for u in rng.sample(["/y", "/a/y", "a/y", "//h/y/b", "s:/y/"], 2) + rng.sample(["?&y", "?a&y", "?a=b&y&c#f"], 2):
            out.append(["P %s x%d" % (hx(u), n)])
    return out


def sized_edits(rng):
    """edits of paths of every number of segments at which a count might end"""
    out = []
    edits = [("seg_erase", 0, 0), ("seg_erase", 1, 0), ("seg_erase_range", 0, 1), ("seg_erase_range", 0, 2), ("seg_erase_range", 1, 2),
             ("seg_insert", 0, 0), ("seg_insert", 1, 0), ("seg_insert", 2, 0), ("seg_insert_encoded", 0, 0), ("seg_insert_encoded", 1, 0),
             ("seg_replace", 0, 0), ("seg_replace", 1, 0), ("seg_replace_encoded", 0, 0), ("seg_replace_encoded", 1, 0)]
    for n in LENGTHS:
        for op, i, j in edits:
            for m in {n, max(n - 6, 1)}:
                b = [H(rng.choice(["/a/b/c/d/e/f/y", "//h/a/b/c/d/e/f/y", "a/b/c/d/e/f/y", "s:/a/b/c/d/e/f/y?q#f", "/a/b/c/d/e/f/y/c"]), "nx%d" % m), O(op, "c", i, j)]
                op, i, j = rng.choice(edits)
                out.append(b + [O(op, "c", 0, j if not i else j - i)])
    return out


def counted_lookups(rng):
    """queries with n parameters, all of them, some of them or the last one having the key"""
    out = []
    for n in list(range(1, 36)) + [63, 64, 65, 100, 127, 128, 129, 199, 254, 255, 256, 257, 300]:
        for u in (["a"] * n, ["a=%d" % (i % 10) for i in range(n)], ["b"] * (n - 1) + ["a"], [rng.choice(["a", "%61=1", "b"]) for _ in range(n)]):
            out.append([H("?" + "&".join(u), "n")] + ["L 1 " + hx(k) for k in ("a", "b")])
    return out


def letters(rng, ops, n, flags="-"):
    """every character as the first, the last and the only one of an argument"""
    out = []
    for op in ops:
        if op not in SIZED:
            continue
        for c in QCH.decode():
            for _ in range(n):
                t = rng.choice([x for x in SIZED[op] if "%" not in x])
                v = t.replace("z", rng.choice([c, c, c + "b", "b" + c, c + c, "a" + c + "b"])).replace("|", c)
                out.append([H(rng.choice(["", "s://u:p@h:1/a/b?k=v#f", "//h", "s:", "/a", "//u@h/"]), flags), O(op, v, rng.randint(0, 1))])
    return out


def many(rng, n):
    """urls with very many segments or parameters"""
    out = []
    for _ in range(n):
        big = rng.random() < .25
        x = "x%d" % rng.choice([32768, 65535, 65536, 66000] if big else
                               [15, 16, 127, 128, 254, 255, 256, 257, 1000, 4096])
        path = rng.choice(["/y", "/a/y", "/a/y/b", "/y/b", "a/y", "//h/y", "s:/y/", "/./y//"])
        query = rng.choice(["", "?&y", "?a&y&b=c", "?a=b&y&", "?&y#f"])
        if rng.random() < .4:
            out.append(["P %s %s" % (hx(path + query), x)])
            continue
        b = ["H %s n%s" % (hx(rng.choice([path, path + query, "//h", "/a", query or "a"])), x)]
        for _ in range(1 if big else rng.randrange(1, 4)):
            b.append(rng.choice([
                lambda: O("set_encoded_path", rng.choice(["/y", "/a/y", "/y/", "/b"])),
                lambda: O("set_query", rng.choice(["a&y", "&y&b", "&y"])),
                lambda: O("set_encoded_query", rng.choice(["a&y", "a=b&y&c"])),
                lambda: O("set_query_part", rng.choice(["?&y", "?", ""])),
                lambda: O("seg_insert", b"c", 0), lambda: O("seg_insert_encoded", b"c", 0),
                lambda: O("set_encoded_host", b"g"), lambda: O("set_scheme", b"t"),
                lambda: O("set_fragment", b"g"), lambda: "A 2 copy 0", lambda: "A 2 move 0",
                lambda: O("set_encoded_url", path + query)])())
        out.append(b)
    return out
