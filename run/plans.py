"""What each property's check executes.  plan(prop, rng, k) -> blocks;
k = 1 for the quick tier, larger for the thorough one."""
import itertools

from gen import *

ALL256 = [bytes([b]) for b in range(256)]


# ------------------------------------------------------------------ C01
def byte_sweep():
    """every byte at every kind of place"""
    pre_post = [("", ""), ("a", ""), ("s", ":"), ("s", "s:x"), ("", ":x"), ("//", ""), ("//h", ""),
                ("//", "@h"), ("//u", "@h"), ("//u:", "@h"), ("//u:p", "@h"), ("//u@", ""), ("//h:", ""),
                ("//h:1", "/"), ("//h/", ""), ("//h/a", "/b"), ("/", ""), ("/a", ""), ("s:", ""),
                ("s:/", ""), ("s:a", ""), ("./", ""), ("a/", ""), ("?", ""), ("?a", "b"), ("#", ""),
                ("#a", "b"), ("//[", "]"), ("//[1:", ":1]"), ("//[::", "]"), ("//[::1.2.3.", "]"),
                ("//[v", ".a]"), ("//[v1.", "]"), ("//[v1.a", "b]"), ("//[::1]", ""), ("//1.2.3.", ""),
                ("//h%4", ""), ("//h%", "1"), ("/%4", ""), ("/%", "1"), ("?%4", ""), ("?%", "1"),
                ("#%4", ""), ("#%", "1"), ("//%4", "@"), ("//u:%", "1@"), ("s://h", "?q"), ("s:", "a/b"),
                ("//h/a?", "#f"), ("//@", ""), ("//h:80", "")]
    for p, q in pre_post:
        for b in ALL256:
            yield p.encode() + b + q.encode()


def escapes_sweep():
    """every pair of bytes around the hex digits' boundaries after a percent sign"""
    edge = b"/0189:@AFGZ`afgz%\x00\x7f\x80\xb0\xff"
    for t in (b"//%s@h", b"//u:%s@h", b"//%s", b"/%s", b"%s/b", b"?%s", b"#%s", b"s:%s"):
        for x in edge:
            for y in edge:
                yield t % bytes([37, x, y])
        for tail in (b"%", b"%4", b"%41", b"%41%", b"%41%4", b"a%", b"%%41", b"%4%41"):
            yield t % tail


def v4_sweep():
    octs = [str(i) for i in range(0, 260)] + ["00", "01", "007", "010", "099", "0255", "265", "299", "300",
                                              "999", "1000", "", "1a", "a", "-1", " 1", "%31"]
    for p in range(4):
        for o in octs:
            q = ["1", "20", "255", "0"]
            q[p] = o
            yield ".".join(q).encode()


def v6_texts():
    """every shape of an IPv6 literal: groups left and right of '::', an IPv4 tail anywhere, and
    neighbours of the valid ones"""
    v4s = ["1.2.3.4", "255.249.199.99", "1.2.3", "1.2.3.4.5", "256.1.1.1", "01.2.3.4", "1.2.3.04", ".1.2.3",
           "1.2.3.", "1..3.4"]
    for n in range(0, 11):
        g = ["a%x" % i for i in range(n)]
        yield ":".join(g)
        yield ":" + ":".join(g)
        yield ":".join(g) + ":"
        for v in v4s:
            yield ":".join(g + [v])
        if n:
            for i in range(n):
                for x in ("", "12345", "g", "0000", "FfFf", "1.2.3.4", "00000", "1%", "-1"):
                    yield ":".join(g[:i] + [x] + g[i + 1:])
    for a in range(0, 10):
        for b in range(0, 10):
            l = ":".join("1%x" % i for i in range(a))
            r = ["2%x" % i for i in range(b)]
            yield l + "::" + ":".join(r)
            yield l + "::" + ":".join(r) + ":"
            yield ":" + l + "::" + ":".join(r)
            for v in (v4s if a + b in (0, 1, 5, 6) else v4s[:2]):
                yield l + "::" + ":".join(r + [v])
            if a and b:
                yield ":".join(["1"] * a + ["1.2.3.4"]) + "::" + ":".join(r)
                yield l + "::" + ":".join(r) + "::"


def host_texts():
    for x in v6_texts():
        yield ("[%s]" % x).encode()
    for x in v4_sweep():
        yield x
    for x in VF + VFBAD + ["v" + d + "." + t for d in ("", "0", "9", "f", "F", "g", "G", "1a", "123456789abcdef")
                           for t in ("", "a", ":", ".", "~", "%", "%41", "[", "@", "/", "a:b.c")]:
        yield ("[%s]" % x).encode()
        yield ("[V%s]" % x[1:]).encode()
    for x in HOSTS_OK + HOSTS_BAD:
        yield x.encode("latin-1")


def long_urls(rng, n):
    for _ in range(n):
        m = rng.choice([100, 255, 256, 257, 300, 1000, 3000])
        c = rng.randrange(7)
        f = b"a" * m
        yield [b"s" * m + b":x", b"//" + f + b"/x", b"//u" + f + b":p@h", b"//h:" + b"1" * m,
               b"/a" * m, b"?" + b"k=v&" * m, b"#" + b"%41" * m][c]
        yield mutate(rng, r_url(rng) + f + rng.choice([b"", b"%", b"[", b":"]))


TOK = [b"a", b"1", b":", b"/", b"?", b"#", b"@", b".", b"%", b"[", b"]", b"s:", b"//", b"%41", b"[::1]", b" "]


def c01(rng, k):
    out = [P(s) for s in byte_sweep()] + [P(s) for s in escapes_sweep()]
    hosts = sorted(set(host_texts()))
    out += [P(b"//" + h) for h in hosts]
    for h in sample(rng, hosts, 400 * k):
        out.append(P(b"s://u:p@" + h + b":80/p"))
        out.append(P(b"//" + h + b":"))
        out.append(P(b"//" + h + rng.choice([b"x", b":x", b"]", b"%", b"@", b"@h", b"?", b"#", b"/"])))
    ex = list(strings([bytes([c]) for c in b"a1:/?#@.%[]&"], 4 if k == 1 else 5))
    out += [P(s) for s in ex]
    out += [P(s) for s in (strings(TOK, 3) if k == 1 else strings(TOK, 4))]
    for _ in range(6000 * k):
        u = r_url(rng)
        out.append(P(u))
        out.append(P(mutate(rng, u)))
    for _ in range(3000 * k):
        out.append(P(r_bytes(rng, 14)))
    out += [P(s) for s in long_urls(rng, 40 * k)]
    out += [P(b) for b in bases()[:: max(1, 12 // k)]]
    return out


# ------------------------------------------------------------------ C02
def c02(rng, k):
    bs = bases()
    out = [P(b) for b in sample(rng, bs, 16000 * k)]
    for _ in range(12000 * k):
        out.append(P(r_url(rng)))
    toks = [b"a", b":", b"/", b"?", b"#", b"@", b"//", b"s:", b"&", b"="]
    out += [P(s) for s in strings(toks, 4 if k == 1 else 5)]
    comp = [b"", b"u", b":", b"@", b"h", b"1", b"[::1]"]
    for n in range(1, 6 if k == 1 else 8):
        for t in sample(rng, itertools.product(comp, repeat=n), 3000 * k):
            out.append(P(b"//" + b"".join(t) + rng.choice([b"", b"/", b"/a", b"?", b"#", b"?q#f"])))
    out += [P(s) for s in long_urls(rng, 20 * k)]
    return out


# ------------------------------------------------------------------ C03
def c03(rng, k):
    out = []
    hosts = sorted(set(host_texts()))
    out += [P(b"//" + h) for h in hosts]
    out += [P(b"s://u@" + h + b":1/p") for h in sample(rng, hosts, 800 * k)]
    some = [h.encode("latin-1") for h in ["h", "1.2.3.4", "[::1]", "[v1.a]", "1.2.3", "%41b", "256.1.1.1"]]
    ways = [lambda h: O("set_host", h), lambda h: O("set_encoded_host", h),
            lambda h: O("set_encoded_authority", b"u@" + h + b":1"), lambda h: O("set_encoded_authority", h),
            lambda h: O("set_encoded_origin", b"s://" + h), lambda h: O("set_encoded_url", b"//" + h + b"/a"),
            lambda h: O("set_encoded_origin", b"s://u:p@" + h + b":9")]
    clears = [O(o) for o in CLEARS] + [O("set_port", b"1"), O("set_user", b"u"), O("set_encoded_path", b"/p"),
                                       O("normalize"), O("set_encoded_origin", b"x:"), O("set_encoded_url", b"/p"),
                                       O("set_scheme", b"x"), O("seg_insert", b"z")]
    for b in [None, "", "s://h", "//1.2.3.4/p", "s://u:p@[::1]:80/a?q#f", "//[v1.a]:", "//u@", "/p"]:
        for h in some:
            for w in ways:
                for c in clears:
                    out.append([H(b), w(h), c])
    for h in sample(rng, hosts, 1500 * k):
        for w in rng.sample(ways, 2):
            out.append([H(rng.choice([None, "s://h/p", "//[::1]:1", "//u@1.2.3.4"])), w(h)])
        out.append([H("//1.2.3.4"), O("set_host", h)])
    ops = HOSTOPS + ["set_port_part", "set_userinfo_part", "set_encoded_user", "set_encoded_path", "set_scheme"]
    for _ in range(500 * k):
        out.append(hist(rng, 16, ops=ops, fills=.02, lookups=0, walks=0))
    for _ in range(1500 * k):
        out.append([H(rng.choice([None, "//h", "s://[::1]"])), O("set_host", r_bytes(rng, 10)),
                    O("set_host", mutate(rng, r_host(rng)))])
    return out


# ------------------------------------------------------------------ C04
def c04(rng, k):
    out = []
    for _ in range(1100 * k):
        out.append(hist(rng, 20, fills=.12, inj=.08, lookups=0, walks=0))
    for b in bases_tiny():
        for op, pre in FILLS:
            for d in (-1, 0, 1):
                out.append([H(b), OF(op, "%s:%d" % (pre, d)), O(rng.choice(CLEARS))])
    out += sample(rng, one_step(bases_tiny(), SETOPS), 12000 * k)
    out += [P(r_url(rng)) for _ in range(3000 * k)]
    return out


# ------------------------------------------------------------------ C05
def two_step(rng, n, bs, ops):
    out = []
    bs = list(bs)
    for _ in range(n):
        b = [H(rng.choice(bs))]
        for _ in range(rng.choice([2, 2, 3])):
            op = rng.choice(ops)
            b.append(O(op, rng.choice(ARGS[op]), rng.randint(0, 4), rng.randint(0, 4)))
        out.append(b)
    return out


def c05(rng, k):
    out = []
    for _ in range(1400 * k):
        out.append(hist(rng, 22, inj=.04, lookups=0, walks=0))
    out += two_step(rng, 15000 * k, bases_small() + ["", "a", "s:"], ALLOPS)
    out += sample(rng, one_step(bases_small(), ALLOPS), 15000 * k)
    return out


# ------------------------------------------------------------------ C06
def valid_arg(op):
    return [a for a in ARGS[op] if a]


def c06(rng, k):
    out = sample(rng, one_step(bases_small(), SETOPS, valid_arg), 35000 * k)
    out += one_step(["", "s://u:p@h:1/a?q#f", "/a", "//", "a/b", "s:a:b", "//u@h:1", "?", "#"], SETOPS, valid_arg)
    for _ in range(6000 * k):
        b = r_url(rng)
        op = rng.choice(SETOPS)
        out.append([H(b), O(op, r_arg(rng, op, .1))])
    for _ in range(500 * k):
        out.append(hist(rng, 15, ops=SETOPS, lookups=0, walks=0))
    return out


# ------------------------------------------------------------------ C07
def c07(rng, k):
    bs = bases_small()
    if k > 1:
        bs = sample(rng, bases(), 20000) + bs
    out = one_step(bs, CLEARS, lambda op: [""])
    for _ in range(3000 * k):
        b = r_url(rng)
        out.append([H(b)] + [O(rng.choice(CLEARS)) for _ in range(rng.randint(1, 6))])
    # values set by the modifiers, then cleared
    for _ in range(3000 * k):
        b = [H(rng.choice(bs))]
        for _ in range(rng.randint(1, 4)):
            op = rng.choice(SETOPS)
            b.append(O(op, r_arg(rng, op, .1)))
            b.append(O(rng.choice(CLEARS)))
        out.append(b)
    return out


# ------------------------------------------------------------------ C08
ENCODED = [o for o in SETOPS if o not in PLAIN and o != "set_port_n"]


def c08(rng, k):
    out = sample(rng, one_step(bases_small(), SETOPS, flags="n"), 45000 * k)
    frame = {"set_scheme": [("", ""), ("a", ""), ("a", "b")], "set_port": [("", ""), ("1", "1")],
             "set_port_part": [("", ""), (":", ""), (":1", "1")], "set_userinfo_part": [("", "@"), ("u", ""), ("u", "@"), ("u:", "@"), ("u@", "")],
             "set_password_part": [("", ""), (":", ""), (":a", "b"), ("", "p")], "set_query_part": [("", ""), ("?", ""), ("?a", "b"), ("", "q")],
             "set_fragment_part": [("", ""), ("#", ""), ("#a", "b"), ("", "f")],
             "set_encoded_origin": [("", ":"), ("s", "://h"), ("s:", ""), ("s://", ""), ("s://h", ""), ("s://u", "@h"), ("s://h:", "")],
             "set_encoded_authority": [("", ""), ("h", ""), ("u", "@h"), ("u:", "@h"), ("u@", ""), ("h:", ""), ("[", "]"), ("%", "1")],
             "set_encoded_host": [("", ""), ("h", ""), ("h", "h"), ("[", "]"), ("%4", ""), ("1.2.3.", "")],
             "set_encoded_path": [("", ""), ("/", ""), ("/a", "b"), ("a", "b"), ("a", "/b"), ("/a/", "/b"), ("%4", "")],
             "set_encoded_url": [("", ""), ("s", ":"), ("s://", ""), ("/", ""), ("?", ""), ("#", "")]}
    for op in ENCODED:
        for p, q in frame.get(op, [("", ""), ("a", ""), ("a", "b"), ("%4", ""), ("%", "1")]):
            for bs in (["//u:p@h:1/a?q#f", "s:x"] if k == 1 else ["//u:p@h:1/a?q#f", "s:x", "", "a/b", "//", "s:/x"]):
                blk = []
                for b in ALL256:
                    blk.append([H(bs, "n"), O(op, p.encode() + b + q.encode())])
                out += blk
    hosts = sorted(set(host_texts()))
    for h in sample(rng, hosts, 2500 * k):
        out.append([H(rng.choice(["//x/p", "s:/a", ""]), "n"), O("set_encoded_host", h),
                    O("set_encoded_authority", h), O("set_encoded_origin", b"s://" + h)])
    # changes that would make the text read differently
    for b in bases([None, "s"], [None, "", "h", "u@", ":", "u:p@h:1", "@"], PATHS + ["a:b//c", "/a:b", "x", "//:"],
                   [None, "q"], [None]):
        out.append([H(b, "n")] + [O(o) for o in CLEARS])
        for op, a in (("set_user", "u"), ("set_host", "h"), ("set_port", "1"), ("set_password", "p"),
                      ("set_encoded_authority", "h"), ("set_encoded_userinfo", "u"), ("set_port_n", "1"),
                      ("set_encoded_origin", "x:"), ("set_encoded_origin", "x://h"), ("set_scheme", "x")):
            out.append([H(b, "n"), O(op, a)])
        for p in PATHS:
            out.append([H(b, "n"), O("set_encoded_path", p)])
    for _ in range(400 * k):
        out.append(hist(rng, 15, ops=SETOPS, lookups=0, walks=0, flags="n"))
    return out


# ------------------------------------------------------------------ C09
def c09(rng, k):
    bs = bases_tiny()
    out = []
    # refused arguments, with the same and other calls afterwards
    out += sample(rng, one_step(bs, SETOPS + SEGOPS), 20000 * k)
    # every allocation of every call fails
    for b in bs:
        for op, pre in FILLS:
            out.append([H(b), OF(op, "%s:%d" % (pre, 40), 1), OF(op, "%s:%d" % (pre, 40), 2), OF(op, pre + ":3")])
    for b in sample(rng, bs + bases_small(), 900 * k):
        for op in ALLOPS:
            a = r_arg(rng, op, .1) if rng.random() < .5 else rng.choice(ARGS[op]).encode("latin-1")
            out.append([H(b), O(op, a, 1, 2, 1), O(op, a, 1, 2, 2), O(op, a, 1, 2, 0)])
    out += limited(rng, 150 * k, "-")
    for op in ALLOPS:     # a url without any storage
        for a in ARGS[op]:
            out.append([H(None), O(op, a, 0, 0, 1), O(op, a, 0, 0, 0)])
    for _ in range(500 * k):
        out.append(hist(rng, 18, inj=.4, lookups=0, walks=0))
    for _ in range(400 * k):
        u = r_url(rng)
        out.append(["T %s 1" % hx(u)])
        out.append(["T %s 1" % hx(mutate(rng, u))])
        out.append(["T %s 0" % hx(mutate(rng, u))])
        out.append([H(r_url(rng)), "A 2 copy 0", O("set_encoded_url", r_url(rng) * 1, slot=2),
                    O("set_encoded_fragment", b"x" * rng.randint(0, 60)), "A 2 assign 1", "A 2 assign 0"])
        out.append([H(r_url(rng)), "A 2 copy 1", "A 2 assign 1", "A 2 copy 0", O("set_fragment", b"z" * 50, slot=2, inj=1)])
    return out


# ------------------------------------------------------------------ C10
def c10(rng, k):
    out = []
    bs = ["", "s://u:p@h:1/a/b?q#f", "//", "/a", "s:a"]
    for op in PLAIN:
        for b in ALL256:
            for x in (b, b + b"a", b"a" + b, b"a" + b + b"z", b * 2):
                out.append([H(rng.choice(bs), "n"), O(op, x, rng.randint(0, 2))])
        for x in itertools.product(b"%+&=/?#@: .0A~\x00\xff", repeat=2):
            for y in (b"ab" + bytes(x), bytes(x) + b"ab"):
                out.append([H(rng.choice(bs), "n"), O(op, y, rng.randint(0, 2))])
        for _ in range(900 * k):
            n = rng.choice([0, 1, 2, 5, 20, 60])
            s = bytes(rng.randrange(256) for _ in range(n)) if rng.random() < .5 else pick(rng, DELIM + b"%", n)
            out.append([H(rng.choice(bs), "n"), O(op, s, rng.randint(0, 3))])
        for x in HOSTS_OK + HOSTS_BAD + ["%41", "%", "%%", "%4", "%zz", "%25"]:
            out.append([H(rng.choice(bs), "n"), O(op, x)])
        out.append([H("//h/a", "n"), O(op, bytes(range(256)))])
        out.append([H("//h/a", "n"), O(op, bytes(range(255, -1, -1)) * 3)])
    for h in sample(rng, sorted(set(host_texts())), 2500 * k):
        out.append([H("//x", "n"), O("set_host", h)])
    for _ in range(400 * k):
        out.append(hist(rng, 15, ops=PLAIN, lookups=0, walks=0, fills=.05, flags="n"))
    return out


# ------------------------------------------------------------------ C11
SPOTS = [b"//%s@h", b"//u:%s@h", b"//%s", b"//h/%s", b"%s/x", b"s:x/%s", b"?%s", b"?k=%s&b", b"?%s=v&b=c", b"#%s",
         b"?a&%s", b"//h/a/%s/b?q", b"//%s:1"]


def c11(rng, k):
    out = []
    for t in SPOTS:
        for b in range(256):
            sp = {"%02x" % b, "%02X" % b, "%x%X" % (b >> 4, b & 15), "%X%x" % (b >> 4, b & 15)}
            for h in sp:
                out.append(P(t % (b"%" + h.encode())))
                out.append(P(t % (b"a%" + h.encode() + b"0")))
        for _ in range(250 * k):
            out.append(P(t % text(rng, REG, 0, 10, .5)))
        out.append(P(t % b"".join(b"%%%02x" % b for b in range(256))))
    for _ in range(4000 * k):
        out.append(P(r_url(rng)))
    dec = [("set_encoded_user", REG), ("set_encoded_password", REG), ("set_encoded_host", REG), ("set_encoded_query", QCH),
           ("set_encoded_fragment", QCH), ("seg_insert_encoded", PCH), ("set_encoded_userinfo", REG), ("set_encoded_path", PCH + b"/")]
    for _ in range(5000 * k):
        op, ch = rng.choice(dec)
        out.append([H(rng.choice([None, "//u:p@h:1/a?k=v#f", "//x"]), "n"), O(op, text(rng, ch, 1, 8, .5))])
    for _ in range(300 * k):
        out.append(hist(rng, 12, lookups=.2, walks=0, flags="n"))
    return out


# ------------------------------------------------------------------ C12
PCTX = [("", ""), ("", "?q/r"), ("s:", "#f/g"), ("//h", "?a/b#c/d"), ("s://u:p@h:1", ""), ("//", "#")]
MOVES = ["+++---", "+-+-+-", "++--++", "-+-+", "--++--", "+--+", "+" * 9 + "-" * 9, "-" * 9 + "+" * 9]


def paths(rng, k):
    for s in strings([b"/", b"a", b"%2f"], 6 if k == 1 else 8):
        yield s
    for s in strings([b"/", b".", b"b:"], 4 if k == 1 else 6):
        yield s
    for _ in range(800 * k):
        yield r_path(rng, True, False)
    yield b"/a" * 300
    yield b"/" * 300


def c12(rng, k):
    out = []
    n = 0
    for p in paths(rng, k):
        for (a, z) in (PCTX if len(p) < 7 else rng.sample(PCTX, 2)):
            if a.endswith(("/", "h", "1")) and p and not p.startswith(b"/"):
                continue
            if not a.endswith(("/", "h", "1")) and p.startswith(b"//"):
                continue
            u = a.encode() + p + z.encode()
            out.append(P(u))
            n += 1
            if n % 3 == 0:
                out.append([H(u, "n")] + ["W 1 0 %d %s" % (rng.randint(0, 8), m) for m in rng.sample(MOVES, 2)])
            if n % 3 == 1:
                out.append([H(rng.choice(["//h/x?q#f", "//h", "s://u@h/a/b/c#f", "s:"])), O("set_encoded_path", p),
                            "W 1 0 %d %s" % (rng.randint(0, 8), rng.choice(MOVES))])
    ops = SEGOPS + ["set_encoded_path", "set_encoded_path", "set_encoded_query", "set_query_part", "set_fragment", "set_encoded_url",
                    "set_encoded_authority", "set_encoded_origin", "set_scheme", "set_host"]
    for _ in range(500 * k):
        out.append(hist(rng, 18, ops=ops, lookups=0, walks=.2))
    for _ in range(300 * k):
        out.append(hist(rng, 12, lookups=0, walks=.2))
    return out


# ------------------------------------------------------------------ C13
def c13(rng, k):
    bs = bases([None, "s"], [None, "", "h", "u:p@h:80"], PATHS, [None, "k=v/x"], [None, "f/g"])
    out = sample(rng, one_step(bs, SEGOPS), 32000 * k)
    out += one_step(bases_tiny(), ["seg_erase", "seg_erase_range"])
    for _ in range(900 * k):
        out.append(hist(rng, 16, start=rng.choice(bs), ops=SEGOPS, lookups=0, walks=0, fills=.03))
    for _ in range(300 * k):
        out.append(hist(rng, 14, ops=SEGOPS * 3 + ALLOPS, lookups=0, walks=0, inj=.1))
    for b in ALL256:
        for op in ("seg_insert", "seg_insert_encoded", "seg_replace", "seg_replace_encoded"):
            out.append([H(rng.choice(["//h/a/b", "s:a", "/x", "a/b?q#f"])), O(op, b, rng.randint(0, 2)),
                        O(op, b"a" + b, rng.randint(0, 2))])
    return out


# ------------------------------------------------------------------ C14
def queries(rng, k):
    for s in strings([b"&", b"=", b"a", b"%26"], 5 if k == 1 else 7):
        yield s
    for s in strings([b"&", b"?", b"/", b"%3d="], 4 if k == 1 else 5):
        yield s
    for _ in range(700 * k):
        yield r_query(rng)
    yield b"a=b&" * 200
    yield b"&" * 300


def c14(rng, k):
    out = []
    n = 0
    for q in queries(rng, k):
        n += 1
        for (a, z) in rng.sample([("", ""), ("", "#f&g=h"), ("s://h/p", "#"), ("/a&b=c", "#&"), ("//h", ""), ("s:x", "#=")], 2):
            u = a.encode() + b"?" + q + z.encode()
            out.append(P(u))
            if n % 3 == 0:
                out.append([H(u, "n")] + ["W 1 1 %d %s" % (rng.randint(0, 8), m) for m in rng.sample(MOVES, 2)])
        if n % 3:
            out.append([H(rng.choice(["//h/x?q#f", "//h", "s://u@h/a/b/c#f", "?a&b", "?"])),
                        O("set_encoded_query", q) if n % 3 == 1 else O("set_query_part", b"?" + q),
                        "W 1 1 %d %s" % (rng.randint(0, 8), rng.choice(MOVES)), O(rng.choice(CLEARS))])
        if n % 5 == 0:
            out.append([H("?a#f"), O("set_query", q)])
    out += [P(b) for b in bases([None, "s"], [None, "h"], ["", "/a"], QUERIES, FRAGS)]
    ops = ["set_query", "set_encoded_query", "set_query_part", "set_fragment", "set_fragment_part", "set_encoded_url",
           "set_encoded_path", "set_host", "seg_insert", "seg_erase", "set_encoded_origin", "set_scheme"]
    for _ in range(600 * k):
        out.append(hist(rng, 16, ops=ops, lookups=.1, walks=.2))
    for _ in range(200 * k):
        out.append(hist(rng, 12, lookups=0, walks=.2))
    return out


# ------------------------------------------------------------------ C15
def c15(rng, k):
    out = []
    keys = [b"", b"a", b"b", b"ab", b"a=", b"=", b"&", b"%61", b"A", b"aa", b"a&", b"\x00", b"a\x00", b"\xff", b"%", b"+", b" "]
    for q in strings([b"&", b"=", b"a", b"b", b"%61"], 5 if k == 1 else 6):
        if rng.random() < (.6 if k == 1 else 1):
            out.append([H(b"?" + q + rng.choice([b"", b"#a", b"#a=b&a"]), "n")] +
                       ["L 1 " + hx(x) for x in rng.sample(keys, 4) + [b"a"]])
    for _ in range(3500 * k):
        q = r_query(rng)
        ks = set()
        for p in q.split(b"&"):
            e = p.split(b"=")[0]
            d = b""
            i = 0
            while i < len(e):
                if e[i] == 37:
                    d += bytes([int(e[i + 1:i + 3], 16)])
                    i += 3
                else:
                    d += e[i:i + 1]
                    i += 1
            ks |= {e, d, d[:-1], d + b"x", d.upper(), d.lower(), d[::-1]}
        if rng.random() < .5:   # repeat a key under another spelling
            p = rng.choice(q.split(b"&")).split(b"=")[0]
            q += b"&" + re_spell(rng, p) + b"=" + text(rng, REG, 0, 3)
        st = [H(b"s://h/p?" + q + rng.choice([b"", b"#" + q]), "n")] if rng.random() < .7 else \
            [H("//h?x=1#f", "n"), O("set_encoded_query", q)]
        out.append(st + ["L 1 " + hx(x) for x in sample(rng, sorted(ks), 6)])
    for b in range(256):
        e = b"%%%02x" % b
        out.append([H(b"?x&" + e + b"=1&" + e.upper() + b"=2&y" + e, "n"), "L 1 " + hx(bytes([b])),
                    "L 1 " + hx(b"y" + bytes([b])), "L 1 " + hx(e)])
    for b in bases([None], [None, "h"], ["", "/a=1"], QUERIES, FRAGS):
        out.append([H(b, "n")] + ["L 1 " + hx(x) for x in keys])
    for _ in range(200 * k):
        out.append(hist(rng, 14, ops=["set_query", "set_encoded_query", "set_query_part", "set_fragment"], lookups=.6, walks=0, flags="n"))
    return out


def re_spell(rng, enc):
    """another spelling of the same decoded text"""
    d = b""
    i = 0
    while i < len(enc):
        if enc[i] == 37:
            c = int(enc[i + 1:i + 3], 16)
            i += 3
        else:
            c = enc[i]
            i += 1
        d += bytes([c]) if c in UNRES and rng.random() < .5 else esc(rng, c)
    return d


# ------------------------------------------------------------------ C16
def cases(s):
    return {bytes(t) for t in itertools.product(*[(c | 32, c & ~32) for c in s])}


def c16(rng, k):
    out = []
    names = [b"ftp", b"file", b"http", b"https", b"ws", b"wss"]
    for n in names:
        for c in sorted(cases(n)):
            out.append(S(c))
            out.append([H(c + b"://H/P?Q#F", "n"), O("normalize"), O("normalize_scheme"), O("normalize")])
        for i in range(len(n) + 1):
            for b in range(256):
                out.append(S(n[:i] + bytes([b]) + n[i:]))
                if i < len(n):
                    out.append(S(n[:i] + bytes([b]) + n[i + 1:]))
            out.append(S(n[:i]))
            out.append(S(n[i:]))
    for s in strings([b"f", b"t", b"p", b"h", b"w", b"s", b"W", b"S", b"H"], 4 if k == 1 else 5):
        out.append(S(s))
    for _ in range(1500 * k):
        out.append(S(mutate(rng, rng.choice(names))))
    for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+-.":
        for t in ("%s:X", "A%sB:", "%s+A://UPPER@HOST:1/PATH?Q#F"):
            u = t % c
            if u[0] in "0123456789+-.":
                u = "Z" + u
            out.append([H(u), O("normalize_scheme"), O("normalize")])
    for n in list(range(1, 41)) + [63, 64, 65, 127, 128, 129, 254, 255, 256, 257]:
        for _ in range(3 * k):
            sch = pick(rng, b"abmyzABMYZ", 1) + pick(rng, b"abmyzABMYZ019+-.", n - 1)
            out.append([H(sch + rng.choice([b":", b"://H/P?Q#F", b":Ab"])), O("normalize_scheme"), O("normalize")])
            out.append([H("//H/P"), O("set_scheme", sch), O("normalize")])
    for b in bases(["S", "hTTp", None], AUTHS + ["U:P@HOST"], ["", "/A", "A", "/A/%AF"], [None, "Q=%AB"], [None, "F"]):
        out.append([H(b), O("normalize"), O("normalize_scheme")])
    for _ in range(400 * k):
        out.append(hist(rng, 12, ops=ALLOPS + ["normalize", "normalize_scheme", "set_scheme"] * 8, lookups=0, walks=0))
    return out


# ------------------------------------------------------------------ C17
def c17(rng, k):
    out = []

    def split(u):
        t = u
        f = q = au = sch = None
        if b"#" in t:
            t, f = t.split(b"#", 1)
        if b"?" in t:
            t, q = t.split(b"?", 1)
        c = t.find(b":")
        s = t.find(b"/")
        if c >= 0 and (s < 0 or c < s):
            sch, t = t[:c], t[c + 1:]
        if t.startswith(b"//"):
            p = t.find(b"/", 2)
            au, t = (t[2:], b"") if p < 0 else (t[2:p], t[p:])
        return sch, au, t, q, f
    urls = [b.encode() for b in sample(rng, bases(), 5000 * k)] + [r_url(rng) for _ in range(3500 * k)]
    for u in urls:
        sch, au, path, q, f = split(u)
        blk = [H(None, "c")]
        if sch is not None and rng.random() < .4 and au != b"":
            blk.append(O("set_encoded_origin", sch + b":" + (b"//" + au if au is not None else b"")))
        else:
            if sch is not None:
                blk.append(O("set_scheme", sch))
            if au:
                blk.append(O("set_encoded_authority", au))
        if path:
            blk.append(O("set_encoded_path", path))
        if q is not None:
            blk.append(O("set_query_part", b"?" + q))
        if f is not None:
            blk.append(O("set_fragment_part", b"#" + f))
        out.append(blk)
    vals = [("set_scheme", [b"s", b"HTTP", b"a1+"]), ("set_user", [b"u", b"a:b", b"%"]), ("set_password", [b"p", b":", b"p@"]),
            ("set_host", [b"h", b"1.2.3.4", b"[::1]", b"a b"]), ("set_port", [b"1", b"00080"]),
            ("set_encoded_path", [b"/a/b", b"a", b"a:b", b"/", b"//x", b"x/y"]), ("set_query", [b"k=v&a", b"#", b"&"]),
            ("set_fragment", [b"f", b"a#b", b"%"])]
    perms = list(itertools.permutations(range(len(vals))))
    for _ in range(5000 * k):
        ps = list(rng.choice(perms))[:rng.randint(2, 8)]
        out.append([H(rng.choice([None, None, "//x/y?z#w", "s:"]), "c")] +
                   [O(vals[i][0], rng.choice(vals[i][1])) for i in ps])
    enc = ["set_scheme", "set_encoded_user", "set_encoded_password", "set_encoded_host", "set_port", "set_encoded_path",
           "set_encoded_query", "set_encoded_fragment"]
    for _ in range(2500 * k):
        ops = rng.sample(enc, rng.randint(3, 8))
        out.append([H(None, "c")] + [O(o, r_arg(rng, o, 0)) for o in ops])
    return out


# ------------------------------------------------------------------ C18
def c18(rng, k):
    out = []
    bs = bases_small()
    for b in bs:
        for c in ("copy", "move", "assign"):
            out.append([H(b), "A 2 %s 0" % c, O(rng.choice(CLEARS), slot=1), O("set_encoded_fragment", b"zz" * rng.randint(1, 9), slot=2),
                        "A 1 assign 0", "A 1 selfassign 0"])
    for _ in range(700 * k):
        blk = [H(r_url(rng) if rng.random() < .9 else None)]
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            t = rng.choice([1, 2])
            if r < .4:
                blk.append("A %d %s %d" % (t, rng.choice(["copy", "move", "assign", "assign", "selfassign"]),
                                           1 if rng.random() < .15 else 0))
            else:
                op = rng.choice(ALLOPS)
                a = r_arg(rng, op) if rng.random() < .8 else b"x" * rng.randint(20, 80)
                if op == "set_port_n":
                    a = b"80"
                blk.append(O(op, a, rng.randint(0, 5), rng.randint(0, 5), 1 if rng.random() < .05 else 0, t))
        out.append(blk)
    # both urls alike: equal, one component different, or a few bytes different
    for _ in range(1500 * k):
        u = r_url(rng)
        v = [u, near(rng, u), near(rng, u), mutate(rng, u)][rng.randrange(4)]
        out.append([H(None), "A 2 copy 0", O("set_encoded_url", u), O("set_encoded_url", v, slot=2), "A 1 assign 0",
                    O(rng.choice(CLEARS), slot=rng.choice([1, 2])), "A 2 assign 0"])
    # different capacities on both sides, assigned both ways
    for n in (0, 1, 10, 40, 200):
        for m in (0, 1, 10, 40, 200):
            out.append([H("//h/" + "a" * n), "A 2 copy 0", O("set_encoded_path", "/" + "b" * m, slot=2),
                        "A 1 assign 0", O("set_encoded_path", "/" + "c" * 300, slot=1), "A 2 assign 0",
                        O("set_encoded_path", "", slot=2), "A 1 move 0", "A 2 assign 0", "A 2 move 0", "A 1 copy 0"])
    return out


# ------------------------------------------------------------------ C19
def limited(rng, n, flags):
    """allocators that provide only small buffers"""
    out = []
    for _ in range(n):
        m = rng.choice([0, 1, 2, 5, 10, 20, 40, 100])
        b = hist(rng, 10, fills=.3, lookups=0, walks=0, flags=flags + "m%d" % m)
        if rng.random() < .3:
            b += ["A 2 copy 0", O("set_encoded_fragment", b"f" * rng.randint(0, 60), slot=2), "A 1 assign 0",
                  O("set_encoded_fragment", b"f" * rng.randint(0, 90), slot=2), "A 2 assign 0"]
        out.append(b)
    for b in bases_tiny():
        for m in (0, 1, 3, 8):
            for d in (-1, 0, 1, 2, 9):
                op, pre = rng.choice(FILLS)
                out.append([H(b, flags + "m%d" % m), OF(op, "%s:%d" % (pre, d)), OF(op, "%s:%d" % (pre, m + d)), O("set_encoded_url", "s://h")])
    return out


def c19(rng, k):
    out = []
    for _ in range(900 * k):
        out.append(hist(rng, 22, fills=.2, inj=.05, lookups=.05, walks=.05, flags="n"))
    for b in bases_tiny() + [None]:
        for op, pre in FILLS:
            out.append([H(b, "n"), OF(op, pre + ":0"), OF(op, pre + ":1"), OF(op, pre + ":-1"),
                        O(rng.choice(CLEARS)), OF(*rng.choice(FILLS[:1]) + ()) if False else OF(op, pre + ":2")])
    out += limited(rng, 250 * k, "n")
    for _ in range(60 * k):      # long arguments
        blk = [H(r_url(rng), "n")]
        for _ in range(5):
            op = rng.choice([o for o in SETOPS + SEGOPS if o != "set_port_n"])
            blk.append(O(op, r_arg(rng, op, 0) + rng.choice([b"a", b"1", b"%41"]) * rng.randint(100, 900), rng.randint(0, 5)))
        out.append(blk)
    out += sample(rng, one_step(bases_small(), ALLOPS, flags="n"), 15000 * k)
    for s in sample(rng, byte_sweep(), 3000 * k):
        out.append(P(s))
    for _ in range(2500 * k):
        out.append(P(mutate(rng, r_url(rng))))
    # truncations: text that ends in the middle of anything
    for _ in range(150 * k):
        u = r_url(rng)
        for i in range(len(u)):
            out.append(P(u[:i]))
    for h in sample(rng, sorted(set(host_texts())), 800):
        out.append(P(b"//" + h))
    return out


# ------------------------------------------------------------------ C20
TSIZE = [1, 2, 4, 8, 16, 3, 12, 24, 32, 64, 128]


def c20(rng, k):
    out = []
    big = [2 ** 64 - 1, 2 ** 63, 2 ** 62, 2 ** 61, 2 ** 61 + 1, 2 ** 60 + 1, 2 ** 32, 2 ** 31, 2 ** 58, 2 ** 57 + 1, 2 ** 64 - 64,
           2 ** 64 - 8, (2 ** 64) // 3 + 1, (2 ** 64) // 12 + 1, (2 ** 64) // 24 + 1]
    # every size and offset of a small pool, with every request after every other
    for size in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 130]:
        for off in (0, 1, 2, 3, 7, 8, 15, 31, 33, 63):
            for t in range(11):
                n = max(0, size // TSIZE[t])
                for c in (n, n + 1):
                    out.append(["N %d %d" % (size, off), "R %d %d" % (t, c), "R 0 1", "R %d 1" % rng.randrange(11), "R 0 0"])
                out.append(["N %d %d" % (size, off), "R 0 %d" % rng.randint(0, size + 1), "R %d 1" % t, "R 0 1", "R %d 0" % t])
    for t in range(11):
        for b in big:
            for d in (-1, 0, 1):
                if 0 <= b + d < 2 ** 64:
                    out.append(["N %d %d" % (rng.choice([0, 8, 100, 256]), rng.randrange(64)), "R 0 %d" % rng.randint(0, 9),
                                "R %d %d" % (t, b + d), "R 0 1", "R 3 1"])
    for _ in range(6000 * k):
        size = rng.choice([0, 1, 7, 8, 16, 64, 100, 256, 1000, 4096])
        b = ["N %d %d" % (size, rng.randrange(64)) if rng.random() < .7 else "F %d" % rng.randrange(9)]
        for _ in range(rng.randint(1, 14)):
            r = rng.random()
            if r < .8:
                t = rng.randrange(11)
                c = rng.choice([0, 1, 1, 2, 3, rng.randint(0, 1 + size // TSIZE[t]), rng.choice(big)]) if rng.random() < .95 \
                    else rng.randrange(2 ** 64)
                b.append("R %d %d" % (t, c))
            elif r < .9:
                b.append("D %d" % rng.randrange(8))
            else:
                b.append("Q")
        out.append(b)
    for _ in range(1500 * k):
        b = ["N %d %d" % (rng.choice([0, 1, 10, 20, 40, 80, 160, 320, 700]), rng.randrange(64))]
        for _ in range(rng.randint(3, 14)):
            op = rng.choice(ALLOPS)
            a = r_arg(rng, op, .1)
            b.append("U %s %s %d %d" % (op, hx(a), rng.randint(0, 4), rng.randint(0, 4)))
            if rng.random() < .2:
                b.append("K " + rng.choice(["copy", "copy", "move", "assign"]))
            if rng.random() < .1:
                b.append("R %d %d" % (rng.randrange(11), rng.randint(0, 5)))
        out.append(b)
    for _ in range(800 * k):
        b = ["N %d %d" % (rng.choice([0, 10, 40, 100, 300]), rng.randrange(64))]
        for _ in range(rng.randint(1, 6)):
            if rng.random() < .5:
                b.append("G " + hx(bytes(rng.randrange(256) for _ in range(rng.randint(0, 60)))))
            else:
                b.append("V %d %s" % (rng.randrange(5), hx(b"s://" + text(rng, REG, 0, 40) + b":" + text(rng, REG, 0, 40) + b"@" +
                                                            text(rng, REG, 0, 40) + b"?" + text(rng, REG, 0, 60) + b"#" + text(rng, REG, 0, 60))))
        out.append(b)
    return out


# ------------------------------------------------------------------ C21
def c21(rng, k):
    out = [["B " + hx(b)] for b in sample(rng, bases(), 2500 * k)]
    for _ in range(2500 * k):
        out.append(["B " + hx(r_url(rng))])
    for u in long_urls(rng, 15 * k):
        out.append(["B " + hx(u)])
    for h in sample(rng, sorted(set(host_texts())), 400 * k):
        out.append(["B " + hx(b"//" + h)])
    # every call; then its argument is overwritten
    out += sample(rng, one_step(bases_small(), ALLOPS, flags="bn"), 9000 * k)
    out += sample(rng, one_step(bases_tiny(), ALLOPS, valid_arg, flags="bn"), 9000 * k)
    for op, pre in FILLS:
        for b in bases_tiny():
            out.append([H(b, "bn"), OF(op, pre + ":0"), OF(op, pre + ":1")])
    keys = [b"a", b"k", b"", b"b", b"%61", b"k=v"]
    for _ in range(250 * k):
        b = hist(rng, 12, fills=.1, lookups=0, walks=0, flags="bn")
        # looking in every way, then looking again
        for _ in range(4):
            b.append("L 1 " + hx(rng.choice(keys)))
            b.append("W 1 %d %d %s" % (rng.randint(0, 1), rng.randint(0, 6), rng.choice(MOVES)))
            b.append("Q 1")
        out.append(b)
    for _ in range(1500 * k):
        b = [H(r_url(rng), "bn")]
        for _ in range(3):
            b.append(rng.choice(["L 1 " + hx(rng.choice(keys)),
                                 "W 1 %d %d %s" % (rng.randint(0, 1), rng.randint(0, 6), rng.choice(MOVES))]))
            b.append("Q 1")
        out.append(b)
    return out


# ------------------------------------------------------------------ C22
def c22(rng, n):
    """one thread's script: n histories on urls of its own, and looks at the shared ones"""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .35:
            b = hist(rng, rng.randint(2, 8), inj=.1, fills=.1, lookups=.15, walks=.15)
            if rng.random() < .4:
                b += ["A 2 copy 0", O("set_encoded_query", "z=1", slot=2), "A 1 assign 0", "A 2 move 0"]
        elif r < .55:
            b = P(r_url(rng))
        elif r < .65:
            b = P(mutate(rng, r_url(rng)))
        elif r < .75:
            b = S(r_scheme(rng) if rng.random() < .5 else rng.choice([b"http", b"WSS", b"ftp", b"File", b"x", b""]))
        elif r < .85:
            b = ["B " + hx(r_url(rng))]
        else:
            b = []
        out.append(b + ["V %d" % rng.randrange(30) for _ in range(rng.randint(1, 2))])
    return out


PLANS = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 22)}

# what the worldly inputs change, and how many there are
WORLD = {"C01": None, "C02": None, "C03": HOSTOPS, "C04": ALLOPS, "C05": ALLOPS, "C06": SETOPS, "C07": CLEARS, "C08": SETOPS,
         "C09": ALLOPS, "C10": PLAIN, "C11": SETOPS, "C12": SEGOPS + ["set_encoded_path"], "C13": SEGOPS,
         "C14": ["set_query", "set_encoded_query", "set_query_part"], "C15": ["set_query", "set_encoded_query"],
         "C16": ["normalize", "normalize_scheme", "set_scheme"], "C17": SETOPS, "C18": ALLOPS, "C19": ALLOPS, "C21": ALLOPS}
WFLAGS = {"C08": "n", "C11": "n", "C15": "n", "C17": "c", "C19": "n", "C21": "bn"}

LISTS = {"C02", "C04", "C05", "C06", "C12", "C13", "C14", "C18", "C19"}


def plan(prop, rng, k):
    out = PLANS[prop](rng, k)
    if prop != "C20":
        out.append(P(b""))
        out = out + stretched(rng, out, 800 * k)
    if prop in WORLD:
        if WORLD[prop]:
            for _ in range(min(k, 4)):
                out += sized(rng, WORLD[prop], WFLAGS.get(prop, "-"))
            out += world(rng, 2500 * k, WORLD[prop], WFLAGS.get(prop, "-"))
            if "set_port" in WORLD[prop]:
                out += ports_world(WFLAGS.get(prop, "-"))
        else:
            for _ in range(1500 * k):
                u = w_url(rng).encode()
                out += [P(u), P(mutate(rng, u))]
    if prop in ("C01", "C02", "C03", "C04", "C11", "C12", "C14", "C19"):
        out += sized_urls(rng)
    if prop in ("C04", "C05", "C07", "C08"):
        out += sized_clears(rng, WFLAGS.get(prop, "-"))
    if prop in ("C05", "C06", "C13", "C17"):
        out += letters(rng, WORLD[prop], k, WFLAGS.get(prop, "-"))
    if prop == "C15":
        out += sized_lookups() + counted_lookups(rng)
    if prop in ("C05", "C13"):
        out += sized_edits(rng)
    if prop in ("C12", "C14", "C02", "C04"):
        out += sized_lists(rng)
    if prop in LISTS:
        out = out + many(rng, 24 * k)
    return out
