#!/usr/bin/env python3
"""Dictionary for the generators of the harness: the literals of /repo/src which the unchanged source does not have
(as often). A text or a limit somebody put into the code is where random inputs rarely get by themselves.
   mine.py --baseline   rewrites tools/literals.json from /repo/src
"""
import collections, json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
TOKEN = re.compile(r"""
  (?P<lc>//[^\n]*) | (?P<bc>/\*.*?\*/)
 | (?P<raw>b?r(?P<h>\#*)"(?P<rawtext>.*?)"(?P=h))
 | (?P<str>b?"(?P<text>(?:\\.|[^"\\])*)")
 | (?P<chr>b?'(?P<char>\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n])')
 | (?P<life>'\w+)
 | (?P<num>\b\d[\d_]*(?:\.\d+)?|\b0x[0-9a-fA-F_]+)(?P<suf>(?:u|i)(?:8|16|32|64|128|size))?
 | (?P<id>[A-Za-z_]\w*)
 | (?P<p><<|::|\S)
""", re.X | re.S)

STATUS = dict(zip(
    "CONTINUE SWITCHING_PROTOCOLS OK CREATED ACCEPTED NON_AUTHORITATIVE_INFORMATION NO_CONTENT RESET_CONTENT PARTIAL_CONTENT "
    "MULTIPLE_CHOICES MOVED_PERMANENTLY FOUND SEE_OTHER NOT_MODIFIED TEMPORARY_REDIRECT PERMANENT_REDIRECT BAD_REQUEST UNAUTHORIZED "
    "FORBIDDEN NOT_FOUND METHOD_NOT_ALLOWED NOT_ACCEPTABLE REQUEST_TIMEOUT CONFLICT GONE PAYLOAD_TOO_LARGE URI_TOO_LONG "
    "UNSUPPORTED_MEDIA_TYPE IM_A_TEAPOT UNPROCESSABLE_ENTITY TOO_MANY_REQUESTS INTERNAL_SERVER_ERROR NOT_IMPLEMENTED BAD_GATEWAY "
    "SERVICE_UNAVAILABLE GATEWAY_TIMEOUT".split(),
    [100, 101, 200, 201, 202, 203, 204, 205, 206, 300, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 405, 406, 408, 409, 410,
     413, 414, 415, 418, 422, 429, 500, 501, 502, 503, 504]))
METHODS = "GET POST PUT PATCH DELETE HEAD OPTIONS CONNECT TRACE".split()
WIDTH = {"u8": 255, "i8": 127, "u16": 65535, "i16": 32767}


def unescape(t):
    t = re.sub(r"\\\n\s*", "", t)
    esc = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}

    def one(m):
        x = m.group(1)
        if x.startswith("u{"):
            return chr(int(x[2:-1].replace("_", ""), 16))
        if x.startswith("x"):
            return chr(int(x[1:], 16))
        return esc.get(x, x)
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)", one, t, flags=re.S)


def literals(src):
    texts, numbers = collections.Counter(), collections.Counter()
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            code = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            # the tests are at the end of the files
            m = re.search(r"#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s", code)
            toks = [t for t in TOKEN.finditer(code[:m.start()] if m else code) if not (t.group("lc") or t.group("bc"))]
            for i, t in enumerate(toks):
                if t.group("raw"):
                    texts[t.group("rawtext")] += 1
                elif t.group("str"):
                    texts[unescape(t.group("text"))] += 1
                elif t.group("chr"):
                    texts[unescape(t.group("char"))] += 1
                elif t.group("num"):
                    n = number(t)
                    if n is None:
                        continue
                    numbers[n] += 1
                    # products and shifts of literals
                    j = i
                    while j + 2 < len(toks) and toks[j + 1].group() in ("*", "<<") and toks[j + 2].group("num"):
                        k = number(toks[j + 2])
                        n = None if n is None or k is None else n * k if toks[j + 1].group() == "*" else n << min(k, 40)
                        j += 2
                    if j > i and n is not None:
                        numbers[n] += 1
                elif t.group("id"):
                    w = t.group("id")
                    if w in WIDTH:
                        numbers[WIDTH[w]] += 1
                    elif w in METHODS and i > 1 and toks[i - 1].group() == "::":
                        texts[w] += 1
                    elif w in STATUS and i > 1 and toks[i - 1].group() == "::":
                        numbers[STATUS[w]] += 1
                    elif i > 1 and toks[i - 1].group() == "::" and toks[i - 2].group() == "header" and w.isupper():
                        texts[w.lower().replace("_", "-")] += 1
    return texts, numbers


def number(t):
    try:
        return int(t.group("num").replace("_", ""), 0) if not re.match(r"0\d", t.group("num")) else int(t.group("num"))
    except ValueError:
        try:
            return int(float(t.group("num")))
        except ValueError:
            return None


def mine(src, out):
    base = json.load(open(f"{HERE}/literals.json"))
    texts, numbers = literals(src)
    t = [x for x, n in texts.items() if n > base["texts"].get(x, 0) and x]
    n = [x for x, k in numbers.items() if k > base["numbers"].get(str(x), 0) and 2 <= x <= 4_000_000]
    for x in list(t):
        # its parts
        t += [y for y in re.split(r"[\s,;=/]+", x) if y and y != x and y not in t]
    json.dump({"texts": t[:400], "numbers": n[:200]}, open(out, "w"))
    return len(t), len(n)


if __name__ == "__main__":
    if sys.argv[1:] == ["--baseline"]:
        t, n = literals("/repo/src")
        json.dump({"texts": dict(sorted(t.items())), "numbers": {str(k): v for k, v in sorted(n.items())}},
                  open(f"{HERE}/literals.json", "w"), indent=0, ensure_ascii=False)
