"""Extract functions mechanically from /repo's current source and weave the
committed contracts of verus/*.rs into their text.

A unit is a Rust file with directives (lines starting with //@):
  //@ const FILE NAME...            constants, folded to literals
  //@ item FILE struct|enum NAME    a type, derives and attributes dropped
  //@ fn FILE PATH [as NEWNAME]     a function (PATH: name or Type::name), followed by
  //@   private                     no `pub` in front (trait methods)
  //@   ret NAME                    name of the result
  //@   spec                        lines up to the next directive go between signature and body
  //@   head                        lines go to the start of the body
  //@   tail                        lines go to the end of the body
  //@   loop N                      lines go in front of the body of the N-th loop
  //@   in N                        lines go to the start of the N-th loop's body
  //@   end N                       lines go to the end of the N-th loop's body
  //@   after N                     lines go after the N-th loop
  //@   each N [nth] [ref|mut]     the N-th loop, a `for`, as an index loop (i_N of n_N): `X[i]`, or
                                  `X.nth(i)`/`X.nth_mut(i)`; by reference or mutably when the header does not say
  //@   before REGEX                lines go in front of the first match (a hint: skipped when absent)
  //@   sub /REGEX/TEXT/            rewriting of the text, declared in the evidence
  //@ done
  //@   outline PATTERN CALL        the block of the match arm with this pattern is a function of its own (see `arm`)
  //@ arm FILE PATH PATTERN NAME (PARAMS) -> TYPE
                                  that block as a function; options as for `fn`
  //@ always /REGEX/TEXT/           a `sub` for every function that follows
  //@ include UNIT                  the lines of another unit, up to its `//@ end`
Everything else is copied.  Dropped in every function: comments, attributes,
doc comments, debug_assert! and eprintln!."""
import os, re
from .layout import REPO


class Shape(Exception):
    """The source no longer has the expected shape: nothing can be decided."""


def blank(src):
    """Comments and the contents of strings and chars replaced by spaces."""
    out = list(src)
    i, n = 0, len(src)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif c == '"' or (c in "rb" and re.match(r'(?:br|b|r)(#*)"', src[i:i + 12]) and not (i and (src[i - 1].isalnum() or src[i - 1] == "_"))):
            m = re.match(r'(br|b|r)?(#*)"', src[i:i + 12])
            raw = m.group(1) and "r" in m.group(1)
            j = i + m.end()
            if raw:
                close = '"' + m.group(2)
                k = src.find(close, j)
                wipe(j, k)
                i = k + len(close)
            else:
                k = j
                while src[k] != '"':
                    k += 2 if src[k] == "\\" else 1
                wipe(j, k)
                i = k + 1
        elif c == "'":
            m = re.match(r"'(\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'", src[i:i + 14], re.S)
            if m:
                wipe(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def match_close(b, i):
    """Index just after the bracket closing the one at i."""
    pairs = {"{": "}", "(": ")", "[": "]"}
    d = 0
    for k in range(i, len(b)):
        if b[k] in "{([":
            d += 1
        elif b[k] in "})]":
            d -= 1
            if d == 0:
                return k + 1
    raise Shape("unbalanced source")


class File:
    cache = {}

    def __init__(self, rel, root=None):
        path = os.path.join(root or os.path.join(REPO, "src"), rel)
        try:
            self.src = open(path, encoding="utf-8").read()
        except OSError as e:
            raise Shape(f"no file {rel}") from e
        self.b = blank(self.src)
        self.rel = rel
        # tests are not the code that runs
        for m in re.finditer(r"#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s+\w+\s*\{", self.b):
            j = match_close(self.b, m.end() - 1)
            seg = re.sub(r"[^\n]", " ", self.b[m.start():j])
            self.b = self.b[:m.start()] + seg + self.b[j:]

    def depth0(self, pos, lo, hi):
        d = 0
        for k in range(lo, pos):
            if self.b[k] == "{":
                d += 1
            elif self.b[k] == "}":
                d -= 1
        return d == 0

    def impls(self, ty):
        """Bodies of the impl blocks of a type: (start, end) inside the braces.
        `Trait for Type` selects a trait impl."""
        for m in re.finditer(r"(?m)^[ \t]*(?:unsafe\s+)?impl\b", self.b):
            o = self.b.find("{", m.end())
            head = " ".join(self.b[m.end():o].split())
            head = re.sub(r"\bwhere\b.*", "", head).strip()
            head = re.sub(r"^<[^{]*?>\s+", "", head) if head.startswith("<") else head
            plain = re.sub(r"<.*?>+", "", head).strip()
            if plain == ty or head == ty:
                yield o + 1, match_close(self.b, o) - 1

    def find_fn(self, path):
        """(start of `fn` or its qualifiers, open brace, end) of a function."""
        *ty, name = path.rsplit("::", 1)
        spans = list(self.impls(ty[0])) if ty else [(0, len(self.b))]
        for lo, hi in spans:
            for m in re.finditer(rf"\bfn\s+{re.escape(name)}\b", self.b[lo:hi]):
                p = lo + m.start()
                if not self.depth0(p, lo, hi):
                    continue
                # body brace: first { outside parentheses/brackets
                k, d = p, 0
                while True:
                    c = self.b[k]
                    if c in "([":
                        d += 1
                    elif c in ")]":
                        d -= 1
                    elif c == "{" and d == 0:
                        break
                    elif c == ";" and d == 0:
                        raise Shape(f"{path} has no body")
                    k += 1
                return p, k, match_close(self.b, k)
        raise Shape(f"no function {path} in {self.rel}")

    def find_item(self, kind, name):
        m = re.search(rf"\b{kind}\s+{name}\b", self.b)
        if not m:
            raise Shape(f"no {kind} {name} in {self.rel}")
        k = m.end()
        while self.b[k] not in "{;(":
            k += 1
        if self.b[k] == "{":
            return m.start(), match_close(self.b, k)
        return m.start(), self.b.index(";", k) + 1

    def const(self, name):
        m = re.search(rf"\bconst\s+{name}\s*:\s*([^=]+?)\s*=\s*([^;]+);", self.b)
        if not m:
            raise Shape(f"no const {name} in {self.rel}")
        return m.group(1), m.group(2)

    def fold(self, expr, extra=None):
        names = {}

        def val(e):
            e = re.sub(r"\bas\s+\w+", "", e)
            e = re.sub(r"\b0b([01_]+)", lambda m: str(int(m.group(1).replace("_", ""), 2)), e)
            e = re.sub(r"\b(?:size_of|std::mem::size_of)::<\w+>\(\)", lambda m: "None", e)
            e = e.replace("u32::MAX", str(2**32 - 1)).replace("u8::MAX", "255").replace("u64::MAX", str(2**64 - 1))
            e = re.sub(r"\b([A-Z][A-Z0-9_]*)\b", lambda m: str(val(self.const(m.group(1))[1])), e)
            e = re.sub(r"\b(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?\b", lambda m: m.group(1).replace("_", ""), e)
            e = e.replace("/", "//")
            if not re.fullmatch(r"[\s0-9a-fA-Fx+*/()<>|&^~-]+", e):
                raise Shape(f"constant {expr}")
            return int(eval(e, {"__builtins__": {}}))
        return val(expr)


def clean(text):
    """Drop comments and attributes, keep the rest verbatim."""
    b = blank(text)
    # remove comments: positions blanked in b but not within strings
    out, i = [], 0
    while i < len(text):
        if text.startswith("//", i) and b.startswith("  ", i):
            j = text.find("\n", i)
            i = len(text) if j < 0 else j
        elif text.startswith("/*", i) and b.startswith("  ", i):
            d, j = 1, i + 2
            while d:
                if text.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif text.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            i = j
        else:
            out.append(text[i])
            i += 1
    text = "".join(out)
    # attributes
    while True:
        b = blank(text)
        m = re.search(r"#!?\[", b)
        if not m:
            break
        e = match_close(b, m.end() - 1)
        text = text[:m.start()] + text[e:]
    return re.sub(r"\n\s*\n+", "\n", text)


def drop_macro(text, name):
    while True:
        b = blank(text)
        m = re.search(rf"\b{name}!\s*\(", b)
        if not m:
            return text
        e = match_close(b, m.end() - 1)
        e2 = re.match(r"\s*;", b[e:])
        text = text[:m.start()] + text[e + (e2.end() if e2 else 0):]


def loops(body):
    """Loops of a body in source order: (keyword start, kind, open brace, end)."""
    b = blank(body)
    res = []
    for m in re.finditer(r"\b(for|while|loop)\b", b):
        k = m.end()
        if m.group(1) == "for" and re.match(r"\s*<", b[k:]):
            continue
        d = 0
        while k < len(b):
            c = b[k]
            if c in "([":
                d += 1
            elif c in ")]":
                d -= 1
            elif c == "{" and d == 0:
                # a struct or block expression in the header does not occur
                break
            k += 1
        res.append((m.start(), m.group(1), k, match_close(b, k)))
    return res


def each(body, n, how, path):
    """A `for` over a sequence, as the loop over its indices it stands for."""
    ls = loops(body)
    if n >= len(ls) or ls[n][1] != "for":
        raise Shape(f"{path}: loop {n} is not a for loop")
    s, _, ob, en = ls[n]
    b = blank(body)
    m = re.match(r"for\s+(.*?)\s+in\s+(.*)$", body[s:ob].strip(), re.S)
    pat, ex = m.group(1), m.group(2).strip()
    count = ""
    k = re.fullmatch(r"(.*)\.enumerate\(\)", ex, re.S)
    q = re.fullmatch(r"\(\s*(\w+)\s*,\s*(.+)\)", pat, re.S)
    if k and q:
        ex, pat, count = k.group(1).strip(), q.group(2).strip(), f"let {q.group(1)} = i_{n}; "
    mode = next((h for h in how if h in ("ref", "mut")), None)
    for rx, md in ((r"&mut\s+([\w.]+)", "mut"), (r"&\s*([\w.]+)", "ref"), (r"([\w.]+?)\.iter_mut\(\)", "mut"), (r"([\w.]+?)\.iter\(\)", "ref")):
        k = re.fullmatch(rx, ex)
        if k:
            ex, mode = k.group(1), md
            break
    if mode is None or not re.fullmatch(r"[\w.]+", ex) or re.search(r"\bcontinue\b", b[ob:en]):
        raise Shape(f"{path}: loop {n} is not over the items of a sequence")
    if mode == "mut":
        item = f"{ex}.nth_mut(i_{n})" if "nth" in how else f"&mut {ex}[i_{n}]"
    else:
        item = f"{ex}.nth(i_{n})" if "nth" in how else f"&{ex}[i_{n}]"
    if pat.startswith("&") and "nth" not in how and mode == "ref":
        pat, item = pat[1:], f"{ex}[i_{n}]"
    head = f"let n_{n} = {ex}.len(); let mut i_{n}: usize = 0; while i_{n} < n_{n} "
    return body[:s] + head + "{ " + count + "let " + pat + " = " + item + "; " + body[ob + 1:en - 1] + f" i_{n} += 1; " + body[en - 1:]


def arm_block(body, pattern, path):
    """The block of the match arm with this pattern: its brackets."""
    b = blank(body)
    ms = list(re.finditer(re.escape(pattern) + r"\s*=>\s*\{", b))
    if len(ms) != 1:
        raise Shape(f"{path}: no arm {pattern}")
    o = ms[0].end() - 1
    return o, match_close(b, o)


def weave_fn(f, path, opts, newname=None, arm=None):
    p, o, e = f.find_fn(path)
    sig = clean(f.src[p:o]).strip()
    body = clean(f.src[o:e])
    if arm:
        pattern, name, rest = arm
        a, z = arm_block(body, pattern, path)
        sig, body = f"fn {name}{rest}", body[a:z - 1] + " Ok(()) }"
        path = f"{path} ({pattern})"
    for pattern, call in opts.get("outline", []):
        a, z = arm_block(body, pattern, path)
        body = body[:a] + "{ " + call + " }" + body[z:]
    for name in ("debug_assert", "debug_assert_eq", "debug_assert_ne", "eprintln"):
        body = drop_macro(body, name)
    notes = []
    for rx, to in opts.get("sub", []):
        whole = sig + "\0" + body
        new, k = re.subn(rx, to, whole, flags=re.S)
        if k:
            notes.append(f"{path}: /{rx}/ -> /{to}/ ({k})")
        sig, body = new.split("\0")
    for n in sorted(opts.get("each", {}), reverse=True):
        body = each(body, n, opts["each"][n].split(), path)
        notes.append(f"{path}: for loop {n} as an index loop")
    if newname:
        sig = re.sub(r"\bfn\s+\w+", f"fn {newname}", sig, 1)
    if opts.get("ret"):
        o = re.search(r"\bfn\s+\w+\s*(<[^()]*>)?\s*(?=\()", sig)
        m = re.compile(r"->\s*(.+?)(\s+where\b.*)?$", re.S).search(sig, match_close(sig, o.end()) if o else 0)
        if not m:
            raise Shape(f"{path} returns nothing")
        # the arrow of the function itself is the last one outside parentheses
        sig = sig[:m.start()] + f"-> ({opts['ret']}: {m.group(1).strip()})" + (m.group(2) or "")
    ls = loops(body)
    want = {n for k in ("loop", "in", "end", "after") for n in opts.get(k, {})}
    if "loops" in opts and opts["loops"] != len(ls):
        raise Shape(f"{path}: {len(ls)} loops, contracts for {opts['loops']}")
    if want and max(want) >= len(ls):
        raise Shape(f"{path}: {len(ls)} loops, contracts for {max(want) + 1}")
    edits = []        # (position, text)
    for n, (s, kind, ob, en) in enumerate(ls):
        if n in opts.get("loop", {}):
            edits.append((ob, "\n" + opts["loop"][n] + "\n"))
            if kind == "for" and "iter" in opts["loop"][n]:
                m = re.compile(r"\bin\b").search(blank(body), s)
                edits.append((m.end(), " iter:"))
        if n in opts.get("in", {}):
            edits.append((ob + 1, "\n" + opts["in"][n] + "\n"))
        if n in opts.get("end", {}):
            edits.append((en - 1, "\n" + opts["end"][n] + "\n"))
        if n in opts.get("after", {}):
            edits.append((en, "\n" + opts["after"][n] + "\n"))
    for rx, text in opts.get("before", []):
        m = re.search(rx, body, re.S)
        if m:
            edits.append((m.start(), "\n" + text + "\n"))
    if opts.get("head"):
        edits.append((1, "\n" + opts["head"] + "\n"))
    if opts.get("tail"):
        edits.append((len(body.rstrip()) - 1, "\n" + opts["tail"] + "\n"))
    for pos, text in sorted(edits, key=lambda x: -x[0]):
        body = body[:pos] + text + body[pos:]
    return opts.get("attr", "") + ("" if opts.get("private") else "pub ") + sig + "\n" + opts.get("spec", "") + "\n" + body + "\n", notes


def weave(path, root=None):
    """The woven unit, the functions under contract and the declared rewritings."""
    files = {}

    def file(rel):
        if rel not in files:
            files[rel] = File(rel, root)
        return files[rel]
    out, funcs, notes = [], [], []
    always = []
    def read(p):
        for l in open(p, encoding="utf-8").read().split("\n"):
            if l.startswith("//@ include "):
                for k in read(os.path.join(os.path.dirname(p), l.split()[2] + ".rs")):
                    if k.startswith("//@ end"):
                        break
                    yield k
            else:
                yield l
    lines = list(read(path))
    i = 0
    while i < len(lines):
        l = lines[i].strip()
        if not l.startswith("//@"):
            out.append(lines[i])
            i += 1
            continue
        w = l[3:].split()
        if w[0] == "end":
            i += 1
        elif w[0] == "always":
            m = re.match(r"\s*//@\s+always\s+(.)(.*?)\1(.*)\1\s*$", lines[i])
            always.append((m.group(2), m.group(3)))
            i += 1
        elif w[0] == "const":
            f = file(w[1])
            for name in w[2:]:
                ty, ex = f.const(name)
                out.append(f"pub const {name}: {ty} = {f.fold(ex)};")
            i += 1
        elif w[0] == "item":
            f = file(w[1])
            s, e = f.find_item(w[2], w[3])
            text = clean(f.src[s:e])
            rest = l.split(None, 5)
            i += 1
            while i < len(lines) and lines[i].strip().startswith("//@   sub"):
                m = re.match(r"\s*//@\s+sub\s+(.)(.*?)\1(.*)\1\s*$", lines[i])
                text = re.sub(m.group(2), m.group(3), text)
                notes.append(f"{w[3]}: /{m.group(2)}/ -> /{m.group(3)}/")
                i += 1
            if w[2] == "struct":
                text = re.sub(r"(?m)^(\s*)(\w+\s*:)", r"\1pub \2", text)
            out.append("pub " + text)
        elif w[0] in ("fn", "arm"):
            f = file(w[1])
            name = w[2].replace("~", " ")
            newname = w[4] if len(w) > 4 and w[3] == "as" else None
            arm = None
            if w[0] == "arm":
                newname, arm = None, (w[3], w[4], l.split(w[4], 1)[1].strip())
            opts, cur = {"sub": list(always), "before": []}, None
            i += 1
            buf = []

            def flush():
                if cur is None:
                    return
                text = "\n".join(buf)
                if cur[0] in ("loop", "in", "end", "after"):
                    opts.setdefault(cur[0], {})[int(cur[1])] = text
                elif cur[0] == "before":
                    opts["before"].append((cur[1], text))
                else:
                    opts[cur[0]] = text
            while True:
                if i >= len(lines):
                    raise Shape("unfinished directive in " + path)
                t = lines[i].strip()
                i += 1
                if not t.startswith("//@"):
                    buf.append(lines[i - 1])
                    continue
                d = t[3:].strip()
                key, _, arg = d.partition(" ")
                flush()
                cur, buf = None, []
                if key == "done":
                    break
                if key == "private":
                    opts["private"] = True
                elif key == "ret":
                    opts["ret"] = arg.strip()
                elif key == "each":
                    k, _, how = arg.strip().partition(" ")
                    opts.setdefault("each", {})[int(k)] = how
                elif key == "outline":
                    k, _, call = arg.strip().partition(" ")
                    opts.setdefault("outline", []).append((k, call.strip()))
                elif key == "attr":
                    opts["attr"] = arg.strip() + "\n"
                elif key == "loops":
                    opts["loops"] = int(arg)
                elif key == "sub":
                    m = re.match(r"(.)(.*?)\1(.*)\1\s*$", arg)
                    opts["sub"].append((m.group(2), m.group(3)))
                elif key in ("spec", "head", "tail"):
                    cur = (key, "")
                else:
                    cur = (key, arg.strip())
            text, nn = weave_fn(f, name, opts, newname, arm)
            notes += nn
            notes += [f"{name}: the arm {k} is a function of its own" for k, _ in opts.get("outline", [])]
            funcs.append((w[1], name + (f" ({arm[0]})" if arm else "")))
            out.append(text)
        else:
            raise Shape("directive " + l)
    return "\n".join(out), funcs, notes
