"""An independent matcher for gitignore-style globs (backtracking over tokens, no regexes)."""
import functools


class Unspecified(Exception):
    pass


def tokenize(pat):
    """Tokens of a pattern without prefix '!' and without a trailing slash."""
    toks = []
    i = 0
    n = len(pat)
    while i < n:
        c = pat[i]
        if pat.startswith("**/", i) and (i == 0 or pat[i - 1] == "/"):
            # Leading or inner '**' component: zero or more directories.
            toks.append(("dirs",))
            i += 3
        elif pat.startswith("/**", i) and i + 3 == n:
            toks.append(("below",))
            i += 3
        elif c == "*":
            toks.append(("star",))
            i += 1
        elif c == "?":
            toks.append(("any",))
            i += 1
        elif c == "[":
            end = pat.find("]", i + 1)
            j = i + 1
            neg = pat[j:j + 1] == "!"
            if neg:
                j += 1
            if end == -1 or end == j:
                if end == j:
                    raise Unspecified("empty class")
                toks.append(("lit", c))
                i += 1
                continue
            body = pat[j:end]
            if "\\" in body or "^" in body[:1] or "[" in body or body[:1] == "!":
                raise Unspecified("class " + body)
            items = []
            k = 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == "-":
                    if body[k] > body[k + 2]:
                        raise Unspecified("range")
                    items.append((body[k], body[k + 2]))
                    k += 3
                else:
                    items.append((body[k], body[k]))
                    k += 1
            toks.append(("cls", neg, tuple(items)))
            i = end + 1
        elif c == "\\":
            raise Unspecified("backslash")
        else:
            toks.append(("lit", c))
            i += 1
    return toks


def match_tokens(toks, s):
    n, m = len(toks), len(s)

    @functools.lru_cache(None)
    def rec(i, j):
        if i == n:
            return j == m
        t = toks[i]
        kind = t[0]
        if kind == "lit":
            return j < m and s[j] == t[1] and rec(i + 1, j + 1)
        if kind == "any":
            return j < m and s[j] != "/" and rec(i + 1, j + 1)
        if kind == "cls":
            if j >= m or s[j] == "/":
                return False
            hit = any(a <= s[j] <= b for a, b in t[2])
            return hit != t[1] and rec(i + 1, j + 1)
        if kind == "star":
            k = j
            while True:
                if rec(i + 1, k):
                    return True
                if k >= m or s[k] == "/":
                    return False
                k += 1
        if kind == "dirs":
            # Nothing, or anything that ends with a slash.
            if rec(i + 1, j):
                return True
            for k in range(j + 2, m + 1):
                if s[k - 1] == "/" and rec(i + 1, k):
                    return True
            return False
        if kind == "below":
            return j == m or (s[j] == "/" and m > j + 1)
        raise ValueError(kind)
    return rec(0, 0)


def is_plain(pat):
    """May the pattern be judged?"""
    if not pat or "//" in pat or pat.strip("/") == "" or "***" in pat or "**/**" in pat or "\\" in pat:
        return False
    return True


class Pattern:
    """A pattern for a path attribute (or an ignore file)."""

    def __init__(self, pat, path=True):
        self.include = not pat.startswith("!")
        if not self.include:
            pat = pat[1:]
        if pat.startswith("\\!") or pat.startswith("\\#"):
            pat = pat[1:]
        if not is_plain(pat):
            raise Unspecified(pat)
        self.directory = False
        if path:
            if pat.endswith("/"):
                self.directory = True
                pat = pat[:-1]
            self.anchored = "/" in pat
            if self.anchored:
                pat = pat.lstrip("/")
        else:
            if pat.endswith("/"):
                raise Unspecified("trailing slash")
            self.anchored = None
        if not pat:
            raise Unspecified("empty")
        self.toks = tokenize(pat)

    def match(self, value, is_dir=False):
        """Without regard to include."""
        if self.directory and not is_dir:
            return False
        if self.anchored is None:
            return match_tokens(self.toks, value)
        if self.anchored:
            return match_tokens(self.toks, value.lstrip("/"))
        return match_tokens(self.toks, value.rsplit("/", 1)[-1])


def test(pat, value, is_dir, path, case):
    """The meaning of ATTR%pat."""
    if case == "ignore" or case == "smart" and pat == pat.lower():
        pat, value = pat.lower(), value.lower()
    p = Pattern(pat, path)
    return p.match(value, is_dir) == p.include
