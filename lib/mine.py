"""Words and numbers that occur in the source of the library: inputs that the code might treat specially."""
import os
import re


def mine(src):
    words, nums = set(), set()
    for root, dirs, files in os.walk(src):
        dirs[:] = sorted(d for d in dirs if d != "test")
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            text = open(os.path.join(root, f), encoding="utf-8", errors="replace").read()
            text = re.sub(r"^\s*//.*$", "", text, flags=re.M)
            for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', text):
                try:
                    w = m.group(1).encode("latin-1", "replace").decode("unicode_escape").encode("latin-1", "replace")
                except (UnicodeError, ValueError):
                    continue
                if 1 <= len(w) <= 24 and b"{" not in w:
                    words.add(w)
            # runs of byte literals: b'H', b'T', ...
            run = []
            last = 0
            for m in re.finditer(r"b?'(\\.|\\x[0-9A-Fa-f]{2}|[^'\\])'", text):
                try:
                    c = m.group(1).encode("latin-1").decode("unicode_escape").encode("latin-1")
                except (UnicodeError, ValueError):
                    continue
                if m.start() - last > 40 and run:
                    if len(run) > 1:
                        words.add(b"".join(run)[:24])
                    run = []
                run.append(c)
                last = m.end()
            if len(run) > 1:
                words.add(b"".join(run)[:24])
            for m in re.finditer(r"\b0x([0-9A-Fa-f_]+)\b|\b(\d[\d_]*)(?:u8|u16|u32|u64|usize)?\b", text):
                try:
                    n = int((m.group(1) or m.group(2)).replace("_", ""), 16 if m.group(1) else 10)
                except ValueError:
                    continue
                if n < 1 << 40:
                    nums.add(n)
    return sorted(words), sorted(nums)
