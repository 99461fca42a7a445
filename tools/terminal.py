"""A small terminal: runs a command with its stderr on a pseudo-terminal and says what stands on the screen."""
import fcntl
import os
import pty
import re
import select
import struct
import subprocess
import termios
import time
import unicodedata


class Screen:
    def __init__(self, cols):
        self.cols, self.lines, self.r, self.c = cols, [[]], 0, 0

    def put(self, ch):
        w = 0 if unicodedata.combining(ch) else 2 if unicodedata.east_asian_width(ch) in "WF" else 1
        if self.c + w > self.cols:
            self.r += 1
            self.c = 0
        while len(self.lines) <= self.r:
            self.lines.append([])
        row = self.lines[self.r]
        while len(row) < self.c:
            row.append(" ")
        row[self.c:self.c + w] = [ch] + [""] * (w - 1)
        self.c += w

    def csi(self, arg, fin):
        n = int(re.sub(r"\D", "", arg) or (0 if fin in "KJ" else 1))
        if fin == "A":
            self.r = max(0, self.r - n)
        elif fin == "B":
            self.r += n
        elif fin == "C":
            self.c += n
        elif fin == "D":
            self.c = max(0, self.c - n)
        elif fin == "G":
            self.c = n - 1
        elif fin == "K" and self.r < len(self.lines):
            row = self.lines[self.r]
            self.lines[self.r] = [] if n == 2 else row[:self.c] if n == 0 else [" "] * min(self.c, len(row)) + row[self.c:]
        elif fin == "J":
            self.lines = self.lines[:self.r] + [self.lines[self.r][:self.c]] if n == 0 else [[]]

    def text(self):
        return ["".join(x).rstrip() for x in self.lines]


TOKEN = re.compile(r"\x1b\[([0-9;?]*)([A-Za-z])|\x1b\]9;(\w+);(\d+)\x07|(.)", re.S)


def run(cmd, cols, timeout, env):
    """Returns (status, output so far, [(mark, number, lines on the screen, style changes)])."""
    master, slave = pty.openpty()
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", 400, cols, 0, 0))
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=slave, env=dict(env, TERM="xterm-256color"),
                         close_fds=True)
    os.close(slave)
    raw, end = b"", time.time() + timeout
    while True:
        ready, _, _ = select.select([master], [], [], 0.5)
        if ready:
            try:
                b = os.read(master, 1 << 16)
            except OSError:
                b = b""
            if not b:
                break
            raw += b
        elif p.poll() is not None:
            break
        if time.time() > end:
            p.kill()
            p.wait()
            os.close(master)
            return None, raw, []
    p.wait()
    os.close(master)
    shots, s, styled = [], Screen(cols), 0
    for m in TOKEN.finditer(raw.decode("utf-8", "replace")):
        arg, fin, what, num, ch = m.groups()
        if fin:
            if fin == "m":
                styled += 1
            else:
                s.csi(arg, fin)
        elif what:
            if what == "BEGIN":
                s, styled = Screen(cols), 0
            else:
                shots.append((what, int(num), s.text(), styled))
        elif ch == "\n":
            s.r += 1
            s.c = 0
        elif ch == "\r":
            s.c = 0
        else:
            s.put(ch)
    return p.returncode, raw, shots


def read(lines):
    """The numbers and the rows of the table that stand on a screen."""
    t = "\n".join(lines)

    def num(pat):
        m = re.search(pat, t)
        return int(m.group(1)) if m else -1
    rows, head, inside = [], False, 0
    for ln in lines:
        if ln and set(ln) == {"\u2500"}:
            inside += 1
        elif inside == 1 and not head:
            head = ln.split() == ["Complexity", "Loss", "Equation"]
            if not head:
                rows.append([ord(ch) for ch in ln])
        elif inside == 1:
            rows.append([ord(ch) for ch in ln])
    return {"blank": not t.strip(), "table": head and inside == 2, "rows": rows, "iters": num(r"for (\d+) iterations"),
            "pos": num(r"(\d+)/\d+\s*\["), "len": num(r"\d+/(\d+)\s*\["), "evals": num(r"evals=(\d+)")}
