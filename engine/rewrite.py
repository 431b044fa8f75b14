#!/usr/bin/env python3
"""Regenerates the symbolic encoding of the simulator's C++ sources.

Every run copies the current sources and substitutes the scalar types only:
  float -> vx::F32, double -> vx::F64, floating literals -> vx::lit64(..)/vx::lit32(..)
Nothing else is touched: control flow, indexing, containers and calls are the
real code, which the compiler then instantiates over solver-backed scalars.
"""
import os, re, sys

TOK = re.compile(r'''
  (?P<raw>(?:u8|u|U|L)?R"(?P<d>[^()\\\s]*)\((?:.|\n)*?\)(?P=d)")
 |(?P<comment>//(?:\\\n|[^\n])*|/\*(?:.|\n)*?\*/)
 |(?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*")
 |(?P<chr>(?:u8|u|U|L)?'(?:\\.|[^'\\\n])*')
 |(?P<num>(?:0[xX][0-9a-fA-F'.]+(?:[pP][+-]?\d+)?|(?:\d[\d']*\.?[\d']*|\.\d[\d']*)(?:[eE][+-]?\d+)?)[a-zA-Z_]*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<pp>^[ \t]*\#[ \t]*(?:include|pragma|error|line)[^\n]*)
 |(?P<other>\s+|.)
''', re.X | re.M)


def num(t):
    low = t.lower().replace("'", "")
    hexf = low.startswith('0x')
    if hexf:
        isf = 'p' in low
    else:
        isf = '.' in low or re.search(r'^\d+e[+-]?\d', low) is not None or \
            re.search(r'^[\d.]+e[+-]?\d', low) is not None
    if not isf:
        return t
    body = t
    suf = ''
    if low[-1] in 'fl' and not (hexf and 'p' not in low):
        suf = low[-1]
        body = t[:-1]
    if suf == 'f':
        return 'vx::lit32(%sf)' % body
    return 'vx::lit64(%s)' % body


OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, ')]}'


def ternaries(toks):
    """c ? a : b with operands of different scalar types: for the class types the usual
    arithmetic conversions are spelled out, c ? vx::com<A, B>(a) : vx::com<A, B>(b).
    toks: (text, significant) in order; returns the text."""
    out, i = [], 0

    def scan(i, stops):
        depth, tern = 0, 0
        while i < len(toks):
            t, sig = toks[i]
            if sig:
                if t in OPEN:
                    depth += 1
                elif t in CLOSE and depth:
                    depth -= 1
                elif not depth:
                    if t == '?':
                        tern += 1
                    elif t == ':' and tern and not near(i):
                        tern -= 1
                    elif t in stops and not near(i):
                        return i
                    elif t in CLOSE or t == ';' or (t == ',' and ',' in stops):
                        return i
            i += 1
        return i

    def near(i):   # part of '::'
        return toks[i][0] == ':' and (toks[i - 1][0] == ':' or (i + 1 < len(toks) and toks[i + 1][0] == ':'))

    while i < len(toks):
        t, sig = toks[i]
        if sig and t == '?':
            m = scan(i + 1, ':')
            if m < len(toks) and toks[m][0] == ':':
                e = scan(m + 1, ',:')
                a, b = ternaries(toks[i + 1:m]), ternaries(toks[m + 1:e])
                if not re.match(r'\s*(throw\b|\{)', a) and not re.match(r'\s*(throw\b|\{)', b) and '//' not in a + b:
                    ty = 'vx::com<decltype((%s)), decltype((%s))>' % (a, b)
                    out.append('? %s(%s) : %s(%s)' % (ty, a, ty, b))
                    i = e
                    continue
        out.append(t)
        i += 1
    return ''.join(out)


def rewrite(src):
    out = []
    pos = 0
    for m in TOK.finditer(src):
        k = m.lastgroup
        if m.group('raw') is not None:
            k = 'raw'
        t = m.group(0)
        if k == 'id':
            if t == 'float':
                t = 'vx::F32'
            elif t == 'double':
                t = 'vx::F64'
        elif k == 'num':
            t = num(t)
        out.append((t, k in ('id', 'num', 'other')))
        pos = m.end()
    assert pos == len(src)
    s = ternaries(out)
    s = re.sub(r'\blong\s+vx::F64\b', 'vx::F64', s)
    # one thread: thread-local storage becomes static storage, which the engine resets per path
    s = re.sub(r'\b(?:static|extern)\s+thread_local\b|\bthread_local\s+(?:static|extern)\b', lambda m: 'extern' if 'extern' in m.group(0) else 'static', s)
    s = re.sub(r'\bthread_local\b', 'static', s)
    return s


if __name__ == '__main__':
    srcdir, dstdir = sys.argv[1:3]
    os.makedirs(dstdir, exist_ok=True)
    for f in sorted(os.listdir(srcdir)):
        if f.endswith(('.cpp', '.hpp', '.h', '.cc')):
            with open(os.path.join(srcdir, f)) as fh:
                s = fh.read()
            with open(os.path.join(dstdir, f), 'w') as fh:
                fh.write(rewrite(s))
