"""Extract every numeric literal the library's headers currently contain (comments removed).

The values a piece of numerical code singles out (thresholds, table entries, iteration
limits, special-cased constants) are the places where its behaviour can change; the
explorer enumerates the neighbourhood of each of them.  The set is taken from the working
tree at check time, so a threshold that somebody moves or adds is explored as well.
"""
import glob, os, re, sys

NUM = re.compile(r'(?<![\w.])((?:0[xX][0-9a-fA-F]+)|(?:(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?))(?:[uUlLfF]{0,3})(?![\w.])')


def strip_comments(s):
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    s = re.sub(r'//[^\n]*', ' ', s)
    s = re.sub(r'^\s*#\s*(include|if|elif|else|endif|ifdef|ifndef|undef|pragma|error|line).*$', ' ', s, flags=re.M)
    return s


def literals(include_dir, only=None):
    vals = {}
    files = sorted(glob.glob(os.path.join(include_dir, '**', '*.hpp'), recursive=True))
    for f in files:
        base = os.path.basename(f)[:-4]
        if 'quadrature' in f:
            continue
        if only is not None and base not in only:
            continue
        try:
            text = strip_comments(open(f, errors='replace').read())
        except OSError:
            continue
        for m in NUM.finditer(text):
            t = m.group(1)
            try:
                v = float(int(t, 16)) if t[:2] in ('0x', '0X') else float(t)
            except (ValueError, OverflowError):
                continue
            vals.setdefault(v, t if t[:2] not in ('0x', '0X') else repr(v))
    return [vals[v] for v in sorted(vals)]


if __name__ == '__main__':
    for t in literals(sys.argv[1], set(sys.argv[2].split(',')) if len(sys.argv) > 2 else None):
        print(t)
