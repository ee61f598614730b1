"""C22: renderings of Young diagrams, read back and compared with the cells."""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile
import warnings

from . import base
from .c27 import partitions

RP = "from schubertpy.schur import Schur\nfrom schubertpy.partition import Partition\nfrom schubertpy.utils.mix import yd\nl = %s\n%s\n"


def out(f, *a):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f(*a)
    return b.getvalue()


def rows_of(text, box):
    """Row lengths of a diagram printed with the given box, or None."""
    res = []
    for line in text.split("\n"):
        s = line.rstrip(" ")
        if s.replace(box, ""):
            return None
        res.append(len(s) // len(box))
    while res and res[-1] == 0:
        res.pop()
    return res


NODE = re.compile(r"\\node\s*(?:\[(.*?)\])?\s*(?:\(\w*\)\s*)?at\s*\(\s*(-?[\d.]+)\s*mm\s*,\s*(-?[\d.]+)\s*mm\s*\)\s*\{(.*)\}\s*;\s*$")


def picture(lines, cells):
    """Error message, or None if the lines draw exactly the cells."""
    boxes = []
    for l in lines:
        t = l.strip()
        if not t or t.startswith("%") or re.match(r"\\(usetikzlibrary|tikzstyle|tikzset)\b", t):
            continue
        m = NODE.match(t)
        if not m:
            return f"draws something that is not a box: {t}"
        opts, x, y, text = m.groups()
        if opts and re.search(r"draw\s*=\s*none", opts.replace(" ", "")):
            continue          # a label
        boxes.append((float(x), float(y)))
        if text.strip():
            return f"a box with text: {t}"
    want = sorted((5.0 * j, -5.0 * i) for i, j in cells)
    if sorted(boxes) != want:
        return f"boxes at {sorted(boxes)}, cells at {want}"
    return None


def balanced(t):
    d = 0
    for c in t:
        d += {"{": 1, "}": -1}.get(c, 0)
        if d < 0:
            return False
    if d or t.count("$") % 2:
        return False
    st = []
    for k, e in re.findall(r"\\(begin|end)\{(\w+)\}", t):
        if k == "begin":
            st.append(e)
        elif not st or st.pop() != e:
            return False
    return not st


def regions(path):
    """Sizes (width, height, area) of the connected light regions of an image."""
    import numpy as np
    from PIL import Image
    im = np.asarray(Image.open(path).convert("L")) > 128
    parent = []

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i
    prev, info = [], []
    for y in range(im.shape[0]):
        row = im[y].astype(np.int8)
        d = np.flatnonzero(np.diff(np.concatenate(([0], row, [0]))))
        cur = []
        for a, b in zip(d[::2], d[1::2]):
            i = len(parent)
            parent.append(i)
            info.append([a, b, y, y + 1, b - a])
            for a2, b2, j in prev:
                if a2 < b and a < b2:
                    parent[find(j)] = find(i)
            cur.append((a, b, i))
        prev = cur
    tot = {}
    for i, (a, b, y0, y1, n) in enumerate(info):
        r = tot.setdefault(find(i), [a, b, y0, y1, 0])
        r[0], r[1], r[2], r[3], r[4] = min(r[0], a), max(r[1], b), min(r[2], y0), max(r[3], y1), r[4] + n
    return im.shape, list(tot.values())


def png_cells(path):
    """The cells drawn in an exported image: light squares of the common size."""
    shape, rs = regions(path)
    inner = [r for r in rs if r[0] > 0 and r[2] > 0 and r[1] < shape[1] and r[3] < shape[0]]
    sq = []
    for a, b, y0, y1, n in inner:
        w, h = b - a, y1 - y0
        # square and solid and not the inside of a letter of the label
        if w >= 16 and h >= 16 and abs(w - h) <= 0.15 * max(w, h) and n >= 0.9 * w * h:
            sq.append((a, y0, w))
    if not sq:
        return []
    s = sorted(x[2] for x in sq)[len(sq) // 2]
    x0, y0 = min(x[0] for x in sq), min(x[1] for x in sq)
    out = []
    for a, y, w in sq:
        pitch = s + 2
        out.append((round((y - y0) / pitch), round((a - x0) / pitch)))
    return sorted(out)


SEQ = [("plot", (2, 1)), ("plot", (3,)), ("plot", (1, 1)), ("plot", ()), ("export", (2, 1), "x.png"), ("export", (2, 2), "y.png"),
       ("export", (3,), "x.png"), ("latex", (2, 1)), ("print", (2, 1))]


def cells_of(lam):
    return sorted((i, j) for i, x in enumerate(lam) for j in range(x))


def boxes(fig, ax):
    """The cells drawn in a figure, or a description of what else is there."""
    if len(fig.axes) != 1 or fig.axes[0] is not ax:
        return f"{len(fig.axes)} axes"
    if ax.lines or ax.collections or ax.images:
        return "more than boxes"
    return sorted((round(-p.get_y(), 6), round(p.get_x(), 6)) for p in ax.patches)


def sequences(task, ctx):
    """Renderings one after the other, with the plots left open, on one object
    per partition: every plot and file shows its own diagram at the end."""
    import matplotlib.pyplot as plt
    from schubertpy.schur import Schur
    tmp = tempfile.mkdtemp(prefix="mc-c22-")
    latex = {o[1]: Schur(list(o[1])).latex() for o in SEQ}
    try:
        for seq in task:
            plt.close("all")
            objs = {o[1]: Schur(list(o[1])) for o in SEQ}
            open_, files, text = [], {}, []
            for o in seq:
                s = objs[o[1]]
                call = {"plot": s.plot_partition, "latex": s.latex, "print": lambda: out(s.print_partition),
                        "export": lambda: s.export_png(os.path.join(tmp, o[2]))}[o[0]]
                ok, r = base.quiet(call)
                if not ok:
                    text.append(f"{o} raises {r!r}")
                elif o[0] == "plot":
                    open_.append((o[1], r))
                elif o[0] == "export":
                    files[o[2]] = o[1]
                elif o[0] == "latex":
                    if r != latex[o[1]]:
                        text.append(f"{o} gives {r!r}, before {latex[o[1]]!r}")
                elif rows_of(r, "[ ]") != list(o[1]):
                    text.append(f"{o} prints {r!r}")
            if len({id(r[0]) for _, r in open_}) != len(open_):
                text.append("two plots share one figure")
            for lam, (fig, ax) in open_:
                b = boxes(fig, ax)
                if b != cells_of(lam):
                    text.append(f"the plot of {list(lam)} shows {b}")
            if sorted(plt.get_fignums()) != sorted(r[0].number for _, r in open_):
                text.append(f"open figures {plt.get_fignums()}, {len(open_)} plots")
            for f, lam in files.items():
                p = os.path.join(tmp, f)
                if not os.path.isfile(p) or png_cells(p) != cells_of(lam):
                    text.append(f"{f} does not show {list(lam)}")
            if sorted(os.listdir(tmp)) != sorted(files):
                text.append(f"files {os.listdir(tmp)}")
            for f in os.listdir(tmp):
                os.unlink(os.path.join(tmp, f))
            ctx.add(traces_validated_against_impl=1, transitions=len(seq), states=1)
            for x in text:
                ctx.bad(f"renderings {[o[0] + str(list(o[1])) for o in seq]}", x,
                        "from schubertpy import *\n" + "\n".join({"plot": f"print(Schur({list(o[1])}).plot_partition()[0].axes)", "latex": f"print(Schur({list(o[1])}).latex())",
                        "print": f"Schur({list(o[1])}).print_partition()", "export": f"Schur({list(o[1])}).export_png('/tmp/{o[-1]}')"}[o[0]] for o in seq))
            if ctx.full:
                return
    finally:
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)


def work(task, ctx):
    if task[0] == "sequences":
        return sequences(task[1], ctx)
    warnings.simplefilter("ignore")
    lib = base.load()
    from schubertpy.schur import Schur
    from schubertpy.partition import Partition
    from schubertpy.utils.mix import yd
    import matplotlib.pyplot as plt
    tmp = tempfile.mkdtemp(prefix="mc-c22-")
    try:
        for lam, heavy, png in task:
            l = list(lam)
            cells = sorted((i, j) for i, x in enumerate(l) for j in range(x))
            want = [x for x in l if x]

            def rp(x):
                return RP % (l, x)
            for nm, f, box, arg in ((f"Schur({l}).print_partition()", lambda: Schur(l).print_partition(), "[ ]", None),
                                    (f"Partition({l}).draw()", lambda: Partition(l).draw(), "[]", None),
                                    (f"yd({l})", lambda: yd(l), "[]", None)):
                ok, t = ctx.call(nm, out, f, repro=rp(nm))
                ctx.add(traces_validated_against_impl=1)
                if not ok:
                    continue
                if nm.startswith("yd"):
                    head, _, t = t.partition("\n")
                    if str(l).replace(" ", "") not in head.replace(" ", ""):
                        ctx.bad(nm, f"the title {head!r} does not name the partition", rp(nm))
                if nm.startswith("Part") and not want and t.strip() == "0":
                    t = ""        # the empty diagram is announced as 0
                if rows_of(t, box) != want:
                    ctx.bad(nm, f"prints {t!r} for {l}", rp(nm))
            texts = []
            for nm in (f"Schur({l}).latex()", f"Schur({l}).latex_standalone()"):
                ok, t = ctx.call(nm, lambda: eval(nm, {"Schur": Schur}), repro=rp(f"print({nm})"))
                ctx.add(traces_validated_against_impl=1)
                if not ok:
                    continue
                texts.append(t)
                if not isinstance(t, str) or not balanced(t):
                    ctx.bad(nm, f"is not well formed: {t!r}", rp(f"print({nm})"))
                    continue
                m = re.fullmatch(r"(.*?)\\begin\{tikzpicture\}(?:\[.*?\])?(.*?)\\end\{tikzpicture\}(.*)", t.strip(), re.S)
                if not m:
                    ctx.bad(nm, f"is not one picture: {t!r}", rp(f"print({nm})"))
                    continue
                pre, body, post = m.groups()
                e = picture(body.split("\n"), cells)
                if e:
                    ctx.bad(nm, e, rp(f"print({nm})"))
                if "standalone" in nm:
                    if not (re.search(r"^\s*\\documentclass(\[.*?\])?\{standalone\}", pre) and re.search(r"\\usepackage(\[.*?\])?\{tikz\}", pre)
                            and pre.rstrip().endswith("\\begin{document}") and post.strip() == "\\end{document}"):
                        ctx.bad(nm, f"the document around the picture is wrong: {pre!r} {post!r}", rp(f"print({nm})"))
                elif pre.strip() or post.strip():
                    ctx.bad(nm, f"something around the picture: {pre!r} {post!r}", rp(f"print({nm})"))
            if len(texts) == 2 and texts[0].strip() not in texts[1]:
                ctx.bad(f"Schur({l}).latex_standalone()", "does not contain the picture of latex()", rp(f"print(Schur({l}).latex_standalone())"))
            ctx.add(states=1, transitions=len(cells))
            if heavy:
                nm = f"Schur({l}).plot_partition()"
                before = list(plt.get_fignums())
                ok, r = ctx.call(nm, Schur(l).plot_partition, repro=rp(nm))
                ctx.add(traces_validated_against_impl=1)
                if ok:
                    fig, ax = r
                    got = []
                    for p in ax.patches:
                        if type(p).__name__ != "Rectangle" or abs(p.get_width() - 1) > 1e-9 or abs(p.get_height() - 1) > 1e-9:
                            ctx.bad(nm, f"draws {p}", rp(nm))
                        got.append((-p.get_y(), p.get_x()))
                    x0, x1 = ax.get_xlim()
                    y0, y1 = ax.get_ylim()
                    if sorted(got) != [tuple(map(float, c)) for c in cells]:
                        ctx.bad(nm, f"boxes at {sorted(got)}, cells {cells}", rp(nm))
                    elif any(not (x0 <= x and x + 1 <= x1 and y0 <= -y and -y + 1 <= y1) for y, x in got):
                        ctx.bad(nm, f"boxes outside the visible part {x0, x1, y0, y1}", rp(nm))
                    if ax.lines or ax.collections or ax.images:
                        ctx.bad(nm, "draws more than boxes", rp(nm))
                    if len(fig.axes) != 1:
                        ctx.bad(nm, f"{len(fig.axes)} axes", rp(nm))
                    plt.close(fig)
            if png:
                nm = f"Schur({l}).export_png('x.png')"
                path = os.path.join(tmp, "x%d.png" % ctx.counts["states"])
                other = plt.figure() if png == 2 else None
                before = list(plt.get_fignums())
                ok, _ = ctx.call(nm, Schur(l).export_png, path, repro=rp(f"import matplotlib.pyplot as plt\n{nm}\nprint(plt.get_fignums())"))
                ctx.add(traces_validated_against_impl=1)
                if ok:
                    if list(plt.get_fignums()) != before:
                        ctx.bad(nm, f"open figures before {before}, after {plt.get_fignums()}", rp(nm))
                    if not os.path.isfile(path):
                        ctx.bad(nm, f"did not write the file; there is {os.listdir(tmp)}", rp(nm))
                    elif open(path, "rb").read(8) != b"\x89PNG\r\n\x1a\n":
                        ctx.bad(nm, "the file is not a PNG image", rp(nm))
                    elif cells:
                        try:
                            got = png_cells(path)
                        except Exception as e:
                            got = f"{type(e).__name__}: {e}"
                        if got != cells:
                            ctx.bad(nm, f"the image shows boxes {got}, cells {cells}", rp(nm))
                if os.listdir(tmp) not in ([], [os.path.basename(path)]):
                    ctx.bad(nm, f"left other files: {os.listdir(tmp)}", rp(nm))
                for f in os.listdir(tmp):
                    os.unlink(os.path.join(tmp, f))
                # a file that cannot be written: the error is reported, nothing stays open
                if png == 2:
                    nm = f"Schur({l}).export_png('missing/x.png')"
                    ok, r = base.quiet(Schur(l).export_png, os.path.join(tmp, "missing", "x.png"))
                    if ok or not isinstance(r, OSError):
                        ctx.bad(nm, f"gives {r!r}, expected an OSError", rp(nm))
                    if list(plt.get_fignums()) != before:
                        ctx.bad(nm, f"open figures before {before}, after {plt.get_fignums()}", rp(nm))
                    plt.close(other)
            if ctx.full:
                return
    finally:
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)


def main(tier):
    base.load()
    rep = base.Report("C22", tier)
    quick = tier == "quick"
    light = list(partitions(5, 5)) if quick else list(partitions(7, 6))
    light += [(12,), (11, 10), (0,), (2, 1, 0), (1, 0, 0), (1,) * 12, (41,), (45, 42, 3), (101,), (64, 64), (1,) * 45, (2,) * 33, (26, 17, 9)]
    heavy = {t for t in partitions(4, 4)} if quick else {t for t in partitions(6, 5)}
    heavy |= {(12,), (1,) * 11, (2, 1, 0), (10, 1), (33, 27), (2,) * 30}
    png = {t for t in heavy if sum(t) <= (5 if quick else 9)} | {(2, 1, 0), (7,), (1,) * 7}
    ts = [(t, t in heavy, (2 if sum(t) in (0, 3) else 1) if t in png else 0) for t in dict.fromkeys(light + sorted(heavy | png))]
    ts.sort(key=lambda t: t[2] != 0)
    seqs = [q for n in (2, 3) for q in itertools.product(SEQ, repeat=n) if not quick or n == 2 or sum(o[0] != "export" for o in q) > 1]
    if not quick:
        seqs += [q for q in itertools.product(SEQ[:6], repeat=4)]
    rep.explore(work, [ts[i::32] for i in range(32)] + [("sequences", seqs[i::32]) for i in range(32)])
    rep.extra["sequences_of_renderings"] = len(seqs)
    rep.extra["exhaustive"] = True
    rep.extra["bound"] = f"{len(ts)} partitions for text and LaTeX, {len(heavy)} for plots, {len(png)} for PNG files (pixels read back); {len(seqs)} sequences of up to {3 if quick else 4} renderings with the plots left open"
    rep.assumptions = ["no LaTeX is installed: LaTeX is checked by reading its structure"]
    return rep.finish()
