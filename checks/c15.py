"""C15: pixel/block/tile coordinates, over every small layout."""
import itertools

from vlib.harness import run_cases

LEVEL = "exploration"
TECHNIQUE = "explicit enumeration of every tile layout and every pixel of it, against the layout computed from first principles"
NOTE = """Exhaustive over all layouts with up to the stated numbers of block rows/columns and block sizes, plus the
documented 5000x5000 layout's every block; the oracle walks the tile pixel by pixel."""
RULE = """A case is one layout (blocks in x and y, block width and height); every pixel and block of it is converted
with every helper and compared with a walk over the tile.  Non-trivial: more than one block or pixel; distinct by layout."""


def one(case):
    nbx, nby, bw, bh = case
    from pycold import utils, ob_analyst, pyclassifier
    from pycold.common import DatasetInfo
    fails = []

    def bad(key, **kw):
        if len(fails) < 5:
            fails.append((key, kw))

    n_rows, n_cols = nby * bh, nbx * bw
    ds = DatasetInfo(n_rows, n_cols, nbx, nby)
    if (ds.nblocks, ds.block_width, ds.block_height) != (nbx * nby, bw, bh):
        bad("dataset-info", got=(ds.nblocks, ds.block_width, ds.block_height))
    seen = set()
    block_id = 0
    for by in range(1, nby + 1):
        for bx in range(1, nbx + 1):
            block_id += 1
            for mod in (utils, ob_analyst, pyclassifier):
                g = (mod.get_block_x(block_id, nbx), mod.get_block_y(block_id, nbx))
                if g != (bx, by) or not all(isinstance(v, int) for v in g):
                    bad("block-xy", block=block_id, want=(bx, by), got=g)
            for idx in range(bw * bh):
                row, col = (by - 1) * bh + idx // bw + 1, (bx - 1) * bw + idx % bw + 1
                g = utils.get_rowcol_intile(idx, bw, bh, bx, by)
                if g != (row, col):
                    bad("rowcol", block=(bx, by), index=idx, want=(row, col), got=g)
                pos = n_cols * (row - 1) + col
                if pos in seen:
                    bad("not-a-bijection", pos=pos)
                seen.add(pos)
                if utils.get_id_inblock(pos, bw, bh, n_cols) != idx:
                    bad("id-inblock", pos=pos, want=idx, got=utils.get_id_inblock(pos, bw, bh, n_cols))
                g = (utils.get_row_index(pos, n_cols, by, bh), utils.get_col_index(pos, n_cols, bx, bw))
                if g != (idx // bw, idx % bw):
                    bad("row-col-index", pos=pos, want=(idx // bw, idx % bw), got=g)
    if seen != set(range(1, n_rows * n_cols + 1)):
        bad("not-covering", n=len(seen))
    return fails, (case if n_rows * n_cols > 1 else None)


def big(case):
    """the corner and edge pixels of every block of a realistic layout"""
    nbx, nby, bw, bh = case
    from pycold import utils
    fails = []
    n_cols = nbx * bw
    for b in range(1, nbx * nby + 1):
        by, bx = (b - 1) // nbx + 1, (b - 1) % nbx + 1
        if (utils.get_block_x(b, nbx), utils.get_block_y(b, nbx)) != (bx, by):
            fails.append(("block-xy", dict(block=b)))
        for r, c in itertools.product((0, 1, bh - 2, bh - 1), (0, 1, bw - 2, bw - 1)):
            idx = r * bw + c
            row, col = utils.get_rowcol_intile(idx, bw, bh, bx, by)
            pos = n_cols * (row - 1) + col
            if (row, col) != ((by - 1) * bh + r + 1, (bx - 1) * bw + c + 1) or \
                    utils.get_id_inblock(pos, bw, bh, n_cols) != idx or \
                    (utils.get_row_index(pos, n_cols, by, bh), utils.get_col_index(pos, n_cols, bx, bw)) != (r, c):
                fails.append(("big-layout", dict(block=b, r=r, c=c)))
    return fails[:5], case


def parts(case):
    """block mosaics and cuts: assemble_array puts block b's pixel idx where the coordinates say"""
    nbx, nby, bw, bh, nf = case
    import numpy as np
    from pycold import utils
    fails = []
    blocks = []
    for b in range(nbx * nby):
        a = np.empty((bh, bw, nf), dtype=np.int64)
        for i in range(bw * bh):
            a[i // bw, i % bw] = [(b * bw * bh + i) * nf + f for f in range(nf)]
        blocks.append(a)
    m = utils.assemble_array([b.copy() for b in blocks], nbx)
    if m.shape != (nby * bh, nbx * bw, nf):
        return [("assemble-shape", m.shape)], case
    for b in range(nbx * nby):
        for i in range(bw * bh):
            r, c = (b // nbx) * bh + i // bw, (b % nbx) * bw + i % bw
            if list(m[r, c]) != [(b * bw * bh + i) * nf + f for f in range(nf)]:
                return [("assemble-place", dict(block=b + 1, index=i))], case
    return fails, case


def run(ctx):
    n, m = (5, 5) if ctx.quick else (8, 7)
    lay = list(itertools.product(range(1, n + 1), range(1, n + 1), range(1, m + 1), range(1, m + 1)))
    d = lambda c: dict(zip(("n_block_x", "n_block_y", "block_width", "block_height", "features"), c))
    run_cases(ctx, "layouts", one, lay, describe=d)
    run_cases(ctx, "realistic", big, [(20, 20, 250, 250), (30, 30, 122, 122), (50, 20, 100, 250), (20, 50, 250, 100),
                                      (1, 40, 5000, 125), (40, 1, 125, 5000)], describe=d)
    run_cases(ctx, "mosaic", parts, list(itertools.product(range(1, n), range(1, n), range(1, 4), range(1, 4), (1, 3))), describe=d)
    ctx.coverage["exhaustive"] = True
