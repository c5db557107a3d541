"""C12: facet regions against a point set model."""
import itertools

import numpy as np

from core import Group, call, check, raises, state
from africanus.linalg.geometry import (BoundingBox, BoundingBoxFactory,
                                       BoundingConvexHull)

ASSUMPTIONS = ["regions have integer vertices and a non-zero area (scipy's "
               "hulls need one)"]


def hull_ref(pts):
    """ convex hull, counter clockwise, without collinear points """
    pts = sorted(set(map(tuple, pts)))
    if len(pts) < 3:
        return None

    def half(it):
        h = []
        for p in it:
            while len(h) > 1 and ((h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) -
                                  (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0])
                                  ) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    h = half(pts) + half(reversed(pts))
    return h if len(h) > 2 else None


def inside(h, x, y):
    return all((b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0]) >= 0
               for a, b in zip(h, h[1:] + h[:1]))


def depth(h, x, y):
    """ distance inside the nearest edge line (negative: outside it) """
    return min(((b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0])) /
               np.hypot(b[0] - a[0], b[1] - a[1])
               for a, b in zip(h, h[1:] + h[:1]))


def pointset(h):
    xs, ys = [p[0] for p in h], [p[1] for p in h]
    return {(y, x) for x in range(min(xs), max(xs) + 1)
            for y in range(min(ys), max(ys) + 1) if inside(h, x, y)}


def sparse(reg):
    return [tuple(int(v) for v in c) for c in reg.sparse_mask]


def mask_is(reg, want, box, what, weights=None):
    """ box = (xl, xu, yl, yu) """
    xl, xu, yl, yu = box
    s = sparse(reg)
    check(len(s) == len(set(s)), "%s: duplicate mask points", what)
    check(set(s) == want, "%s: sparse mask lacks %s, has %s in excess", what,
          sorted(want - set(s))[:4], sorted(set(s) - want)[:4])
    m = call(lambda: reg.mask)
    check(m.shape == (yu - yl + 1, xu - xl + 1), "%s: mask shape %s for %s",
          what, m.shape, box)
    ref = np.zeros_like(m)
    for y, x in want:
        ref[y - yl, x - xl] = 1 if weights is None else weights[y, x]
    check(np.allclose(m, ref), "%s: filled mask\n%s\nexpected\n%s", what, m,
          ref)
    check(len(reg.sprase_mask_weights) == len(s), "%s: weights", what)


def limits(reg):
    c = np.asarray(reg.corners)
    return (int(c[:, 0].min()), int(c[:, 0].max()),
            int(c[:, 1].min()), int(c[:, 1].max()))


def polygon(p):
    pts, off = p
    pts = [(a + off[0], b + off[1]) for a, b in pts]
    h = hull_ref(pts)
    if h is None:
        e = raises(BoundingConvexHull, pts)
        check(e is not None, "degenerate region %s accepted", pts)
        return "degenerate"
    reg = call(BoundingConvexHull, pts)
    box = (min(x for x, _ in pts), max(x for x, _ in pts),
           min(y for _, y in pts), max(y for _, y in pts))
    want = pointset(h)
    for x in range(box[0] - 2, box[1] + 3):
        for y in range(box[2] - 2, box[3] + 3):
            check(bool((x, y) in reg) == ((y, x) in want),
                  "(%d, %d) in %s: %s", x, y, pts, (x, y) in reg)
    for x in np.arange(box[0] - 1.75, box[1] + 2, .5):
        for y in np.arange(box[2] - 1.75, box[3] + 2, .5):
            # inside, or more than half a pixel outside
            d = depth(h, x, y)
            if d >= 0 or d < -.5:
                check(bool((x, y) in reg) == (d >= 0), "(%s, %s) in %s: %s",
                      x, y, pts, (x, y) in reg)
    mask_is(reg, want, box, "hull of %s" % (pts,))
    # winding and normals
    c = np.asarray(reg.corners, float)
    nxt = np.roll(c, -1, axis=0)
    a2 = np.sum(c[:, 0] * nxt[:, 1] - nxt[:, 0] * c[:, 1])
    check(a2 < 0, "corners of %s are not clockwise", pts)
    mid = c.mean(axis=0)
    e = np.asarray(reg.edges)
    check(np.allclose(e[:, 0], c) and np.allclose(e[:, 1], nxt), "edges")
    check(np.allclose(reg.edge_midpoints, (c + nxt) / 2), "midpoints")
    for n, a, b in zip(reg.rnormals, c, nxt):
        check(np.dot(n, b - a) == 0 and np.dot(n, mid - a) > 0,
              "right normal %s of %s", n, pts)
    check(np.array_equal(reg.lnormals, -np.asarray(reg.rnormals)), "lnormals")
    # an explicit mask is clipped to the region
    full = [(y, x) for x in range(box[0] - 1, box[1] + 2)
            for y in range(box[2] - 1, box[3] + 2)]
    r2 = call(BoundingConvexHull, pts, mask=full)
    mask_is(r2, want, box, "masked hull of %s" % (pts,))
    r2.sparse_mask = full[::3]
    mask_is(r2, want & set(full[::3]), box, "mask set again")
    r2.sparse_mask = []
    mask_is(r2, set(), box, "empty mask")
    for q in [(box[2], box[0]), (box[3], box[0]), (box[2], box[1]),
              (box[3], box[1]), (box[3] + 1, box[1]), sorted(want)[-1]]:
        r2.sparse_mask = [q]
        mask_is(r2, want & {q}, box, "mask of one pixel %s" % (q,))
    r2.invalidate_cached_masks()
    mask_is(r2, want, box, "mask initialised again")
    # axis aligned box around the hull
    for square, odd in itertools.product((False, True), repeat=2):
        bb = call(BoundingBoxFactory.AxisAlignedBoundingBox, reg, square, odd)
        boxed(bb, want, box, square, odd, pts)
    return len(want)


def boxed(bb, want, box, square, odd, what):
    L = limits(bb)
    nx, ny = box[1] - box[0] + 1, box[3] - box[2] + 1
    if square:
        nx = ny = max(nx, ny)
    if odd:
        nx, ny = nx + 1 - nx % 2, ny + 1 - ny % 2
    check(bb.box_npx == (nx, ny) and
          (L[1] - L[0] + 1, L[3] - L[2] + 1) == (nx, ny),
          "box around %s (square=%s, odd=%s) has %s pixels (%s), expected %s",
          what, square, odd, bb.box_npx, L, (nx, ny))
    check(L[0] <= box[0] and L[1] >= box[1] and L[2] <= box[2] and
          L[3] >= box[3], "box %s (square=%s, odd=%s) does not contain %s "
          "(%s)", L, square, odd, what, box)
    mask_is(bb, want, L, "box around %s" % (what,))


def overlap(p):
    A, B, off, sep = p
    B = [(x + off[0], y + off[1]) for x, y in B]
    ha, hb = hull_ref(A), hull_ref(B)
    ra, rb = BoundingConvexHull(A), BoundingConvexHull(B)
    gaps = []
    for h in (ha, hb):
        for a, b in zip(h, h[1:] + h[:1]):
            n = np.array([b[1] - a[1], a[0] - b[0]], float)
            n /= np.hypot(*n)
            pa, pb = np.array(ha).dot(n), np.array(hb).dot(n)
            gaps += [pb.min() - pa.max(), pa.min() - pb.max()]
    g = max(gaps)
    s = 0.5 if sep is None else sep
    if abs(g - s) < 1e-9:
        return "boundary"
    kw = {} if sep is None else {"min_sep_dist": sep}
    r1 = bool(call(ra.overlaps_with, rb, **kw))
    r2 = bool(call(rb.overlaps_with, ra, **kw))
    check(r1 == r2, "overlap of %s and %s depends on the order", A, B)
    check(r1 == (g <= s), "%s and %s: separated by %.3f, overlap %s", A, B, g,
          r1)
    # exact geometry: a shared point always overlaps
    if pointset(ha) & pointset(hb):
        check(r1, "%s and %s share pixels but do not overlap", A, B)
    return r1


# -- boxes -------------------------------------------------------------------
def box_points(b):
    return {(y, x) for x in range(b[0], b[1] + 1)
            for y in range(b[2], b[3] + 1)}


def rnd(lo, hi):
    s = lo + hi
    return s // 2 if s >= 0 else -((-s) // 2)


def box(p):
    xl, xu, yl, yu = p
    bb = call(BoundingBox, xl, xu, yl, yu)
    want = box_points(p)
    check(bb.box_npx == (xu - xl + 1, yu - yl + 1), "box_npx %s",
          bb.box_npx)
    check(limits(bb) == p, "limits %s", limits(bb))
    mask_is(bb, want, p, "box %s" % (p,))
    for x in range(xl - 2, xu + 3):
        for y in range(yl - 2, yu + 3):
            check(bool((x, y) in bb) == ((y, x) in want), "(%d,%d) in %s", x,
                  y, p)
    check(bb.area == len(want), "area %s of %s", bb.area, p)
    check(bb.centre == [rnd(xl, xu), rnd(yl, yu)], "centre %s of %s",
          bb.centre, p)
    for square, odd in itertools.product((False, True), repeat=2):
        boxed(call(BoundingBoxFactory.AxisAlignedBoundingBox, bb, square,
                   odd), want, p, square, odd, p)
    # explicit masks
    sub = sorted(want)[::2] + [(yl - 1, xl), (yu, xu + 1)]
    for m in (sub, np.array(sub)):
        b2 = call(BoundingBox, xl, xu, yl, yu, mask=m)
        mask_is(b2, want & set(sub), p, "masked box %s" % (p,))
        b2.sparse_mask = sorted(want)[:1]
        mask_is(b2, {sorted(want)[0]}, p, "mask set again")
        b2.sparse_mask = []
        mask_is(b2, set(), p, "empty mask")
        for q in sub[-2:] + sub[:1]:
            b2.sparse_mask = [q]
            mask_is(b2, want & {q}, p, "mask of one pixel")
    for t in (np.int64, np.int32, np.int16):
        b3 = call(BoundingBox, t(xl), t(xu), t(yl), t(yu))
        check(limits(b3) == p and b3.box_npx == bb.box_npx, "box of %s: "
              "%s %s", t.__name__, limits(b3), b3.box_npx)
        mask_is(b3, want, p, "box of %s %s" % (t.__name__, p))
    return len(want)


def far(p):
    """ facets anywhere are put together as they lie """
    boxes, off, axes, ndim = p
    boxes = [(b[0] + off[0], b[1] + off[0], b[2] + off[1], b[3] + off[1])
             for b in boxes]
    regs = [call(BoundingBox, *b) for b in boxes]
    data = [cube(b[3] - b[2] + 1, b[1] - b[0] + 1, axes, ndim, "float64") +
            1000 * i for i, b in enumerate(boxes)]
    img, reg = call(BoundingBox.project_regions, data, regs, axes=axes)
    L = (min(b[0] for b in boxes), max(b[1] for b in boxes),
         min(b[2] for b in boxes), max(b[3] for b in boxes))
    check(limits(reg) == L, "stitched region %s of %s", limits(reg), boxes)
    got = plane(img, axes)
    ref = np.zeros_like(plane(data[0], axes),
                        shape=got.shape[:-2] + (L[3] - L[2] + 1,
                                                L[1] - L[0] + 1))
    cov = set()
    for b, d in zip(boxes, data):
        ref[..., b[2] - L[2]:b[3] - L[2] + 1,
            b[0] - L[0]:b[1] - L[0] + 1] += plane(d, axes)
        cov |= box_points(b)
    check(got.shape == ref.shape and np.array_equal(got, ref),
          "facets %s are not put together as they lie", boxes)
    check({tuple(map(int, q)) for q in reg.sparse_mask} == cov,
          "stitched mask of %s", boxes)
    return len(boxes)


def split(p):
    b, n = p
    xl, xu, yl, yu = b
    bb = BoundingBox(*b)
    w, h = bb.box_npx
    if min(w, h) < 2 * n:
        e = raises(BoundingBoxFactory.SplitBox, bb, n)
        if e is not None:
            return "rejected"
    parts = call(BoundingBoxFactory.SplitBox, bb, n)
    check(len(parts) == n * n, "%d parts", len(parts))
    seen = {}
    sizes = []
    for q in parts:
        L = limits(q)
        sizes.append(q.box_npx)
        check(q.box_npx == (L[1] - L[0] + 1, L[3] - L[2] + 1), "box_npx")
        for c in box_points(L):
            check(c not in seen, "split(%s, %d): pixel %s in two parts", b,
                  n, c)
            seen[c] = 1
        mask_is(q, box_points(L), L, "part %s of %s" % (L, b))
    check(set(seen) == box_points(b), "split(%s, %d) covers %s pixels, the "
          "box has %s", b, n, len(seen), len(box_points(b)))
    # with a partial mask
    m = sorted(box_points(b))[::2]
    parts = call(BoundingBoxFactory.SplitBox, BoundingBox(*b, mask=m), n)
    got = [c for q in parts for c in sparse(q)]
    check(sorted(got) == m, "split of a masked box: %s, expected %s", got, m)
    return len(parts)


def pad(p):
    b, dx, dy = p
    bb = BoundingBox(*b)
    w, h = bb.box_npx
    if dx < w or dy < h:
        e = raises(BoundingBoxFactory.PadBox, bb, dx, dy)
        check(isinstance(e, ValueError), "smaller padding: %r", e)
        return "rejected"
    q = call(BoundingBoxFactory.PadBox, bb, dx, dy)
    L = limits(q)
    check(q.box_npx == (dx, dy) == (L[1] - L[0] + 1, L[3] - L[2] + 1),
          "padded %s to %s", q.box_npx, (dx, dy))
    mask_is(q, box_points(b), L, "padding of %s to %s" % (b, (dx, dy)))
    for ax, d in ((0, dx), (1, dy)):
        if d % 2:
            check(q.centre[ax] == bb.centre[ax], "padding %s to %s moves "
                  "the centre from %s to %s", b, (dx, dy), bb.centre,
                  q.centre)
        else:
            check(abs(q.centre[ax] - bb.centre[ax]) <= 1, "centre")
    return dx - w, dy - h


# -- data --------------------------------------------------------------------
FILL = {"zero": 0, "nan": np.nan, "seven": 7.0, "minus": -1.5}


def cube(ny, nx, axes, ndim, dtype):
    shape = [2] * ndim
    a = sorted(x % ndim for x in axes)
    shape[a[0]], shape[a[1]] = ny, nx
    return (np.arange(np.prod(shape)).reshape(shape) + 1.0).astype(dtype)


def plane(c, axes):
    """ -> array of shape (other..., y, x) """
    a = sorted(x % c.ndim for x in axes)
    return np.moveaxis(c, a, (-2, -1))


def same(a, b):
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def cut_ref(img, want, L, fill, weights=None):
    P = np.full(img.shape[:-2] + (L[3] - L[2] + 1, L[1] - L[0] + 1), fill,
                dtype=img.dtype)
    for y, x in want:
        if 0 <= y < img.shape[-2] and 0 <= x < img.shape[-1]:
            w = 1 if weights is None else weights[y, x]
            P[..., y - L[2], x - L[0]] = img[..., y, x] * w
    return P


def cut(p):
    b, (ny, nx), axes, ndim, fill, dtype, kind = p
    c = cube(ny, nx, axes, ndim, dtype)
    c0 = c.copy()
    if kind == "box":
        reg = BoundingBox(*b)
        want = box_points(b)
    elif kind == "tri":
        pts = [(b[0], b[2]), (b[1], b[2]), (b[0], b[3])]
        reg = BoundingConvexHull(pts)
        want = pointset(hull_ref(pts))
    elif kind == "undefined":
        # undefined pixels outside the region do not leak into it
        pts = [(b[0], b[2]), (b[1], b[2]), (b[0], b[3])]
        reg = BoundingConvexHull(pts)
        want = pointset(hull_ref(pts))
        pl = plane(c, axes)
        for y, x in itertools.product(range(ny), range(nx)):
            if (y, x) not in want:
                pl[..., y, x] = np.nan if (x + y) % 2 else np.inf
        c0 = c.copy()
    else:
        want = set(sorted(box_points(b))[::2])
        reg = BoundingBox(*b, mask=sorted(want))
    f = FILL[fill]
    kw = {} if axes == (2, 3) else {"axes": axes}
    if fill != "zero":
        kw["oob_value"] = f
    out = b[1] < 0 or b[3] < 0 or b[0] >= nx or b[2] >= ny
    if out:
        e = raises(BoundingConvexHull.regional_data, reg, c, **kw)
        check(isinstance(e, ValueError), "region %s outside a %dx%d image: "
              "%r", b, ny, nx, e)
        return "outside"
    d, ext = call(BoundingConvexHull.regional_data, reg, c, **kw)
    check(list(ext) == list(b), "extents %s of %s", ext, b)
    check(same(c, c0), "image modified")
    check(d.dtype == c.dtype, "type %s", d.dtype)
    got = plane(d, axes)
    ref = cut_ref(plane(c, axes), want, b, f)
    check(got.shape == ref.shape, "shape %s, expected %s", got.shape,
          ref.shape)
    check(same(got, ref), "region %s (%s) of a %dx%d image, fill %s:\n%s\n"
          "expected\n%s", b, kind, ny, nx, fill, got[(0,) * (got.ndim - 2)],
          ref[(0,) * (ref.ndim - 2)])
    d[...] = -99
    check(same(c, c0), "regional data is a view of the image")
    return "cut"


def stitch(p):
    """ split, pad, cut, project: the image comes back """
    b, n, padding, (ny, nx), fill, axes, ndim = p
    c = cube(ny, nx, axes, ndim, "float64")
    parts = BoundingBoxFactory.SplitBox(BoundingBox(*b), n)
    regs = [BoundingBoxFactory.PadBox(q, q.box_npx[0] + padding[0],
                                      q.box_npx[1] + padding[1])
            for q in parts]
    regs = [r for r in regs if limits(r)[1] >= 0 and limits(r)[3] >= 0 and
            limits(r)[0] < nx and limits(r)[2] < ny]
    if not regs:
        return "outside"
    data = [call(BoundingConvexHull.regional_data, r, c, axes=axes,
                 oob_value=FILL[fill])[0] for r in regs]
    keep = [d.copy() for d in data]
    img, reg = call(BoundingBox.project_regions, data, regs, axes=axes)
    check(all(same(a, k) for a, k in zip(data, keep)),
          "projecting modifies the facets")
    covered = set()
    for r in regs:
        covered |= set(sparse(r))
    L = limits(reg)
    Ls = [limits(r) for r in regs]
    check(L == (min(x[0] for x in Ls), max(x[1] for x in Ls),
                min(x[2] for x in Ls), max(x[3] for x in Ls)),
          "stitched region %s", L)
    check({tuple(map(int, s)) for s in reg.sparse_mask} == covered,
          "stitched mask")
    ref = cut_ref(plane(c, axes), covered, L, 0)
    got = plane(img, axes)
    check(got.shape == ref.shape and np.allclose(got, ref),
          "facets of %s (%d, padding %s) do not reproduce the image", b, n,
          padding)
    return len(regs)


def coadd(p):
    """ overlapping regions, normalised, add up to the image """
    boxes, (ny, nx), only, asmask = p
    c = cube(ny, nx, (0, 1), 2, "float64")
    regs = [BoundingBox(*b) if not asmask or i % 2 else
            BoundingConvexHull([(b[0], b[2]), (b[1], b[2]), (b[1], b[3]),
                                (b[0], b[3])]) for i, b in enumerate(boxes)]
    for r in regs:
        r.mask              # fill the cache
    call(BoundingConvexHull.normalize_masks, regs,
         only_overlapped_regions=only)
    count = {}
    for b in boxes:
        for q in box_points(b):
            count[q] = count.get(q, 0) + 1
    w = {q: 1.0 / n for q, n in count.items()}
    for r, b in zip(regs, boxes):
        mask_is(r, box_points(b), b, "normalised %s of %s" % (b, boxes), w)
    call(BoundingConvexHull.normalize_masks, regs,
         only_overlapped_regions=only)
    for r, b in zip(regs, boxes):
        mask_is(r, box_points(b), b, "normalised twice", w)
    if any(isinstance(r, BoundingBox) is False for r in regs):
        return "mixed"
    use = [r for r, b in zip(regs, boxes) if b[1] >= 0 and b[3] >= 0 and
           b[0] < nx and b[2] < ny]
    if not use:
        return "outside"
    data = [call(BoundingConvexHull.regional_data, r, c, axes=(0, 1))[0]
            for r in use]
    img, reg = call(BoundingBox.project_regions, data, use, axes=(0, 1))
    cov = set().union(*[box_points(limits(r)) for r in use])
    ref = cut_ref(c, cov, limits(reg), 0)
    check(np.allclose(img, ref), "coadded %s: %s, expected %s", boxes, img,
          ref)
    return len(use)


# -- histories ---------------------------------------------------------------
REGIONS = {
    "boxes": [("box", (0, 2, 0, 1)), ("box", (1, 3, 0, 2))],
    "hulls": [("hull", (0, 2, 0, 2)), ("hull", (1, 3, -1, 1))],
    "mixed": [("hull", (0, 2, 0, 1)), ("box", (-1, 1, 0, 1)),
              ("box", (6, 7, 0, 1))],
}


def region(kind, b, **kw):
    if kind == "box":
        return BoundingBox(*b, **kw)
    return BoundingConvexHull([(b[0], b[2]), (b[1], b[2]), (b[1], b[3]),
                               (b[0], b[3])], **kw)


def history_ops(name):
    n = len(REGIONS[name])
    ops = [("read", i) for i in range(n)] + [("weights", i) for i in range(n)]
    ops += [(k, i) for k in ("every", "half", "none", "fresh")
            for i in range(min(n, 2))]
    return ops + [("normalise", True), ("normalise", False)]


def history(p):
    """ every sequence of operations on the masks of a few regions """
    name, head, depth_ = p
    ops = history_ops(name)
    specs = REGIONS[name]
    for tail in itertools.product(ops, repeat=depth_ - len(head)):
        regs = [region(*s) for s in specs]
        model = [{q: 1. for q in box_points(b)} for _, b in specs]
        seq = [ops[i] for i in head] + list(tail)
        for step, (op, i) in enumerate(seq):
            what = "%s after %s" % (name, seq[:step + 1])
            if op == "read":
                m = call(lambda: regs[i].mask)
                b = specs[i][1]
                ref = np.zeros((b[3] - b[2] + 1, b[1] - b[0] + 1))
                for (y, x), w in model[i].items():
                    ref[y - b[2], x - b[0]] = w
                check(m.shape == ref.shape and np.allclose(m, ref), "mask of "
                      "region %d of %s:\n%s\nexpected\n%s", i, what, m, ref)
            elif op == "weights":
                got = dict(zip(sparse(regs[i]), regs[i].sprase_mask_weights))
                check(got == model[i] and len(sparse(regs[i])) == len(got) ==
                      len(regs[i].sprase_mask_weights), "weights %s, expected"
                      " %s (%s)", got, model[i], what)
            elif op in ("every", "half", "none"):
                b = specs[i][1]
                pts = sorted(box_points((b[0] - 1, b[1] + 1, b[2], b[3])))
                pts = {"every": pts, "half": pts[::2], "none": []}[op]
                regs[i].sparse_mask = pts
                model[i] = {q: 1. for q in pts if q in box_points(b)}
            elif op == "fresh":
                call(regs[i].invalidate_cached_masks)
                model[i] = {q: 1. for q in box_points(specs[i][1])}
            else:
                if not any(model):
                    continue        # nothing to normalise
                call(BoundingConvexHull.normalize_masks, regs,
                     only_overlapped_regions=i)
                count = {}
                for m in model:
                    for q in m:
                        count[q] = count.get(q, 0) + 1
                for m in model:
                    for q in m:
                        if count[q] > 1 or not i:
                            m[q] = 1. / count[q]
            state()
        for i, m in enumerate(model):
            got = dict(zip(sparse(regs[i]), regs[i].sprase_mask_weights))
            check(got == m, "region %d ends with weights %s, expected %s (%s "
                  "%s)", i, got, m, name, seq)
    return name


# -- size ladder -------------------------------------------------------------
def ladder(p):
    kind, n, k = p
    if kind == "ring":          # hulls of many vertices
        t = 2 * np.pi * np.arange(n) / n + .1
        pts = [(int(round(a)), int(round(b))) for a, b in
               zip(3 * n * np.cos(t) / k, 3 * n * np.sin(t) / k)]
        return polygon((pts, (k - 5, 7 - k)))
    if kind == "cloud":         # interior and repeated points
        pts = [((i * 7 + k) % (n + 1), (i * i * 3 + k) % (n + 2))
               for i in range(n + 3)]
        return polygon((pts, (-k, -3)))
    if kind == "box":
        box((-k, n - k - 1, k - 3, k + 3))
        return box((-k, 2, k - 3, k + n - 4))
    if kind == "split":
        return split(((-5, n - 6, 2, n + k), k))
    if kind == "pad":
        return pad(((-4, -1, 3, 8), n, n + k))
    if kind == "cut":
        for what in ("box", "tri", "masked"):
            cut(((-k, n - 2 * k, k, n + k), (n, n + 1), (2, 3), 4, "seven",
                 "float64", what))
            cut(((k, n - k, k, n - k), (n, n), (2, 3), 4, "zero", "float64",
                 what))
        return "cut"
    if kind == "stitch":
        return stitch(((-2, n, 1, n + 2), k, (1, 2), (n, n + 1), "zero",
                       (2, 3), 4))
    if kind == "coadd":
        return coadd((tuple((i * k, i * k + 3, i % 3, i % 3 + 2)
                            for i in range(n)), (5, n), k > 1, False))
    raise ValueError(kind)


def bad(p):
    k = p[0]
    bb = BoundingBox(0, 3, 0, 4)
    img = np.ones((1, 1, 5, 5))
    R = BoundingConvexHull.regional_data
    P = BoundingBox.project_regions
    F = BoundingBoxFactory
    calls = {
        "floatbox": (lambda: BoundingBox(0.0, 3, 0, 4), ValueError),
        "region": (lambda: R("x", img), TypeError),
        "axes": (lambda: R(bb, img, axes=(1, 2, 3)), ValueError),
        "axes1": (lambda: R(bb, img, axes=3), ValueError),
        "overlap": (lambda: bb.overlaps_with(3), TypeError),
        "mask": (lambda: BoundingBox(0, 3, 0, 4, mask=(1, 2)), TypeError),
        "mask3": (lambda: BoundingBox(0, 3, 0, 4, mask=[(1, 2, 3)]),
                  TypeError),
        "maskflat": (lambda: BoundingConvexHull(
            [(0, 0), (3, 0), (0, 3)], mask=[1, 2]), TypeError),
        "norm": (lambda: BoundingConvexHull.normalize_masks([bb, 1]),
                 TypeError),
        "split": (lambda: F.SplitBox(bb, 0), ValueError),
        "splitf": (lambda: F.SplitBox(bb, 1.5), ValueError),
        "splith": (lambda: F.SplitBox(BoundingConvexHull(
            [(0, 0), (3, 0), (0, 3)]), 1), TypeError),
        "padh": (lambda: F.PadBox(BoundingConvexHull(
            [(0, 0), (3, 0), (0, 3)]), 9, 9), TypeError),
        "aab": (lambda: F.AxisAlignedBoundingBox("x"), TypeError),
        "plen": (lambda: P([img], [bb, bb]), TypeError),
        "ptype": (lambda: P([[1]], [bb]), TypeError),
        "preg": (lambda: P([img], [1]), TypeError),
        "pdim": (lambda: P([np.ones((1, 1, 5, 4)), np.ones((5, 4))],
                           [bb, bb]), ValueError),
        "pshape": (lambda: P([np.ones((1, 1, 4, 5))], [bb]), ValueError),
    }
    fn, exc = calls[k]
    e = raises(fn)
    check(isinstance(e, exc), "%s: %r", k, e)
    return k


BADS = ("floatbox", "region", "axes", "axes1", "overlap", "mask", "mask3",
        "maskflat", "norm", "split", "splitf", "splith", "padh", "aab",
        "plen", "ptype", "preg", "pdim", "pshape")


def nested(p):
    """ hull around regions """
    a, b = p
    A, B = BoundingBox(*a), BoundingBox(*b)
    reg = call(BoundingConvexHull, [A, B])
    pts = [(x, y) for L in (a, b) for x in L[:2] for y in L[2:]]
    want = pointset(hull_ref(pts))
    mask_is(reg, want, limits(reg), "hull around %s and %s" % (a, b))
    return len(want)


def groups(tier):
    big = tier == "thorough"
    g4 = list(itertools.product(range(4), repeat=2))
    g5 = list(itertools.product(range(5), repeat=2))
    polys = [(s, o) for k in (3, 4) for s in itertools.combinations(g4, k)
             for o in (((-2, -1), (5, 100)) if k == 3 else ((-1, -2),))]
    polys += [(s, (-2, -2)) for s in itertools.combinations(g5, 3)]
    if big:
        polys += [(s, (-2, -2)) for s in itertools.combinations(g5, 4)]
        polys += [(s, (0, -3)) for s in itertools.combinations(g4, 5)]
    tri = [s for s in itertools.combinations(
        list(itertools.product(range(3), repeat=2)), 3) if hull_ref(s)]
    quad = [((0, 0), (4, 1), (5, 5), (1, 3)), ((0, 0), (6, 0), (6, 1),
                                               (0, 1)),
            ((0, 3), (3, 0), (6, 3), (3, 6)), ((0, 0), (7, 1), (7, 2))]
    offs = list(itertools.product(range(-4, 5, 2), repeat=2)) + [
        (1, 3), (3, -1), (-3, 2), (2, 5), (5, 2), (-5, 1)]
    ov = [(a, b, o, None) for a in tri[::(1 if big else 4)] for b in
          tri[::(1 if big else 3)] for o in offs[::(1 if big else 2)]]
    ov += [(a, b, o, s) for a in quad for b in quad + tri[:6]
           for o in itertools.product(range(-8, 9, 2 if not big else 1),
                                      repeat=2)
           for s in (None, 0.0, 2.0)]
    ov = sorted(set(ov), key=repr)
    boxes = [(x, x + w, y, y + h) for x in (-5, -2, 0, 3)
             for w in (1, 2, 3, 4, 7) for y in (-4, -1, 0, 6)
             for h in (1, 2, 5)]
    sp = [((x, x + w - 1, y, y + h - 1), n) for x, y in ((0, 0), (-7, 3))
          for w in range(2, 16) for h in (2, 3, 4, 6, 7, 8, 9, 11)
          for n in (1, 2, 3, 4, 5) if min(w, h) >= 2]
    pd = [((x, x + w - 1, y, y + 3), dx, dy) for x in (-9, -4, -3, 0, 1, 6)
          for y in (-7, 0, 2) for w in (2, 3, 4, 5, 6)
          for dx in range(2, 12) for dy in (4, 5, 6, 9)]
    ims = ((5, 5), (4, 7), (7, 4), (3, 9))
    small = [(x, x + w, y, y + h) for x in (-6, -2, 0, 2, 4, 6, 9)
             for w in (1, 3, 12) for y in (-5, -1, 0, 2, 3, 5, 8)
             for h in (1, 2, 11)]
    ct = [(b, i, ax, nd, f, dt, k) for b in small for i in ims
          for ax, nd in (((2, 3), 4),) for f in ("zero", "nan", "seven")
          for dt in ("float64",) for k in ("box", "tri", "masked",
                                           "undefined")]
    ct += [(b, i, ax, nd, f, dt, "box") for b in small[::5] for i in ims
           for ax, nd in (((0, 1), 2), ((0, 2), 3), ((1, 2), 3), ((3, 2), 4),
                          ((1, 3), 4), ((-2, -1), 3))
           for f in ("minus", "nan") for dt in ("float32", "float64")]
    st = [(b, n, pd_, i, f, ax, nd)
          for b in ((0, 5, 0, 5), (-2, 6, -3, 5), (1, 8, 0, 6), (0, 3, 0, 3),
                    (-1, 8, -1, 8), (2, 5, 2, 5), (-6, 9, -6, 9))
          for n in (1, 2, 3) if min(b[1] - b[0], b[3] - b[2]) + 1 >= 2 * n
          for pd_ in ((0, 0), (1, 1), (2, 0), (3, 5), (0, 4))
          for i in ims for f in ("zero", "nan")
          for ax, nd in (((2, 3), 4), ((0, 1), 2), ((0, 2), 3))]
    ob = [(x, x + w, y, y + h) for x in (-2, 0, 1) for w in (1, 3)
          for y in (-1, 0, 2) for h in (1, 2)]
    co = [((a, b), (4, 5), o, m) for a in ob for b in ob
          for o in (True, False) for m in (False, True)]
    co += [((a, b, c), (4, 3), True, False)
           for a in ob[::(1 if big else 3)] for b in ob[::(1 if big else 4)]
           for c in ob[1::(2 if big else 5)]]
    co += [((a,), (4, 3), o, m) for a in ob for o in (True, False)
           for m in (False, True)]
    co += [(((-9, -5, 0, 3), (-8, -2, -1, 2)), (4, 4), True, False)]
    lens = (9, 16, 17, 33) + ((64, 65) if big else ())
    lad = [("ring", n, k) for n in (5, 6, 7, 8, 9, 12, 17) for k in (2, 6)]
    lad += [("cloud", n, k) for n in (5, 6, 7, 9, 12, 17) for k in (0, 4)]
    lad += [(w, n, k) for w in ("box", "pad", "cut") for n in lens
            for k in (1, 4)]
    lad += [("split", n, k) for n in lens for k in (1, 2, 5, 6, 7, 8)
            if n >= 2 * k]
    lad += [("stitch", n, k) for n in lens for k in (1, 4, 5, 7)
            if n >= 2 * k]
    lad += [("coadd", n, k) for n in (4, 5, 6, 9, 17) for k in (0, 1, 2, 3)]
    fr = [(bs, o, ax, nd)
          for bs in (((0, 3, 0, 2),), ((0, 3, 0, 2), (4, 6, 0, 2)),
                     ((0, 3, 0, 2), (2, 6, 1, 5)), ((5, 9, 0, 2),
                                                    (0, 2, 4, 7)))
          for o in ((0, 0), (-500, 0), (0, -500), (-7, 700), (300, -90),
                    (-40000, 40000), (10 ** 6, 10 ** 6))
          for ax, nd in (((0, 1), 2), ((2, 3), 4), ((0, 2), 3))]
    hd = 5 if big else 4
    hist = [(nm, h, hd if nm != "mixed" else hd - 1) for nm in REGIONS
            for h in itertools.product(range(len(history_ops(nm))), repeat=2)]
    nest = [(a, b) for a in ob[::2] for b in boxes[::7]]
    return [
        Group("polygons", polys, polygon, "every point set of a small grid: "
              "containment, masks, winding, boxes around",
              "3-4 (5) vertices on 4x4 and 5x5 grids, offsets"),
        Group("overlap", ov, overlap, "all pairs of shapes and offsets vs "
              "separating axes", "triangles on 3x3, quadrilaterals"),
        Group("boxes", boxes, box, "boxes at all signs of coordinates",
              "%d boxes" % len(boxes)),
        Group("split", sp, split, "tiling for every size and count",
              "widths 2..15, counts 1..5"),
        Group("pad", pd, pad, "size, centre and mask of padded boxes",
              "sizes 2..11"),
        Group("cut", ct, cut, "regions inside, across and outside images",
              "4 image shapes, 3 region kinds, fills, axes"),
        Group("stitch", st, stitch, "cut facets reproduce the image",
              "splits, paddings, images, axes"),
        Group("coadd", co, coadd, "overlapping facets add up to the image",
              "1-3 boxes"),
        Group("histories", hist, history, "every sequence of reading, "
              "setting, resetting and normalising masks", "depth %d (3 "
              "regions: %d)" % (hd, hd - 1)),
        Group("ladder", lad, ladder, "larger regions, images and counts",
              "<= %d pixels, <= 17 vertices, <= 8x8 parts, <= 17 facets" %
              lens[-1]),
        Group("far", fr, far, "facets far from the origin",
              "offsets up to 10^6"),
        Group("hull-of-hulls", nest, nested, "hull around boxes", "pairs"),
        Group("bad", [(k,) for k in BADS], bad, "bad requests", "listed"),
    ]
