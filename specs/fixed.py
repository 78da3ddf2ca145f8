"""mypaint-fixed-tiled-surface.c: the tiles of a surface of fixed size"""
from specs.lib import *

TILE = 64 * 64 * 4 * 2
SIZE = 1 << 14      # width and height of a surface: the constructor computes width*height*4 in int
W = 'mypaint_fixed_tiled_surface'
CT = 'MyPaintFixedTiledSurface'


class Fixed:
    def __init__(s, mod):
        s.ex = ex = Exec(mod); s.mod = mod
        s.tw, s.th = var('tiles_width', 'I', 1, SIZE // 64), var('tiles_height', 'I', 1, SIZE // 64)
        s.buf = ex.new_region('tile_buffer', s.tw * s.th * TILE, None); s.buf.align = 16
        s.null = ex.new_region('null_tile', TILE, None); s.null.align = 16
        s.s = Struct(ex, CT, 'surface', dict(tile_buffer=ptr(s.buf), null_tile=ptr(s.null), tile_size=num(TILE), tiles_width=s.tw, tiles_height=s.th))
        s.req = Struct(ex, 'MyPaintTileRequest', 'request')
        s.tx, s.ty = var('tx', 'I', -(1 << 31), (1 << 31) - 1), var('ty', 'I', -(1 << 31), (1 << 31) - 1)
        s.req.set('tx', s.tx); s.req.set('ty', s.ty)
        s.inside = and_(le(0, s.tx), lt(s.tx, s.tw), le(0, s.ty), lt(s.ty, s.th))
        s.rows(s.tx, s.ty)

    def rows(s, tx, ty):
        """products of ranges"""
        s.ex.fact(implies(and_(le(0, ty), lt(ty, s.th)), and_(le(0, s.tw * ty), le(s.tw * ty, s.tw * s.th - s.tw))))
        s.ex.fact(le(s.tw * s.th, (SIZE // 64) ** 2)); s.ex.fact(le(s.tw, s.tw * s.th))

    def tile(s, tx, ty): return (ty * s.tw + tx) * TILE


def blank(ex, reg, g, i): return eq(ex.read(reg, (), 2 * i, 'i16', g), 0)


def task_request(mod):
    out = []
    # start
    s = Fixed(mod); ex = s.ex
    s.buf.const = s.null.const = s.s.reg.const = True
    w = 'tile_request_start'
    _, g = ex.call_fn(fn(mod, w), [s.s.p, s.req.p], TRUE)
    b = s.req.get('buffer', 'ptr', g)
    ex.oblige('a tile inside the surface is its own part of the buffer', 'post', g, implies(s.inside, ptr_eq(b, ptr(s.buf, s.tile(s.tx, s.ty)))), w)
    ex.oblige('the tile lies within the buffer', 'post', g, implies(s.inside, and_(le(0, s.tile(s.tx, s.ty)), le(s.tile(s.tx, s.ty) + TILE, s.tw * s.th * TILE))), w)
    ux, uy = var('ux', 'I', 0, None), var('uy', 'I', 0, None)
    ex.fact(lt(ux, s.tw)); ex.fact(lt(uy, s.th))
    for sgn in (1, -1):
        d = sgn * (uy - s.ty)       # rows apart: at least one row of tiles
        ex.fact(implies(le(1, d), le(s.tw, s.tw * d)))
    a, c = s.tile(s.tx, s.ty), s.tile(ux, uy)
    ex.oblige('two different tiles share no memory', 'post', g, implies(and_(s.inside, or_(ne(ux, s.tx), ne(uy, s.ty))), or_(le(a + TILE, c), le(c + TILE, a))), w)
    ex.oblige('a tile outside the surface is the scratch tile', 'post', g, implies(not_(s.inside), ptr_eq(b, ptr(s.null))), w)
    out.append(ex)
    # end
    s = Fixed(mod); ex = s.ex
    s.buf.const = s.s.reg.const = True
    w = 'tile_request_end'
    i = var('i', 'I', 0, TILE // 2 - 1)
    v0 = ex.read(s.null, (), 2 * i, 'i16')
    s.req.set('buffer', Ptr([(s.inside, s.buf, (), s.tile(s.tx, s.ty)), (not_(s.inside), s.null, (), num(0))]))
    _, g = ex.call_fn(fn(mod, w), [s.s.p, s.req.p], TRUE)
    ex.oblige('the scratch tile is blank again after it was handed out', 'post', g, implies(not_(s.inside), blank(ex, s.null, g, i)), w)
    ex.oblige('a blank scratch tile stays blank', 'post', g, implies(eq(v0, 0), blank(ex, s.null, g, i)), w)
    out.append(ex)
    return out


def vtable(mod, *fields):
    """the name of the function a new surface has in a slot"""
    ex = Exec(mod)
    p, g = ex.call_fn(W + '_new', [num(64), num(64)], TRUE)
    o, ct = 0, CT
    for ct2, f in fields: o += mod.off(ct2, f)
    q = ex.load(p.shift(num(o)), 'ptr', and_(g, not_(is_null(p))), 'vtable')
    return [r.name for c, r, k, o in q.alts if isinstance(r, Func)][0]


def fn(mod, slot): return vtable(mod, (CT, 'parent'), ('MyPaintTiledSurface', slot))


def task_new(mod):
    ex = Exec(mod)
    w = 'mypaint_fixed_tiled_surface_new'
    width, height = var('width', 'I', 1, SIZE), var('height', 'I', 1, SIZE)
    ex.fact(le(1, width * height)); ex.fact(le(width * height, SIZE * SIZE - 1))
    p, g = ex.call_fn(w, [width, height], TRUE)
    ok = not_(is_null(p)); gg = and_(g, ok)
    L = lambda f, ty: ex.load(p.shift(num(mod.off(CT, f))), ty, gg, w)
    tw, th = L('tiles_width', 'i32'), L('tiles_height', 'i32')
    ex.oblige('as many tiles as cover the surface', 'post', gg, and_(eq(tw, idiv(width + 63, num(64))), eq(th, idiv(height + 63, num(64)))), w)
    ex.oblige('the size of a tile in bytes', 'post', gg, eq(L('tile_size', 'i64'), TILE), w)
    ex.oblige('the size is kept', 'post', gg, and_(eq(L('width', 'i32'), width), eq(L('height', 'i32'), height)), w)
    buf, null = L('tile_buffer', 'ptr'), L('null_tile', 'ptr')
    for nm, q, n in (('buffer', buf, tw * th * TILE), ('scratch tile', null, num(TILE))):
        for c, r, k, o in q.alts:
            ex.oblige('the %s has its full size' % nm, 'post', and_(gg, c), and_(eq(o, 0), eq(r.size, n)) if r is not None else FALSE, w)
    i = var('i', 'I', 0, TILE // 2 - 1)
    ex.oblige('the scratch tile is blank', 'post', gg, eq(ex.load(null.shift(2 * i), 'i16', gg, w), 0), w)
    return ex
