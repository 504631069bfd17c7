// Generated by tools/mkshapes.py
use crate::query::*;
use crate::toks::*;
use arche_tape::EcsIds;

pub const BASES: &[&[usize]] = &[&[8, 11, 12, 14, 7, 6, 3, 0, 2], &[12, 10, 11, 13, 7, 8, 5, 2, 15], &[9, 15, 3, 2, 4, 11, 8, 7, 14], &[10, 7, 15, 3, 6, 11, 8, 14, 5], &[11, 4, 0, 10, 3, 2, 7, 8, 5], &[0, 15, 13, 3, 9, 8, 14, 7, 1], &[10, 8, 4, 5, 2, 9, 3, 15, 13], &[12, 11, 5, 15, 0, 3, 7, 13, 10]];

crate::shapes! {
    [(b'E', -1), (b'R', 0)] (EcsIds, &'static D8,) (a, b,) ways;
    [(b'W', 0), (b'E', -1)] (&'static mut D8, EcsIds,) (a, b,) ways;
    [(b'R', 0)] (&'static D8,) (a,) ways;
    [(b'W', 0)] (&'static mut D8,) (a,) ways;
    [(b'E', -1), (b'R', 1)] (EcsIds, &'static P4,) (a, b,) ways;
    [(b'W', 1), (b'E', -1)] (&'static mut P4, EcsIds,) (a, b,) ways;
    [(b'E', -1), (b'R', 2)] (EcsIds, &'static D1,) (a, b,);
    [(b'W', 2), (b'E', -1)] (&'static mut D1, EcsIds,) (a, b,);
    [(b'R', 2)] (&'static D1,) (a,) ways;
    [(b'E', -1), (b'R', 3)] (EcsIds, &'static B3,) (a, b,);
    [(b'W', 3), (b'E', -1)] (&'static mut B3, EcsIds,) (a, b,) ways;
    [(b'W', 3)] (&'static mut B3,) (a,);
    [(b'E', -1), (b'R', 4)] (EcsIds, &'static A16,) (a, b,);
    [(b'W', 4), (b'E', -1)] (&'static mut A16, EcsIds,) (a, b,);
    [(b'R', 4)] (&'static A16,) (a,);
    [(b'E', -1), (b'R', 5)] (EcsIds, &'static Large,) (a, b,) ways;
    [(b'W', 5), (b'E', -1)] (&'static mut Large, EcsIds,) (a, b,);
    [(b'E', -1), (b'R', 6)] (EcsIds, &'static Zd,) (a, b,);
    [(b'W', 6), (b'E', -1)] (&'static mut Zd, EcsIds,) (a, b,);
    [(b'R', 6)] (&'static Zd,) (a,);
    [(b'W', 6)] (&'static mut Zd,) (a,) ways;
    [(b'E', -1), (b'R', 7)] (EcsIds, &'static Zp,) (a, b,);
    [(b'W', 7), (b'E', -1)] (&'static mut Zp, EcsIds,) (a, b,);
    [(b'E', -1), (b'R', 8)] (EcsIds, &'static Za,) (a, b,);
    [(b'W', 8), (b'E', -1)] (&'static mut Za, EcsIds,) (a, b,);
    [(b'R', 8)] (&'static Za,) (a,) ways;
    [(b'E', -1), (b'R', 9)] (EcsIds, &'static Bx,) (a, b,);
    [(b'W', 9), (b'E', -1)] (&'static mut Bx, EcsIds,) (a, b,);
    [(b'W', 9)] (&'static mut Bx,) (a,);
    [(b'E', -1), (b'R', 10)] (EcsIds, &'static A64,) (a, b,);
    [(b'W', 10), (b'E', -1)] (&'static mut A64, EcsIds,) (a, b,) ways;
    [(b'R', 10)] (&'static A64,) (a,);
    [(b'E', -1), (b'R', 11)] (EcsIds, &'static H2,) (a, b,);
    [(b'W', 11), (b'E', -1)] (&'static mut H2, EcsIds,) (a, b,);
    [(b'E', -1), (b'R', 12)] (EcsIds, &'static Q16,) (a, b,);
    [(b'W', 12), (b'E', -1)] (&'static mut Q16, EcsIds,) (a, b,) ways;
    [(b'R', 12)] (&'static Q16,) (a,);
    [(b'W', 12)] (&'static mut Q16,) (a,);
    [(b'E', -1), (b'R', 13)] (EcsIds, &'static Pad,) (a, b,);
    [(b'W', 13), (b'E', -1)] (&'static mut Pad, EcsIds,) (a, b,);
    [(b'E', -1), (b'R', 14)] (EcsIds, &'static B33,) (a, b,) ways;
    [(b'W', 14), (b'E', -1)] (&'static mut B33, EcsIds,) (a, b,);
    [(b'R', 14)] (&'static B33,) (a,);
    [(b'E', -1), (b'R', 15)] (EcsIds, &'static A128,) (a, b,);
    [(b'W', 15), (b'E', -1)] (&'static mut A128, EcsIds,) (a, b,);
    [(b'W', 15)] (&'static mut A128,) (a,) ways;
    [(b'E', -1)] (EcsIds,) (a,);
    [(b'E', -1), (b'E', -1)] (EcsIds, EcsIds,) (a, b,);
    [(b'R', 0), (b'R', 0)] (&'static D8, &'static D8,) (a, b,);
    [(b'R', 6), (b'E', -1), (b'R', 6)] (&'static Zd, EcsIds, &'static Zd,) (a, b, c,) ways;
    [(b'R', 5), (b'R', 1), (b'R', 5)] (&'static Large, &'static P4, &'static Large,) (a, b, c,) ways;
    [(b'E', -1), (b'W', 7)] (EcsIds, &'static mut Zp,) (a, b,);
    [(b'R', 11), (b'E', -1)] (&'static H2, EcsIds,) (a, b,);
    [(b'E', -1), (b'R', 11), (b'R', 2)] (EcsIds, &'static H2, &'static D1,) (a, b, c,) ways;
    [(b'R', 11), (b'E', -1), (b'R', 12)] (&'static H2, EcsIds, &'static Q16,) (a, b, c,);
    [(b'R', 3), (b'W', 0), (b'R', 2), (b'R', 8)] (&'static B3, &'static mut D8, &'static D1, &'static Za,) (a, b, c, d,) ways;
    [(b'W', 8), (b'R', 11), (b'E', -1), (b'R', 7)] (&'static mut Za, &'static H2, EcsIds, &'static Zp,) (a, b, c, d,) ways;
    [(b'W', 11), (b'R', 8), (b'E', -1), (b'W', 2), (b'R', 6)] (&'static mut H2, &'static Za, EcsIds, &'static mut D1, &'static Zd,) (a, b, c, d, e,) ways;
    [(b'W', 7), (b'R', 0), (b'W', 8), (b'E', -1), (b'R', 11)] (&'static mut Zp, &'static D8, &'static mut Za, EcsIds, &'static H2,) (a, b, c, d, e,) ways;
    [(b'E', -1), (b'R', 0), (b'R', 12), (b'R', 2), (b'W', 6), (b'R', 3)] (EcsIds, &'static D8, &'static Q16, &'static D1, &'static mut Zd, &'static B3,) (a, b, c, d, e, f,) ways;
    [(b'W', 6), (b'R', 8), (b'E', -1), (b'W', 0), (b'R', 14), (b'R', 11)] (&'static mut Zd, &'static Za, EcsIds, &'static mut D8, &'static B33, &'static H2,) (a, b, c, d, e, f,) ways;
    [(b'R', 2), (b'R', 12), (b'W', 8), (b'W', 11), (b'W', 14), (b'E', -1), (b'W', 3)] (&'static D1, &'static Q16, &'static mut Za, &'static mut H2, &'static mut B33, EcsIds, &'static mut B3,) (a, b, c, d, e, f, g,) ways;
    [(b'R', 7), (b'R', 11), (b'E', -1), (b'W', 14), (b'R', 12), (b'R', 2), (b'R', 3)] (&'static Zp, &'static H2, EcsIds, &'static mut B33, &'static Q16, &'static D1, &'static B3,) (a, b, c, d, e, f, g,) ways;
    [(b'W', 2), (b'R', 12), (b'W', 6), (b'R', 3), (b'E', -1), (b'R', 8), (b'R', 0), (b'W', 11)] (&'static mut D1, &'static Q16, &'static mut Zd, &'static B3, EcsIds, &'static Za, &'static D8, &'static mut H2,) (a, b, c, d, e, f, g, h,) ways;
    [(b'R', 0), (b'E', -1), (b'R', 11), (b'R', 3), (b'W', 2), (b'R', 8), (b'R', 7), (b'R', 14)] (&'static D8, EcsIds, &'static H2, &'static B3, &'static mut D1, &'static Za, &'static Zp, &'static B33,) (a, b, c, d, e, f, g, h,) ways;
    [(b'W', 12), (b'W', 7), (b'W', 8), (b'W', 14), (b'R', 3), (b'W', 0), (b'E', -1), (b'W', 2), (b'R', 6)] (&'static mut Q16, &'static mut Zp, &'static mut Za, &'static mut B33, &'static B3, &'static mut D8, EcsIds, &'static mut D1, &'static Zd,) (a, b, c, d, e, f, g, h, i,) ways;
    [(b'R', 12), (b'E', -1), (b'R', 14), (b'R', 6), (b'R', 7), (b'R', 3), (b'R', 8), (b'R', 2), (b'R', 11)] (&'static Q16, EcsIds, &'static B33, &'static Zd, &'static Zp, &'static B3, &'static Za, &'static D1, &'static H2,) (a, b, c, d, e, f, g, h, i,) ways;
    [(b'R', 14), (b'W', 2), (b'E', -1), (b'R', 6), (b'W', 12), (b'R', 11), (b'W', 3), (b'W', 7), (b'R', 0), (b'R', 8)] (&'static B33, &'static mut D1, EcsIds, &'static Zd, &'static mut Q16, &'static H2, &'static mut B3, &'static mut Zp, &'static D8, &'static Za,) (a, b, c, d, e, f, g, h, i, j,) ways;
    [(b'R', 8), (b'E', -1), (b'W', 6), (b'W', 3), (b'W', 14), (b'R', 11), (b'R', 12), (b'R', 0), (b'R', 2), (b'W', 7)] (&'static Za, EcsIds, &'static mut Zd, &'static mut B3, &'static mut B33, &'static H2, &'static Q16, &'static D8, &'static D1, &'static mut Zp,) (a, b, c, d, e, f, g, h, i, j,) ways;
    [(b'R', 12), (b'E', -1)] (&'static Q16, EcsIds,) (a, b,);
    [(b'E', -1), (b'W', 8)] (EcsIds, &'static mut Za,) (a, b,) ways;
    [(b'R', 2), (b'R', 10), (b'R', 7)] (&'static D1, &'static A64, &'static Zp,) (a, b, c,);
    [(b'W', 8), (b'R', 7), (b'W', 11)] (&'static mut Za, &'static Zp, &'static mut H2,) (a, b, c,);
    [(b'E', -1), (b'W', 8), (b'R', 12), (b'R', 5)] (EcsIds, &'static mut Za, &'static Q16, &'static Large,) (a, b, c, d,) ways;
    [(b'R', 2), (b'W', 5), (b'R', 15), (b'E', -1)] (&'static D1, &'static mut Large, &'static A128, EcsIds,) (a, b, c, d,);
    [(b'E', -1), (b'R', 7), (b'R', 5), (b'R', 13), (b'R', 2)] (EcsIds, &'static Zp, &'static Large, &'static Pad, &'static D1,) (a, b, c, d, e,) ways;
    [(b'R', 12), (b'E', -1), (b'R', 10), (b'R', 2), (b'R', 5)] (&'static Q16, EcsIds, &'static A64, &'static D1, &'static Large,) (a, b, c, d, e,);
    [(b'E', -1), (b'W', 15), (b'W', 8), (b'R', 11), (b'R', 7), (b'R', 2)] (EcsIds, &'static mut A128, &'static mut Za, &'static H2, &'static Zp, &'static D1,) (a, b, c, d, e, f,) ways;
    [(b'R', 15), (b'R', 2), (b'R', 10), (b'R', 5), (b'R', 8), (b'W', 11)] (&'static A128, &'static D1, &'static A64, &'static Large, &'static Za, &'static mut H2,) (a, b, c, d, e, f,);
    [(b'W', 7), (b'R', 2), (b'W', 10), (b'R', 12), (b'R', 8), (b'R', 5), (b'W', 15)] (&'static mut Zp, &'static D1, &'static mut A64, &'static Q16, &'static Za, &'static Large, &'static mut A128,) (a, b, c, d, e, f, g,) ways;
    [(b'R', 7), (b'R', 12), (b'R', 13), (b'R', 2), (b'R', 11), (b'R', 15), (b'E', -1)] (&'static Zp, &'static Q16, &'static Pad, &'static D1, &'static H2, &'static A128, EcsIds,) (a, b, c, d, e, f, g,) ways;
    [(b'W', 7), (b'R', 5), (b'R', 11), (b'R', 13), (b'R', 15), (b'R', 2), (b'W', 12), (b'R', 10)] (&'static mut Zp, &'static Large, &'static H2, &'static Pad, &'static A128, &'static D1, &'static mut Q16, &'static A64,) (a, b, c, d, e, f, g, h,) ways;
    [(b'R', 15), (b'R', 10), (b'W', 8), (b'R', 12), (b'W', 11), (b'R', 5), (b'W', 2), (b'R', 7)] (&'static A128, &'static A64, &'static mut Za, &'static Q16, &'static mut H2, &'static Large, &'static mut D1, &'static Zp,) (a, b, c, d, e, f, g, h,);
    [(b'W', 12), (b'R', 13), (b'R', 2), (b'R', 10), (b'W', 11), (b'R', 7), (b'R', 5), (b'R', 15), (b'R', 8)] (&'static mut Q16, &'static Pad, &'static D1, &'static A64, &'static mut H2, &'static Zp, &'static Large, &'static A128, &'static Za,) (a, b, c, d, e, f, g, h, i,) ways;
    [(b'R', 2), (b'R', 10), (b'R', 15), (b'R', 5), (b'R', 7), (b'E', -1), (b'W', 11), (b'W', 12), (b'W', 13)] (&'static D1, &'static A64, &'static A128, &'static Large, &'static Zp, EcsIds, &'static mut H2, &'static mut Q16, &'static mut Pad,) (a, b, c, d, e, f, g, h, i,);
    [(b'R', 2), (b'W', 15), (b'W', 12), (b'E', -1), (b'W', 11), (b'W', 7), (b'W', 5), (b'W', 10), (b'R', 13), (b'R', 8)] (&'static D1, &'static mut A128, &'static mut Q16, EcsIds, &'static mut H2, &'static mut Zp, &'static mut Large, &'static mut A64, &'static Pad, &'static Za,) (a, b, c, d, e, f, g, h, i, j,) ways;
    [(b'R', 7), (b'R', 11), (b'R', 15), (b'W', 12), (b'E', -1), (b'R', 5), (b'R', 8), (b'R', 2), (b'R', 13), (b'R', 10)] (&'static Zp, &'static H2, &'static A128, &'static mut Q16, EcsIds, &'static Large, &'static Za, &'static D1, &'static Pad, &'static A64,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'R', 2), (b'E', -1)] (&'static D1, EcsIds,) (a, b,);
    [(b'W', 3), (b'W', 7)] (&'static mut B3, &'static mut Zp,) (a, b,);
    [(b'R', 15), (b'R', 9), (b'E', -1)] (&'static A128, &'static Bx, EcsIds,) (a, b, c,);
    [(b'W', 14), (b'E', -1), (b'R', 2)] (&'static mut B33, EcsIds, &'static D1,) (a, b, c,) ways;
    [(b'E', -1), (b'R', 2), (b'R', 14), (b'R', 11)] (EcsIds, &'static D1, &'static B33, &'static H2,) (a, b, c, d,);
    [(b'W', 14), (b'W', 11), (b'W', 15), (b'R', 3)] (&'static mut B33, &'static mut H2, &'static mut A128, &'static B3,) (a, b, c, d,);
    [(b'W', 2), (b'W', 14), (b'W', 7), (b'E', -1), (b'R', 3)] (&'static mut D1, &'static mut B33, &'static mut Zp, EcsIds, &'static B3,) (a, b, c, d, e,);
    [(b'R', 11), (b'E', -1), (b'W', 3), (b'R', 14), (b'R', 7)] (&'static H2, EcsIds, &'static mut B3, &'static B33, &'static Zp,) (a, b, c, d, e,);
    [(b'W', 15), (b'E', -1), (b'R', 9), (b'R', 14), (b'R', 11), (b'R', 8)] (&'static mut A128, EcsIds, &'static Bx, &'static B33, &'static H2, &'static Za,) (a, b, c, d, e, f,) ways;
    [(b'R', 3), (b'R', 8), (b'R', 9), (b'R', 2), (b'E', -1), (b'R', 15)] (&'static B3, &'static Za, &'static Bx, &'static D1, EcsIds, &'static A128,) (a, b, c, d, e, f,);
    [(b'R', 15), (b'E', -1), (b'R', 4), (b'R', 11), (b'R', 8), (b'W', 14), (b'R', 7)] (&'static A128, EcsIds, &'static A16, &'static H2, &'static Za, &'static mut B33, &'static Zp,) (a, b, c, d, e, f, g,);
    [(b'R', 8), (b'W', 11), (b'W', 9), (b'R', 15), (b'E', -1), (b'R', 3), (b'R', 4)] (&'static Za, &'static mut H2, &'static mut Bx, &'static A128, EcsIds, &'static B3, &'static A16,) (a, b, c, d, e, f, g,);
    [(b'R', 7), (b'E', -1), (b'R', 3), (b'R', 9), (b'R', 15), (b'W', 14), (b'W', 8), (b'R', 11)] (&'static Zp, EcsIds, &'static B3, &'static Bx, &'static A128, &'static mut B33, &'static mut Za, &'static H2,) (a, b, c, d, e, f, g, h,);
    [(b'E', -1), (b'R', 3), (b'R', 2), (b'R', 8), (b'R', 4), (b'R', 9), (b'W', 7), (b'R', 15)] (EcsIds, &'static B3, &'static D1, &'static Za, &'static A16, &'static Bx, &'static mut Zp, &'static A128,) (a, b, c, d, e, f, g, h,) ways;
    [(b'W', 9), (b'W', 2), (b'R', 15), (b'R', 14), (b'R', 11), (b'R', 8), (b'R', 7), (b'R', 3), (b'E', -1)] (&'static mut Bx, &'static mut D1, &'static A128, &'static B33, &'static H2, &'static Za, &'static Zp, &'static B3, EcsIds,) (a, b, c, d, e, f, g, h, i,);
    [(b'R', 11), (b'W', 7), (b'R', 2), (b'R', 3), (b'R', 9), (b'E', -1), (b'W', 15), (b'R', 8), (b'W', 4)] (&'static H2, &'static mut Zp, &'static D1, &'static B3, &'static Bx, EcsIds, &'static mut A128, &'static Za, &'static mut A16,) (a, b, c, d, e, f, g, h, i,);
    [(b'W', 8), (b'R', 2), (b'W', 11), (b'W', 14), (b'R', 15), (b'R', 3), (b'E', -1), (b'W', 9), (b'W', 7), (b'R', 4)] (&'static mut Za, &'static D1, &'static mut H2, &'static mut B33, &'static A128, &'static B3, EcsIds, &'static mut Bx, &'static mut Zp, &'static A16,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'R', 7), (b'R', 9), (b'W', 4), (b'W', 14), (b'R', 11), (b'R', 2), (b'W', 3), (b'R', 15), (b'E', -1), (b'W', 8)] (&'static Zp, &'static Bx, &'static mut A16, &'static mut B33, &'static H2, &'static D1, &'static mut B3, &'static A128, EcsIds, &'static mut Za,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'R', 14), (b'R', 7)] (&'static B33, &'static Zp,) (a, b,) ways;
    [(b'R', 7), (b'E', -1)] (&'static Zp, EcsIds,) (a, b,);
    [(b'W', 15), (b'R', 6), (b'R', 8)] (&'static mut A128, &'static Zd, &'static Za,) (a, b, c,);
    [(b'R', 15), (b'W', 8), (b'R', 5)] (&'static A128, &'static mut Za, &'static Large,) (a, b, c,);
    [(b'R', 3), (b'E', -1), (b'R', 10), (b'R', 8)] (&'static B3, EcsIds, &'static A64, &'static Za,) (a, b, c, d,);
    [(b'R', 5), (b'R', 11), (b'W', 14), (b'R', 6)] (&'static Large, &'static H2, &'static mut B33, &'static Zd,) (a, b, c, d,) ways;
    [(b'R', 14), (b'R', 7), (b'E', -1), (b'R', 15), (b'W', 10)] (&'static B33, &'static Zp, EcsIds, &'static A128, &'static mut A64,) (a, b, c, d, e,);
    [(b'R', 14), (b'E', -1), (b'R', 3), (b'R', 10), (b'R', 11)] (&'static B33, EcsIds, &'static B3, &'static A64, &'static H2,) (a, b, c, d, e,);
    [(b'R', 11), (b'W', 10), (b'R', 5), (b'R', 15), (b'W', 14), (b'E', -1)] (&'static H2, &'static mut A64, &'static Large, &'static A128, &'static mut B33, EcsIds,) (a, b, c, d, e, f,);
    [(b'R', 10), (b'R', 15), (b'W', 11), (b'R', 8), (b'R', 7), (b'R', 5)] (&'static A64, &'static A128, &'static mut H2, &'static Za, &'static Zp, &'static Large,) (a, b, c, d, e, f,);
    [(b'E', -1), (b'R', 10), (b'W', 14), (b'W', 5), (b'W', 11), (b'R', 7), (b'R', 6)] (EcsIds, &'static A64, &'static mut B33, &'static mut Large, &'static mut H2, &'static Zp, &'static Zd,) (a, b, c, d, e, f, g,) ways;
    [(b'R', 15), (b'R', 10), (b'R', 3), (b'R', 11), (b'W', 8), (b'E', -1), (b'W', 5)] (&'static A128, &'static A64, &'static B3, &'static H2, &'static mut Za, EcsIds, &'static mut Large,) (a, b, c, d, e, f, g,);
    [(b'R', 10), (b'W', 6), (b'W', 15), (b'R', 5), (b'W', 8), (b'R', 3), (b'R', 14), (b'W', 7)] (&'static A64, &'static mut Zd, &'static mut A128, &'static Large, &'static mut Za, &'static B3, &'static B33, &'static mut Zp,) (a, b, c, d, e, f, g, h,);
    [(b'W', 7), (b'R', 15), (b'W', 14), (b'R', 10), (b'E', -1), (b'R', 8), (b'R', 3), (b'R', 6)] (&'static mut Zp, &'static A128, &'static mut B33, &'static A64, EcsIds, &'static Za, &'static B3, &'static Zd,) (a, b, c, d, e, f, g, h,);
    [(b'R', 15), (b'R', 14), (b'R', 5), (b'R', 3), (b'E', -1), (b'R', 6), (b'R', 8), (b'W', 7), (b'W', 11)] (&'static A128, &'static B33, &'static Large, &'static B3, EcsIds, &'static Zd, &'static Za, &'static mut Zp, &'static mut H2,) (a, b, c, d, e, f, g, h, i,);
    [(b'W', 8), (b'R', 3), (b'R', 14), (b'W', 5), (b'R', 15), (b'W', 6), (b'R', 7), (b'E', -1), (b'R', 11)] (&'static mut Za, &'static B3, &'static B33, &'static mut Large, &'static A128, &'static mut Zd, &'static Zp, EcsIds, &'static H2,) (a, b, c, d, e, f, g, h, i,) ways;
    [(b'R', 14), (b'R', 5), (b'E', -1), (b'W', 15), (b'W', 8), (b'W', 11), (b'R', 10), (b'R', 3), (b'W', 7), (b'R', 6)] (&'static B33, &'static Large, EcsIds, &'static mut A128, &'static mut Za, &'static mut H2, &'static A64, &'static B3, &'static mut Zp, &'static Zd,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'R', 15), (b'W', 5), (b'R', 6), (b'R', 10), (b'R', 11), (b'E', -1), (b'R', 3), (b'W', 14), (b'R', 7), (b'W', 8)] (&'static A128, &'static mut Large, &'static Zd, &'static A64, &'static H2, EcsIds, &'static B3, &'static mut B33, &'static Zp, &'static mut Za,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'W', 5), (b'R', 0)] (&'static mut Large, &'static D8,) (a, b,);
    [(b'R', 3), (b'W', 2)] (&'static B3, &'static mut D1,) (a, b,);
    [(b'W', 11), (b'E', -1), (b'R', 4)] (&'static mut H2, EcsIds, &'static A16,) (a, b, c,) ways;
    [(b'R', 0), (b'W', 11), (b'R', 3)] (&'static D8, &'static mut H2, &'static B3,) (a, b, c,);
    [(b'R', 7), (b'R', 11), (b'E', -1), (b'R', 0)] (&'static Zp, &'static H2, EcsIds, &'static D8,) (a, b, c, d,);
    [(b'R', 10), (b'R', 2), (b'W', 4), (b'E', -1)] (&'static A64, &'static D1, &'static mut A16, EcsIds,) (a, b, c, d,);
    [(b'R', 3), (b'R', 7), (b'R', 5), (b'R', 10), (b'E', -1)] (&'static B3, &'static Zp, &'static Large, &'static A64, EcsIds,) (a, b, c, d, e,);
    [(b'R', 2), (b'R', 0), (b'R', 5), (b'E', -1), (b'W', 8)] (&'static D1, &'static D8, &'static Large, EcsIds, &'static mut Za,) (a, b, c, d, e,) ways;
    [(b'W', 10), (b'E', -1), (b'W', 8), (b'W', 5), (b'R', 7), (b'W', 0)] (&'static mut A64, EcsIds, &'static mut Za, &'static mut Large, &'static Zp, &'static mut D8,) (a, b, c, d, e, f,);
    [(b'R', 0), (b'W', 11), (b'R', 10), (b'W', 8), (b'R', 2), (b'R', 4)] (&'static D8, &'static mut H2, &'static A64, &'static mut Za, &'static D1, &'static A16,) (a, b, c, d, e, f,);
    [(b'R', 3), (b'W', 8), (b'E', -1), (b'R', 2), (b'R', 11), (b'W', 10), (b'R', 5)] (&'static B3, &'static mut Za, EcsIds, &'static D1, &'static H2, &'static mut A64, &'static Large,) (a, b, c, d, e, f, g,);
    [(b'E', -1), (b'R', 3), (b'R', 7), (b'R', 0), (b'R', 10), (b'R', 5), (b'R', 4)] (EcsIds, &'static B3, &'static Zp, &'static D8, &'static A64, &'static Large, &'static A16,) (a, b, c, d, e, f, g,);
    [(b'R', 0), (b'W', 4), (b'R', 5), (b'R', 10), (b'R', 3), (b'W', 7), (b'R', 11), (b'R', 2)] (&'static D8, &'static mut A16, &'static Large, &'static A64, &'static B3, &'static mut Zp, &'static H2, &'static D1,) (a, b, c, d, e, f, g, h,) ways;
    [(b'W', 3), (b'W', 2), (b'W', 11), (b'R', 8), (b'W', 4), (b'R', 0), (b'W', 10), (b'E', -1)] (&'static mut B3, &'static mut D1, &'static mut H2, &'static Za, &'static mut A16, &'static D8, &'static mut A64, EcsIds,) (a, b, c, d, e, f, g, h,);
    [(b'R', 7), (b'W', 5), (b'W', 11), (b'R', 4), (b'W', 10), (b'W', 8), (b'R', 3), (b'W', 0), (b'E', -1)] (&'static Zp, &'static mut Large, &'static mut H2, &'static A16, &'static mut A64, &'static mut Za, &'static B3, &'static mut D8, EcsIds,) (a, b, c, d, e, f, g, h, i,);
    [(b'E', -1), (b'R', 10), (b'W', 8), (b'R', 11), (b'R', 3), (b'R', 4), (b'W', 7), (b'R', 2), (b'R', 5)] (EcsIds, &'static A64, &'static mut Za, &'static H2, &'static B3, &'static A16, &'static mut Zp, &'static D1, &'static Large,) (a, b, c, d, e, f, g, h, i,);
    [(b'R', 2), (b'E', -1), (b'W', 8), (b'W', 0), (b'W', 4), (b'R', 10), (b'R', 11), (b'W', 5), (b'W', 7), (b'W', 3)] (&'static D1, EcsIds, &'static mut Za, &'static mut D8, &'static mut A16, &'static A64, &'static H2, &'static mut Large, &'static mut Zp, &'static mut B3,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'W', 3), (b'W', 10), (b'R', 4), (b'W', 0), (b'R', 11), (b'R', 5), (b'E', -1), (b'W', 8), (b'R', 2), (b'R', 7)] (&'static mut B3, &'static mut A64, &'static A16, &'static mut D8, &'static H2, &'static Large, EcsIds, &'static mut Za, &'static D1, &'static Zp,) (a, b, c, d, e, f, g, h, i, j,) ways;
    [(b'R', 1), (b'R', 8)] (&'static P4, &'static Za,) (a, b,);
    [(b'R', 15), (b'E', -1)] (&'static A128, EcsIds,) (a, b,);
    [(b'R', 9), (b'R', 14), (b'E', -1)] (&'static Bx, &'static B33, EcsIds,) (a, b, c,);
    [(b'W', 3), (b'E', -1), (b'R', 1)] (&'static mut B3, EcsIds, &'static P4,) (a, b, c,);
    [(b'E', -1), (b'W', 0), (b'W', 3), (b'R', 7)] (EcsIds, &'static mut D8, &'static mut B3, &'static Zp,) (a, b, c, d,) ways;
    [(b'R', 3), (b'R', 1), (b'R', 15), (b'E', -1)] (&'static B3, &'static P4, &'static A128, EcsIds,) (a, b, c, d,);
    [(b'R', 8), (b'R', 3), (b'R', 14), (b'E', -1), (b'R', 0)] (&'static Za, &'static B3, &'static B33, EcsIds, &'static D8,) (a, b, c, d, e,);
    [(b'R', 8), (b'R', 7), (b'W', 14), (b'E', -1), (b'R', 9)] (&'static Za, &'static Zp, &'static mut B33, EcsIds, &'static Bx,) (a, b, c, d, e,);
    [(b'W', 8), (b'R', 15), (b'R', 14), (b'R', 13), (b'R', 9), (b'R', 7)] (&'static mut Za, &'static A128, &'static B33, &'static Pad, &'static Bx, &'static Zp,) (a, b, c, d, e, f,);
    [(b'R', 1), (b'W', 3), (b'W', 8), (b'R', 15), (b'R', 9), (b'E', -1)] (&'static P4, &'static mut B3, &'static mut Za, &'static A128, &'static Bx, EcsIds,) (a, b, c, d, e, f,) ways;
    [(b'R', 13), (b'W', 14), (b'R', 3), (b'R', 8), (b'E', -1), (b'W', 0), (b'R', 1)] (&'static Pad, &'static mut B33, &'static B3, &'static Za, EcsIds, &'static mut D8, &'static P4,) (a, b, c, d, e, f, g,);
    [(b'W', 8), (b'E', -1), (b'R', 9), (b'R', 0), (b'R', 7), (b'W', 13), (b'R', 14)] (&'static mut Za, EcsIds, &'static Bx, &'static D8, &'static Zp, &'static mut Pad, &'static B33,) (a, b, c, d, e, f, g,);
    [(b'R', 1), (b'E', -1), (b'R', 13), (b'R', 0), (b'W', 9), (b'R', 15), (b'W', 7), (b'R', 8)] (&'static P4, EcsIds, &'static Pad, &'static D8, &'static mut Bx, &'static A128, &'static mut Zp, &'static Za,) (a, b, c, d, e, f, g, h,);
    [(b'R', 7), (b'W', 13), (b'W', 3), (b'R', 14), (b'R', 8), (b'R', 15), (b'R', 9), (b'W', 0)] (&'static Zp, &'static mut Pad, &'static mut B3, &'static B33, &'static Za, &'static A128, &'static Bx, &'static mut D8,) (a, b, c, d, e, f, g, h,);
    [(b'R', 1), (b'R', 3), (b'R', 14), (b'W', 13), (b'R', 15), (b'R', 0), (b'R', 7), (b'E', -1), (b'R', 9)] (&'static P4, &'static B3, &'static B33, &'static mut Pad, &'static A128, &'static D8, &'static Zp, EcsIds, &'static Bx,) (a, b, c, d, e, f, g, h, i,) ways;
    [(b'R', 13), (b'R', 8), (b'R', 0), (b'E', -1), (b'R', 14), (b'R', 9), (b'R', 7), (b'W', 3), (b'R', 1)] (&'static Pad, &'static Za, &'static D8, EcsIds, &'static B33, &'static Bx, &'static Zp, &'static mut B3, &'static P4,) (a, b, c, d, e, f, g, h, i,);
    [(b'R', 1), (b'R', 14), (b'W', 3), (b'R', 0), (b'R', 7), (b'W', 8), (b'W', 13), (b'E', -1), (b'R', 9), (b'R', 15)] (&'static P4, &'static B33, &'static mut B3, &'static D8, &'static Zp, &'static mut Za, &'static mut Pad, EcsIds, &'static Bx, &'static A128,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'W', 9), (b'W', 3), (b'W', 7), (b'R', 14), (b'W', 8), (b'E', -1), (b'W', 0), (b'W', 15), (b'R', 13), (b'R', 1)] (&'static mut Bx, &'static mut B3, &'static mut Zp, &'static B33, &'static mut Za, EcsIds, &'static mut D8, &'static mut A128, &'static Pad, &'static P4,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'W', 3), (b'R', 2)] (&'static mut B3, &'static D1,) (a, b,);
    [(b'R', 5), (b'R', 2)] (&'static Large, &'static D1,) (a, b,) ways;
    [(b'E', -1), (b'R', 15), (b'R', 5)] (EcsIds, &'static A128, &'static Large,) (a, b, c,);
    [(b'R', 13), (b'E', -1), (b'R', 15)] (&'static Pad, EcsIds, &'static A128,) (a, b, c,);
    [(b'R', 9), (b'E', -1), (b'R', 4), (b'W', 15)] (&'static Bx, EcsIds, &'static A16, &'static mut A128,) (a, b, c, d,);
    [(b'E', -1), (b'R', 15), (b'W', 5), (b'R', 4)] (EcsIds, &'static A128, &'static mut Large, &'static A16,) (a, b, c, d,);
    [(b'E', -1), (b'W', 4), (b'R', 3), (b'R', 8), (b'R', 13)] (EcsIds, &'static mut A16, &'static B3, &'static Za, &'static Pad,) (a, b, c, d, e,) ways;
    [(b'W', 8), (b'R', 4), (b'W', 13), (b'E', -1), (b'R', 3)] (&'static mut Za, &'static A16, &'static mut Pad, EcsIds, &'static B3,) (a, b, c, d, e,);
    [(b'E', -1), (b'W', 4), (b'W', 3), (b'R', 10), (b'R', 9), (b'W', 5)] (EcsIds, &'static mut A16, &'static mut B3, &'static A64, &'static Bx, &'static mut Large,) (a, b, c, d, e, f,);
    [(b'R', 13), (b'E', -1), (b'W', 3), (b'R', 8), (b'W', 9), (b'R', 5)] (&'static Pad, EcsIds, &'static mut B3, &'static Za, &'static mut Bx, &'static Large,) (a, b, c, d, e, f,);
    [(b'R', 5), (b'E', -1), (b'W', 4), (b'R', 9), (b'R', 10), (b'R', 13), (b'R', 15)] (&'static Large, EcsIds, &'static mut A16, &'static Bx, &'static A64, &'static Pad, &'static A128,) (a, b, c, d, e, f, g,);
    [(b'R', 13), (b'R', 4), (b'R', 2), (b'R', 15), (b'E', -1), (b'R', 3), (b'R', 9)] (&'static Pad, &'static A16, &'static D1, &'static A128, EcsIds, &'static B3, &'static Bx,) (a, b, c, d, e, f, g,) ways;
    [(b'W', 8), (b'R', 2), (b'R', 3), (b'R', 13), (b'R', 9), (b'R', 5), (b'E', -1), (b'W', 10)] (&'static mut Za, &'static D1, &'static B3, &'static Pad, &'static Bx, &'static Large, EcsIds, &'static mut A64,) (a, b, c, d, e, f, g, h,);
    [(b'R', 4), (b'W', 5), (b'E', -1), (b'R', 2), (b'W', 13), (b'R', 9), (b'R', 15), (b'W', 10)] (&'static A16, &'static mut Large, EcsIds, &'static D1, &'static mut Pad, &'static Bx, &'static A128, &'static mut A64,) (a, b, c, d, e, f, g, h,);
    [(b'R', 2), (b'W', 5), (b'R', 8), (b'W', 9), (b'W', 3), (b'R', 15), (b'R', 10), (b'R', 13), (b'W', 4)] (&'static D1, &'static mut Large, &'static Za, &'static mut Bx, &'static mut B3, &'static A128, &'static A64, &'static Pad, &'static mut A16,) (a, b, c, d, e, f, g, h, i,);
    [(b'R', 9), (b'R', 4), (b'R', 8), (b'W', 3), (b'W', 2), (b'R', 10), (b'R', 5), (b'R', 13), (b'W', 15)] (&'static Bx, &'static A16, &'static Za, &'static mut B3, &'static mut D1, &'static A64, &'static Large, &'static Pad, &'static mut A128,) (a, b, c, d, e, f, g, h, i,);
    [(b'W', 8), (b'E', -1), (b'W', 9), (b'R', 5), (b'R', 10), (b'R', 15), (b'R', 13), (b'W', 2), (b'R', 3), (b'R', 4)] (&'static mut Za, EcsIds, &'static mut Bx, &'static Large, &'static A64, &'static A128, &'static Pad, &'static mut D1, &'static B3, &'static A16,) (a, b, c, d, e, f, g, h, i, j,) ways;
    [(b'W', 3), (b'R', 15), (b'R', 5), (b'R', 10), (b'W', 13), (b'R', 8), (b'R', 2), (b'R', 4), (b'W', 9), (b'E', -1)] (&'static mut B3, &'static A128, &'static Large, &'static A64, &'static mut Pad, &'static Za, &'static D1, &'static A16, &'static mut Bx, EcsIds,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'R', 0), (b'E', -1)] (&'static D8, EcsIds,) (a, b,);
    [(b'E', -1), (b'W', 5)] (EcsIds, &'static mut Large,) (a, b,);
    [(b'E', -1), (b'R', 5), (b'W', 10)] (EcsIds, &'static Large, &'static mut A64,) (a, b, c,);
    [(b'E', -1), (b'R', 5), (b'R', 3)] (EcsIds, &'static Large, &'static B3,) (a, b, c,) ways;
    [(b'R', 3), (b'R', 0), (b'W', 11), (b'R', 7)] (&'static B3, &'static D8, &'static mut H2, &'static Zp,) (a, b, c, d,);
    [(b'R', 12), (b'R', 11), (b'W', 10), (b'R', 13)] (&'static Q16, &'static H2, &'static mut A64, &'static Pad,) (a, b, c, d,);
    [(b'R', 11), (b'W', 13), (b'W', 7), (b'W', 3), (b'W', 15)] (&'static H2, &'static mut Pad, &'static mut Zp, &'static mut B3, &'static mut A128,) (a, b, c, d, e,);
    [(b'E', -1), (b'R', 13), (b'W', 12), (b'R', 11), (b'R', 5)] (EcsIds, &'static Pad, &'static mut Q16, &'static H2, &'static Large,) (a, b, c, d, e,);
    [(b'R', 0), (b'W', 11), (b'E', -1), (b'R', 7), (b'R', 10), (b'R', 3)] (&'static D8, &'static mut H2, EcsIds, &'static Zp, &'static A64, &'static B3,) (a, b, c, d, e, f,) ways;
    [(b'E', -1), (b'W', 12), (b'W', 5), (b'R', 11), (b'R', 13), (b'R', 7)] (EcsIds, &'static mut Q16, &'static mut Large, &'static H2, &'static Pad, &'static Zp,) (a, b, c, d, e, f,);
    [(b'W', 12), (b'E', -1), (b'W', 5), (b'W', 15), (b'R', 11), (b'R', 10), (b'R', 7)] (&'static mut Q16, EcsIds, &'static mut Large, &'static mut A128, &'static H2, &'static A64, &'static Zp,) (a, b, c, d, e, f, g,);
    [(b'W', 7), (b'R', 0), (b'R', 11), (b'W', 3), (b'W', 10), (b'W', 13), (b'R', 5)] (&'static mut Zp, &'static D8, &'static H2, &'static mut B3, &'static mut A64, &'static mut Pad, &'static Large,) (a, b, c, d, e, f, g,);
    [(b'R', 10), (b'R', 0), (b'R', 3), (b'R', 12), (b'R', 5), (b'W', 11), (b'R', 15), (b'R', 7)] (&'static A64, &'static D8, &'static B3, &'static Q16, &'static Large, &'static mut H2, &'static A128, &'static Zp,) (a, b, c, d, e, f, g, h,);
    [(b'E', -1), (b'W', 13), (b'R', 15), (b'R', 3), (b'R', 7), (b'R', 11), (b'R', 5), (b'R', 12)] (EcsIds, &'static mut Pad, &'static A128, &'static B3, &'static Zp, &'static H2, &'static Large, &'static Q16,) (a, b, c, d, e, f, g, h,) ways;
    [(b'W', 0), (b'R', 15), (b'W', 3), (b'W', 11), (b'R', 10), (b'R', 5), (b'R', 12), (b'R', 7), (b'W', 13)] (&'static mut D8, &'static A128, &'static mut B3, &'static mut H2, &'static A64, &'static Large, &'static Q16, &'static Zp, &'static mut Pad,) (a, b, c, d, e, f, g, h, i,);
    [(b'R', 13), (b'R', 0), (b'W', 5), (b'R', 10), (b'R', 12), (b'R', 3), (b'R', 7), (b'R', 15), (b'R', 11)] (&'static Pad, &'static D8, &'static mut Large, &'static A64, &'static Q16, &'static B3, &'static Zp, &'static A128, &'static H2,) (a, b, c, d, e, f, g, h, i,);
    [(b'R', 15), (b'R', 7), (b'R', 13), (b'R', 3), (b'R', 12), (b'R', 11), (b'R', 0), (b'E', -1), (b'W', 10), (b'R', 5)] (&'static A128, &'static Zp, &'static Pad, &'static B3, &'static Q16, &'static H2, &'static D8, EcsIds, &'static mut A64, &'static Large,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'R', 13), (b'W', 0), (b'R', 5), (b'R', 15), (b'R', 11), (b'R', 3), (b'R', 12), (b'R', 10), (b'R', 7), (b'E', -1)] (&'static Pad, &'static mut D8, &'static Large, &'static A128, &'static H2, &'static B3, &'static Q16, &'static A64, &'static Zp, EcsIds,) (a, b, c, d, e, f, g, h, i, j,);
    [(b'R', 6), (b'E', -1)] (&'static Zd, EcsIds,) (a, b,) ways;
    [(b'R', 0), (b'R', 6)] (&'static D8, &'static Zd,) (a, b,);
    [(b'R', 0), (b'E', -1), (b'R', 6)] (&'static D8, EcsIds, &'static Zd,) (a, b, c,);
    [(b'R', 6), (b'R', 0)] (&'static Zd, &'static D8,) (a, b,);
    [(b'R', 6), (b'E', -1), (b'R', 0)] (&'static Zd, EcsIds, &'static D8,) (a, b, c,);
    [(b'R', 0), (b'W', 6)] (&'static D8, &'static mut Zd,) (a, b,) ways;
    [(b'R', 0), (b'E', -1), (b'W', 6)] (&'static D8, EcsIds, &'static mut Zd,) (a, b, c,);
    [(b'R', 6), (b'W', 0)] (&'static Zd, &'static mut D8,) (a, b,);
    [(b'R', 6), (b'E', -1), (b'W', 0)] (&'static Zd, EcsIds, &'static mut D8,) (a, b, c,);
    [(b'E', -1), (b'W', 0)] (EcsIds, &'static mut D8,) (a, b,);
    [(b'E', -1), (b'W', 6)] (EcsIds, &'static mut Zd,) (a, b,) ways;
    [(b'W', 0), (b'R', 6)] (&'static mut D8, &'static Zd,) (a, b,);
    [(b'W', 0), (b'E', -1), (b'R', 6)] (&'static mut D8, EcsIds, &'static Zd,) (a, b, c,);
    [(b'W', 6), (b'R', 0)] (&'static mut Zd, &'static D8,) (a, b,);
    [(b'W', 6), (b'E', -1), (b'R', 0)] (&'static mut Zd, EcsIds, &'static D8,) (a, b, c,);
    [(b'W', 0), (b'W', 6)] (&'static mut D8, &'static mut Zd,) (a, b,) ways;
    [(b'W', 0), (b'E', -1), (b'W', 6)] (&'static mut D8, EcsIds, &'static mut Zd,) (a, b, c,);
    [(b'W', 6), (b'W', 0)] (&'static mut Zd, &'static mut D8,) (a, b,);
    [(b'W', 6), (b'E', -1), (b'W', 0)] (&'static mut Zd, EcsIds, &'static mut D8,) (a, b, c,);
    [(b'R', 9)] (&'static Bx,) (a,);
    [(b'R', 9), (b'E', -1)] (&'static Bx, EcsIds,) (a, b,) ways;
    [(b'R', 3)] (&'static B3,) (a,);
    [(b'R', 3), (b'E', -1)] (&'static B3, EcsIds,) (a, b,);
    [(b'R', 9), (b'R', 3)] (&'static Bx, &'static B3,) (a, b,);
    [(b'R', 9), (b'E', -1), (b'R', 3)] (&'static Bx, EcsIds, &'static B3,) (a, b, c,);
    [(b'R', 3), (b'R', 9)] (&'static B3, &'static Bx,) (a, b,) ways;
    [(b'R', 3), (b'E', -1), (b'R', 9)] (&'static B3, EcsIds, &'static Bx,) (a, b, c,);
    [(b'R', 9), (b'W', 3)] (&'static Bx, &'static mut B3,) (a, b,);
    [(b'R', 9), (b'E', -1), (b'W', 3)] (&'static Bx, EcsIds, &'static mut B3,) (a, b, c,);
    [(b'R', 3), (b'W', 9)] (&'static B3, &'static mut Bx,) (a, b,);
    [(b'R', 3), (b'E', -1), (b'W', 9)] (&'static B3, EcsIds, &'static mut Bx,) (a, b, c,) ways;
    [(b'E', -1), (b'W', 9)] (EcsIds, &'static mut Bx,) (a, b,);
    [(b'E', -1), (b'W', 3)] (EcsIds, &'static mut B3,) (a, b,);
    [(b'W', 9), (b'R', 3)] (&'static mut Bx, &'static B3,) (a, b,);
    [(b'W', 9), (b'E', -1), (b'R', 3)] (&'static mut Bx, EcsIds, &'static B3,) (a, b, c,);
    [(b'W', 3), (b'R', 9)] (&'static mut B3, &'static Bx,) (a, b,) ways;
    [(b'W', 3), (b'E', -1), (b'R', 9)] (&'static mut B3, EcsIds, &'static Bx,) (a, b, c,);
    [(b'W', 9), (b'W', 3)] (&'static mut Bx, &'static mut B3,) (a, b,);
    [(b'W', 9), (b'E', -1), (b'W', 3)] (&'static mut Bx, EcsIds, &'static mut B3,) (a, b, c,);
    [(b'W', 3), (b'W', 9)] (&'static mut B3, &'static mut Bx,) (a, b,);
    [(b'W', 3), (b'E', -1), (b'W', 9)] (&'static mut B3, EcsIds, &'static mut Bx,) (a, b, c,) ways;
    [(b'E', -1), (b'R', 16)] (EcsIds, &'static Huge,) (a, b,);
    [(b'W', 16), (b'E', -1)] (&'static mut Huge, EcsIds,) (a, b,);
    [(b'R', 16)] (&'static Huge,) (a,);
    [(b'R', 0), (b'W', 16), (b'E', -1)] (&'static D8, &'static mut Huge, EcsIds,) (a, b, c,);
    [(b'E', -1), (b'R', 16), (b'R', 6), (b'W', 1)] (EcsIds, &'static Huge, &'static Zd, &'static mut P4,) (a, b, c, d,) ways;
    [(b'R', 10), (b'R', 16)] (&'static A64, &'static Huge,) (a, b,);
}
