use vpmc::Ctx;
mod binding;
mod claims;
mod copies;
mod ops;

pub fn dispatch(ctx: &Ctx) -> bool {
    match ctx.id.as_str() {
        "T01" => ops::t01(ctx),
        "T02" => ops::t02(ctx),
        "T03" => claims::t03(ctx),
        "T04" => claims::t04(ctx),
        "T05" => copies::t05(ctx),
        "T06" => binding::t06(ctx),
        "T07" => binding::t07(ctx),
        _ => return false,
    }
    true
}
