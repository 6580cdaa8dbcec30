use vpmc::Ctx;
mod sc;
mod zc;
mod tr;

pub fn dispatch(ctx: &Ctx) -> bool {
    match ctx.id.as_str() {
        "S01" => sc::s01(ctx),
        "S02" => sc::s02(ctx),
        "S03" => zc::s03(ctx),
        "S04" => tr::s04(ctx),
        _ => return false,
    }
    true
}
