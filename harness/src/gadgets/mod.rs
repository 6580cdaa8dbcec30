use vpmc::Ctx;
mod bags;
mod big;
mod common;
mod shape;
mod compose;
mod helpers;
mod sets;
mod sizes;
mod sorts;
mod tables;

pub fn dispatch(ctx: &Ctx) -> bool {
    match ctx.id.as_str() {
        "G01" => bags::g01(ctx),
        "G02" => bags::g02(ctx),
        "G03" => bags::g03(ctx),
        "G04" => bags::g04(ctx),
        "G05" => sorts::g05(ctx),
        "G06" => sorts::g06(ctx),
        "G07" => sorts::g07(ctx),
        "G08" => sets::g08(ctx),
        "G09" => sets::g09(ctx),
        "G10" => sets::g10(ctx),
        "G11" => sets::g11(ctx),
        "G12" => sets::g12(ctx),
        "G13" => tables::g13(ctx),
        "G14" => tables::g14(ctx),
        "G15" => tables::g15(ctx),
        "G16" => tables::g16(ctx),
        "G17" => tables::g17(ctx),
        "G18" => helpers::g18(ctx),
        "G19" => compose::g19(ctx),
        "G20" => shape::g20(ctx),
        _ => return false,
    }
    sizes::run(ctx);
    big::run(ctx);
    true
}
