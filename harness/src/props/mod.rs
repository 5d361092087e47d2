use crate::util::report::Obs;
use crate::util::run::{Ctx, Slot};

pub mod client;
pub mod codec;
pub mod conv;
pub mod endure;
pub mod example;
pub mod failures;
pub mod family;
pub mod flood;
pub mod ident;
pub mod live;
pub mod neutral;
pub mod nostd;
pub mod san;
pub mod steady;
pub mod sys;
pub mod texts;

pub fn run(ctx: &Ctx, obs: &mut Obs, slot: &Slot) -> bool {
    match ctx.id.as_str() {
        "C01" => codec::c01(ctx, obs, slot),
        "C02" => codec::c02(ctx, obs, slot),
        "C03" => codec::c03(ctx, obs, slot),
        "C04" => codec::c04(ctx, obs, slot),
        "C05" => codec::c05(ctx, obs, slot),
        "C06" => ident::c06(ctx, obs, slot),
        "C07" => ident::c07(ctx, obs, slot),
        "C08" => codec::c08(ctx, obs, slot),
        "C09" => codec::c09(ctx, obs, slot),
        "C10" => conv::c10(ctx, obs, slot),
        "C11" => conv::c11(ctx, obs, slot),
        "C12" => conv::c12(ctx, obs, slot),
        "C13" => conv::c13(ctx, obs, slot),
        "C14" => conv::c14(ctx, obs, slot),
        "C15" => conv::c15(ctx, obs, slot),
        "C16" => live::c16(ctx, obs, slot),
        "C17" => live::c17(ctx, obs, slot),
        "C18" => live::c18(ctx, obs, slot),
        "C19" => live::c19(ctx, obs, slot),
        "C20" => live::c20(ctx, obs, slot),
        "C21" => live::c21(ctx, obs, slot),
        "C22" => live::c22(ctx, obs, slot),
        "C23" => flood::c23(ctx, obs, slot),
        "C24" => client::c24(ctx, obs, slot),
        "C25" => sys::c25(ctx, obs, slot),
        "C26" => sys::c26(ctx, obs, slot),
        "C27" => nostd::c27(ctx, obs, slot),
        "C28" => san::c28(ctx, obs, slot),
        "C29" => example::c29(ctx, obs, slot),
        "C30" => ident::c30(ctx, obs, slot),
        "C31" => steady::c31(ctx, obs, slot),
        "C32" => texts::c32(ctx, obs, slot),
        "C33" => failures::c33(ctx, obs, slot),
        "C34" => neutral::c34(ctx, obs, slot),
        // (building for Miri means running)
        "none" => {}
        _ => return false,
    }
    true
}
