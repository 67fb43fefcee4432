use crate::engine::Check;

pub mod counts;
pub mod device;
pub mod forms;
pub mod inject;
pub mod input;
pub mod line;
pub mod macros;
pub mod modes;
pub mod output;
pub mod pure;
pub mod screen;
pub mod signals;
pub mod threads;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"];

pub fn get(id: &str, tier: &str) -> Option<Check> {
    let t = tier == "thorough";
    Some(match id {
        "C01" => screen::c01(t),
        "C02" => screen::c02(t),
        "C03" => screen::c03(t),
        "C04" => line::c04(t),
        "C05" => output::c05(t),
        "C06" => screen::c06(t),
        "C07" => modes::c07(t),
        "C08" => modes::c08(t),
        "C09" => modes::c09(t),
        "C10" => input::c10(t),
        "C11" => input::c11(t),
        "C12" => input::c12(t),
        "C13" => signals::c13(t),
        "C14" => input::c14(t),
        "C15" => threads::c15(t),
        "C16" => threads::c16(t),
        "C17" => threads::c17(t),
        "C18" => inject::c18(t),
        "C19" => pure::c19(t),
        "C20" => pure::c20(t),
        "C21" => macros::c21(t),
        "C22" => line::c22(t),
        "C23" => pure::c23(t),
        "C24" => forms::c24(t),
        "C25" => device::c25(t),
        _ => return None,
    })
}
