use crate::runner::Prop;
pub mod arith;
pub mod bristol;
pub mod bundled;
pub mod circuits;
pub mod convert;
pub mod cost;
pub mod fields;
#[cfg(feature = "foreign")]
pub mod foreign;
pub mod errors;
pub mod identity;
pub mod places;
pub mod print;
pub mod size;
pub mod whole;

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => circuits::c01(),
        "C02" => circuits::c02(),
        "C03" => cost::c03(),
        "C04" => circuits::c04(),
        "C05" => circuits::c05(),
        "C06" => circuits::c06(),
        "C07" => bristol::c07(),
        "C08" => bristol::c08(),
        "C09" => bristol::c09(),
        "C10" => bristol::c10(),
        "C11" => bristol::c11(),
        "C12" => arith::c12(),
        "C13" => arith::c13(),
        "C14" => arith::c14(),
        "C15" => arith::c15(),
        "C16" => fields::c16(),
        "C17" => fields::c17(),
        "C18" => bundled::c18(),
        "C19" => bundled::c19(),
        "C20" => convert::c20(),
        "C21" => convert::c21(),
        "C22" => identity::c22(),
        "C23" => identity::c23(),
        "C24" => identity::c24(),
        "C25" => bristol::c25(),
        #[cfg(feature = "foreign")]
        "C26" => foreign::c26(),
        "C27" => places::c27(),
        "C28" => places::c28(),
        "C29" => places::c29(),
        "C30" => whole::c30(),
        "C31" => whole::c31(),
        "C32" => errors::c32(),
        "C33" => size::c33(),
        "C34" => size::c34(),
        "C35" => print::c35(),
        _ => return None,
    })
}

/// How many times the base number of cases a quick check runs, so that cheap checks use about ten seconds too.
pub fn quick_scale(id: &str) -> usize {
    match id {
        "C06" | "C32" => 40,
        "C04" | "C05" | "C11" | "C20" | "C23" => 20,
        "C07" | "C22" | "C25" | "C26" | "C27" => 12,
        "C02" | "C08" | "C09" | "C10" | "C18" | "C19" | "C28" | "C29" | "C30" => 8,
        "C14" | "C21" => 5,
        "C01" | "C16" | "C24" | "C33" | "C34" | "C35" => 4,
        "C12" | "C13" | "C15" | "C17" => 2,
        _ => 1,
    }
}
