pub mod atoms;
#[cfg(feature = "inner")]
mod canvas;
mod decode;
mod faults;
mod image;
mod parse;
mod robust;
mod style;
use crate::explore::Explorer;
pub use robust::made;

pub fn run(e: &mut Explorer) {
    match e.property.clone().as_str() {
        "C01" => robust::c01(e),
        "C02" => parse::c02(e),
        "C03" => parse::c03(e),
        "C04" => parse::c04(e),
        "C05" => style::c05(e),
        "C06" => style::c06(e),
        "C07" => style::c07(e),
        "C08" => image::c08(e),
        "C09" => image::c09(e),
        "C10" => image::c10(e),
        "C11" => image::c11(e),
        "C12" => image::c12(e),
        "C13" => {
            #[cfg(feature = "inner")]
            canvas::c13(e);
            image::c13(e)
        }
        "C14" => faults::c14(e),
        "C15" => decode::c15(e),
        "C16" => robust::c16(e),
        "C17" => style::c17(e),
        "C18" => faults::c18(e),
        p => panic!("no property {p}"),
    }
}
