//! The reference model: an independent description of what a stream of
//! bytes means (framing, printer state, layout, painting, HTML).
pub mod barcode;
pub mod frame;
pub mod glyph;
pub mod html;
pub mod machine;
pub mod paint;
pub mod scan;
pub mod tables;
pub mod thermal;
