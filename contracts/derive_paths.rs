/// The generated code names the library by absolute path.
pub mod static_xml {
    pub use crate::*;
    pub mod de { pub use crate::*; }
    pub mod ser { pub use crate::*; }
}
