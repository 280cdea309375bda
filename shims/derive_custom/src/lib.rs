pub use vxderive::{subsweep_parameters, Named};
