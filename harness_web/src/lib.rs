pub use symbolic_regression_wasm::*;
