//! Token types shared by compiled grammars. Every token carries one `Val`.
use crate::rt::{FromRaw, Val};

macro_rules! toks {
    ($name:ident: $($v:ident = $k:literal),*) => {
        #[derive(Debug)]
        pub enum $name { $($v(Val)),* }
        impl FromRaw for $name {
            fn from_raw(k: u32, v: Val) -> Self {
                match k { $($k => $name::$v(v),)* _ => panic!("harness: no terminal {k}") }
            }
        }
    };
}

toks!(Tok1: A = 0);
toks!(Tok2: A = 0, B = 1);
toks!(Tok3: A = 0, B = 1, C = 2);
toks!(Tok4: A = 0, B = 1, C = 2, D = 3);
toks!(Tok5: A = 0, B = 1, C = 2, D = 3, E = 4);
toks!(Tok6: A = 0, B = 1, C = 2, D = 3, E = 4, F = 5);

/// For grammars with many terminals: `TokN { k: 17, v: <Val> }`.
#[derive(Debug)]
pub struct TokN {
    pub k: u32,
    pub v: Val,
}
impl FromRaw for TokN {
    fn from_raw(k: u32, v: Val) -> Self {
        TokN { k, v }
    }
}
