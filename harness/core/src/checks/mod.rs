macro_rules! checks {
    ($($m:ident),*) => {
        $(pub mod $m;)*
        pub fn all() -> Vec<crate::runner::Fam> {
            let mut v = vec![];
            $(v.extend($m::fams());)*
            v
        }
    };
}
checks!(c01, c02, c03, c04, c05, c06, c07, c08, c13, c14, c15, c16, c19, c20, c21);
