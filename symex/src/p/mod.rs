//! One module per property; exactly one is selected by a cargo feature so that a
//! check only compiles what it needs.  C23 re-runs pieces of the `shared` ones.
macro_rules! props {
    (shared $($f:literal $m:ident),*; own $($g:literal $k:ident),* $(,)?) => {
        $(#[cfg(any(feature = $f, feature = "c23"))] pub mod $m;)*
        $(#[cfg(feature = $g)] pub mod $k;)*
        #[allow(unreachable_code)]
        pub fn scenarios() -> Vec<crate::harness::Scenario> {
            let mut v: Vec<crate::harness::Scenario> = vec![];
            $(#[cfg(all(feature = $f, not(feature = "c28")))] v.extend($m::scenarios());)*
            $(#[cfg(all(feature = $g, not(all(feature = "c28", feature = "c07"))))] v.extend($k::scenarios());)*
            #[cfg(feature = "c28")]
            v.extend(c28::scenarios());
            v
        }
    };
}
props!(shared "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18;
       own "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c19" c19, "c20" c20, "c21" c21, "c23" c23, "c24" c24, "c25" c25, "c26" c26, "c27" c27, "c29" c29, "c30" c30);
#[cfg(feature = "c28")]
pub mod c28;
